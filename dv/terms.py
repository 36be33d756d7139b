"""Integer terms as polynomials over opaque z3 atoms; linearised z3 translation."""
import z3
from fractions import Fraction

ATOM = []            # idx -> z3 Int expr
ATOM_IV = []         # idx -> (lo,hi) or (None,None)
ATOM_NAME = []
_by_id = {}          # ast id -> idx
MONO = {}            # monomial tuple -> z3 const
MONO_NAME = {}       # const name -> tuple
FACTS = {}           # ast id of boolean -> (op, Poly) op in '<=','=='  meaning poly op 0
_keep = []
_ctr = [0]

def reset():
    ATOM.clear(); ATOM_IV.clear(); ATOM_NAME.clear(); _by_id.clear(); MONO.clear(); MONO_NAME.clear(); FACTS.clear(); _keep.clear()
    _ctr[0] = 0; _zc.clear(); BOOL01.clear(); DIV.clear()

def fresh_name(base):
    _ctr[0] += 1
    return '%s!%d' % (base, _ctr[0])

def atom(e, iv=(None, None)):
    i = _by_id.get(e.get_id())
    if i is None:
        i = len(ATOM); ATOM.append(e); ATOM_IV.append(iv); ATOM_NAME.append(e.decl().name() if e.num_args() == 0 else 'e%d' % i); _by_id[e.get_id()] = i
    else:
        a, b = ATOM_IV[i]; c, d = iv
        ATOM_IV[i] = (c if a is None else a if c is None else max(a, c), d if b is None else b if d is None else min(b, d))
    return i

class Poly:
    __slots__ = ('m', '_h')
    def __init__(self, m): self.m = m; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.m.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.m == o.m
    def __ne__(self, o): return not self == o
    def atoms(self):
        s = set()
        for k in self.m: s.update(k)
        return s
    def deg(self): return max(len(k) for k in self.m)
    def __repr__(self):
        return ' + '.join('%d*%s' % (c, '*'.join(ATOM_NAME[a] for a in k)) if k else str(c) for k, c in self.m.items())

def var(e, iv=(None, None)):
    return Poly({(atom(e, iv),): 1})

def fresh_int(name, iv=(None, None)):
    return var(z3.Int(fresh_name(name)), iv)

def mk(m):
    m = {k: c for k, c in m.items() if c}
    if not m: return 0
    if len(m) == 1 and () in m: return m[()]
    return Poly(m)

def dct(a): return {(): a} if not isinstance(a, Poly) else a.m

def add(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return a+b
    m = dict(dct(a))
    for k, c in dct(b).items(): m[k] = m.get(k, 0) + c
    return mk(m)
def neg(a):
    if not isinstance(a, Poly): return -a
    return Poly({k: -c for k, c in a.m.items()})
def sub(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return a-b
    m = dict(dct(a))
    for k, c in dct(b).items(): m[k] = m.get(k, 0) - c
    return mk(m)
def mul(a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return a*b
    if not isinstance(a, Poly):
        return 0 if a == 0 else Poly({k: c*a for k, c in b.m.items()})
    if not isinstance(b, Poly):
        return 0 if b == 0 else Poly({k: c*b for k, c in a.m.items()})
    m = {}
    for k1, c1 in a.m.items():
        for k2, c2 in b.m.items():
            k = tuple(sorted(k1+k2))
            m[k] = m.get(k, 0) + c1*c2
    return mk(m)
def divexact(a, n):
    if not isinstance(a, Poly):
        return a//n if a % n == 0 else None
    if any(c % n for c in a.m.values()): return None
    return Poly({k: c//n for k, c in a.m.items()})

def mono_const(k):
    c = MONO.get(k)
    if c is None:
        nm = 'mono!' + '*'.join(map(str, k))
        c = z3.Int(nm); MONO[k] = c; MONO_NAME[nm] = k
    return c

_zc = {}
DIV = {}
def z(a):
    """to linearised z3"""
    if not isinstance(a, Poly): return z3.IntVal(a)
    r = _zc.get(a)
    if r is not None: return r
    ts = []
    for k, c in a.m.items():
        if not k: ts.append(z3.IntVal(c)); continue
        e = ATOM[k[0]] if len(k) == 1 else mono_const(k)
        ts.append(e if c == 1 else c*e)
    r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    _zc[a] = r
    return r

def ival(a):
    """interval of a poly (None = unbounded)"""
    if not isinstance(a, Poly): return (a, a)
    lo = hi = 0
    for k, c in a.m.items():
        if not k:
            if lo is not None: lo += c
            if hi is not None: hi += c
            continue
        l, h = 1, 1
        ok = True
        for at in k:
            x, y = ATOM_IV[at]
            if x is None or y is None:
                # allow nonneg lower
                ok = False; break
            cs = (l*x, l*y, h*x, h*y)
            l, h = min(cs), max(cs)
        if not ok:
            # nonneg check when all atoms >=0 lower
            if all(ATOM_IV[at][0] is not None and ATOM_IV[at][0] >= 0 for at in k):
                l = 1
                for at in k: l *= ATOM_IV[at][0]
                h = None
            else:
                return (None, None)
        if c < 0: l, h = (None if h is None else h*c), (None if l is None else l*c)
        else: l, h = (None if l is None else l*c), (None if h is None else h*c)
        lo = None if lo is None or l is None else lo+l
        hi = None if hi is None or h is None else hi+h
    return (lo, hi)

def le0(p):
    """boolean p <= 0"""
    lo, hi = ival(p)
    if hi is not None and hi <= 0: return True
    if lo is not None and lo > 0: return False
    e = z(p) <= 0
    if e.get_id() not in FACTS:
        FACTS[e.get_id()] = ('<=', p); _keep.append(e)
    return e
def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), 1))
def eq(a, b):
    if BOOL01:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Poly) and not isinstance(y, Poly) and y in (0, 1):
                c = as_bool01(x)
                if c is not None: return c if y == 1 else b_not(c)
    p = sub(a, b)
    lo, hi = ival(p)
    if lo is not None and lo == hi == 0: return True
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    e = z(p) == 0
    if e.get_id() not in FACTS:
        FACTS[e.get_id()] = ('==', p); _keep.append(e)
    return e

def b_not(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def b_and(*xs):
    o = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        o.append(x)
    if not o: return True
    return o[0] if len(o) == 1 else z3.And(o)
def b_or(*xs):
    o = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        o.append(x)
    if not o: return False
    return o[0] if len(o) == 1 else z3.Or(o)
def b_imp(a, b): return b_or(b_not(a), b)
def zb(a): return z3.BoolVal(a) if isinstance(a, bool) else a

BOOL01 = {}
def as_bool01(p):
    if not isinstance(p, Poly): return bool(p) if p in (0, 1) else None
    if len(p.m) == 1:
        (k, c), = p.m.items()
        if c == 1 and len(k) == 1: return BOOL01.get(k[0])
    return None
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a == b: return a
    if not isinstance(a, Poly) and not isinstance(b, Poly) and (a, b) in ((1, 0), (0, 1)):
        if a == 0: c = b_not(c)
        v = var(z3.If(c, z3.IntVal(1), z3.IntVal(0)), (0, 1))
        BOOL01[list(v.m)[0][0]] = c
        return v
    la, ha = ival(a); lb, hb = ival(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return var(z3.If(c, z(a), z(b)), (lo, hi))

def fact_polys(b):
    """list of (op,poly) conjunct facts of a boolean path condition element, op in '<=','=='"""
    if isinstance(b, bool): return []
    f = FACTS.get(b.get_id())
    if f: return [f]
    if z3.is_not(b):
        f = FACTS.get(b.arg(0).get_id())
        if f and f[0] == '<=':   # not p<=0  -> p>=1 -> 1-p<=0
            return [('<=', sub(1, f[1]))]
        if f and f[0] == '==': return [('!=', f[1])]
        return []
    if z3.is_and(b):
        r = []
        for c in b.children(): r += fact_polys(c)
        return r
    return []

# ---- reals
def zr(a):
    if isinstance(a, Fraction): return z3.RealVal(str(a))
    return a
def fr_const(x): return isinstance(x, Fraction)

def polydiv(a, b):
    """a / b as a polynomial when the division is exact over the integers, else None"""
    if not isinstance(b, Poly) or not isinstance(a, Poly): return None
    if not b.atoms() <= a.atoms() or len(a.m) > 200: return None
    vs = sorted(a.atoms())
    def key(k): return (len(k), tuple(k.count(v) for v in vs))
    lb = max(b.m, key=key); cb = b.m[lb]
    rem = dict(a.m); q = {}
    while rem:
        lr = max(rem, key=key); c = rem[lr]
        k = list(lr)
        for x in lb:
            if x not in k: return None
            k.remove(x)
        if c % cb: return None
        k = tuple(k); c //= cb
        q[k] = q.get(k, 0) + c
        for kb, d in b.m.items():
            kk = tuple(sorted(k + kb)); n = rem.get(kk, 0) - c*d
            if n: rem[kk] = n
            else: rem.pop(kk, None)
        if len(q) > 200: return None
    return mk(q)
