"""Contract verifier for LLVM IR: symbolic execution function by function, loop invariants,
callee contracts, SMT discharge.  See /verif/DESIGN.md."""
import math
import z3, struct, time, re, sys, os
from fractions import Fraction
import terms as T
from terms import Poly, add, sub, mul, neg, le0, le, lt, eq, b_not, b_and, b_or, b_imp, zb, zr
import llparse

class Unsupported(Exception): pass
class PathDead(Exception): pass

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and self.off == x.off
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return 'Ptr(%s,%s)' % (self.o, self.off)
NULL = Ptr(0, 0)
class Fn:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __eq__(self, x): return isinstance(x, Fn) and self.n == x.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return 'Fn(%s)' % self.n
class Undef:
    def __repr__(self): return 'Undef'
UNDEF = Undef()
class Bytes:
    """concatenation of byte parts, little endian: list of (nbytes, value, slice_off, full_n)"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def __repr__(self): return 'Bytes%r' % (self.p,)

class Arr:
    """functional array value: linked chain"""
    __slots__ = ('kind', 'prev', 'a', 'es', 'vk')
    def __init__(self, kind, prev, a, es, vk):
        self.kind = kind; self.prev = prev; self.a = a; self.es = es; self.vk = vk

_arrc = [0]
def fresh_arr(es, vk, name='A'):
    _arrc[0] += 1
    nm = '%s!%d' % (name, _arrc[0])
    if vk == 'i': f = z3.Function(nm, z3.IntSort(), z3.IntSort())
    elif vk == 'f': f = z3.Function(nm, z3.IntSort(), z3.RealSort())
    else: raise Unsupported('array of kind %s' % vk)
    return Arr('base', None, f, es, vk)
def arr_iv(a):
    b = 8*a.es
    return (-(1 << (b-1)), (1 << (b-1)) - 1)
def sel(a, idx):
    """select; returns Poly/int or Real"""
    pend = []
    while True:
        if a.kind == 'base':
            e = a.a(T.z(idx))
            v = T.var(e, arr_iv(a)) if a.vk == 'i' else e
            break
        if a.kind == 'store':
            c = eq(a.a[0], idx)
            if c is True:
                v = a.a[1]; break
            if c is not False: pend.append((c, a.a[1]))
            a = a.prev
        elif a.kind == 'fill':
            s, n, val = a.a
            c = b_and(le(s, idx), lt(idx, add(s, n)))
            if c is True: v = val; break
            if c is not False: pend.append((c, val))
            a = a.prev
        elif a.kind == 'copy':
            s, n, src, s0 = a.a
            c = b_and(le(s, idx), lt(idx, add(s, n)))
            if c is not False:
                val = sel(src, add(sub(idx, s), s0))
                if c is True: v = val; break
                pend.append((c, val))
            a = a.prev
        else: raise Unsupported('arr')
    for c, val in reversed(pend):
        v = vite(c, val, v)
    return v

def isint(v): return isinstance(v, (int, Poly)) and not isinstance(v, bool)
def isbool(v): return isinstance(v, (bool, z3.BoolRef))
def isreal(v): return isinstance(v, (Fraction, z3.ArithRef))
def vite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isint(a) and isint(b): return T.ite(c, a, b)
    if isbool(a) and isbool(b): return b_or(b_and(c, a), b_and(b_not(c), b))
    if isreal(a) and isreal(b):
        if isinstance(a, Fraction) and a == b: return a
        return z3.If(c, zr(a), zr(b))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return Ptr(a.o, T.ite(c, a.off, b.off))
    return None

class ObjS:
    __slots__ = ('size', 'cells', 'fills', 'arr', 'alive', 'kind', 'name', 'ro')
    def __init__(self, size, kind, name):
        self.size = size; self.cells = {}; self.fills = []; self.arr = None; self.alive = True; self.kind = kind; self.name = name; self.ro = False
    def clone(self):
        n = ObjS.__new__(ObjS)
        n.size = self.size; n.cells = dict(self.cells); n.fills = list(self.fills); n.arr = self.arr; n.alive = self.alive; n.kind = self.kind; n.name = self.name; n.ro = self.ro
        return n

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'prev', 'ret', 'loops', 'allocas', 'uid')
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.blk = self.blk; f.ip = self.ip; f.regs = dict(self.regs); f.prev = self.prev; f.ret = self.ret
        f.loops = dict(self.loops); f.allocas = self.allocas; f.uid = self.uid
        return f

class LoopRec:
    __slots__ = ('token', 'snap', 'conc', 'mode', 'sym', 'nf', 'fk')
    def copy(self):
        r = LoopRec(); r.token = self.token; r.snap = self.snap; r.conc = self.conc; r.mode = self.mode; r.sym = self.sym; r.nf = self.nf; r.fk = self.fk
        return r

class State:
    __slots__ = ('frames', 'objs', 'owned', 'pc', 'tokens', 'inputs', 'ghosts', 'exc', 'caught', 'status', 'stopinfo', 'watches', 'maythrow', 'split', 'leakobjs', 'nforks')
    def fork(self):
        s = State.__new__(State)
        s.nforks = self.nforks
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs); s.owned = set(); self.owned = set()
        s.pc = list(self.pc); s.tokens = self.tokens; s.inputs = list(self.inputs); s.ghosts = dict(self.ghosts)
        s.exc = self.exc; s.caught = list(self.caught); s.status = self.status; s.stopinfo = None; s.watches = list(self.watches); s.maythrow = self.maythrow
        s.split = self.split; s.leakobjs = self.leakobjs
        return s

class Token:
    __slots__ = ('forked', 'dead')
    def __init__(self): self.forked = False; self.dead = False

W64 = 1 << 64
def norm_const(v, w):
    v &= (1 << w) - 1
    if v >> (w-1): v -= 1 << w
    return v

class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.o = opts or {}
        self.solver = z3.Solver()
        self.solver.set('timeout', int(self.o.get('timeout_ms', 4000)))
        self.stack = []
        self.obls = {}        # key -> record
        self.failed = []
        self.unsupported = []
        self.record = True
        self.write_logs = []
        self.cmp_logs = []
        self.next_obj = 1
        self.globobj = {}
        self.fnset = set()
        self.stats = dict(queries=0, solver_s=0.0, instrs=0, paths=0, loops_inv=0, houdini_rounds=0, inv_obls=0, nia=0, forks=0)
        self.reach = {}
        self.contracts = {}
        self.trusted = set()
        self.inv_cache = {}
        self.templates = self.o.get('templates', [])
        self.typeids = {}
        self.deadline = None
        self.loopinv = []
        self.initmem = {}
        self.thr_names = []
        self.baseatoms = {}
        self.uid = 0
        self.externs = dict(EXTERNS)

    # ------------------------------------------------------------ solver
    def sync(self, pc):
        st = self.stack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]: i += 1
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.solver.push(); self.solver.add(zb(c)); st.append(c)
    def check(self, pc, extra=None):
        """linear check: returns z3 result"""
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
        t = time.time()
        self.sync(pc)
        if extra is not None:
            self.solver.push()
            for e in (extra if isinstance(extra, list) else [extra]): self.solver.add(zb(e))
        r = self.solver.check()
        self.last_model = self.solver.model() if r == z3.sat else None
        if extra is not None: self.solver.pop()
        self.stats['queries'] += 1; self.stats['solver_s'] += time.time() - t
        return r
    def feasible(self, st, cond):
        if isinstance(cond, bool): return cond
        return self.check(st.pc, cond) != z3.unsat
    def monos_in(self, exprs):
        seen = set(); ms = set(); todo = [e for e in exprs if not isinstance(e, bool)]
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_const(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = e.decl().name()
                    if nm in T.MONO_NAME: ms.add(T.MONO_NAME[nm])
                continue
            todo.extend(e.children())
        return ms
    def saturate(self, pc, goal_neg, level=1):
        """Handelman-style products of linear facts relevant to monomials"""
        allx = [c for c in pc] + [goal_neg]
        gm = self.monos_in([goal_neg])
        allm = self.monos_in(allx)
        rel = set()
        for k in allm: rel.update(k)
        if not rel: return []
        facts = []; eqs = []
        for c in allx:
            for op, p in T.fact_polys(c):
                if not isinstance(p, Poly): continue
                if op == '==': eqs.append(p)
                elif op == '<=': facts.append(neg(p))   # >=0
        maxdeg = max(len(k) for k in allm)
        out = []
        # interval facts for relevant atoms
        lin = []
        for a in rel:
            lo, hi = T.ATOM_IV[a]
            pa = Poly({(a,): 1})
            if lo is not None and abs(lo) < (1 << 31): lin.append(sub(pa, lo))
        for f in facts:
            if f.deg() == 1 and f.atoms() <= rel: lin.append(f)
        # dedupe
        seen = set(); l2 = []
        for f in lin:
            if isinstance(f, Poly) and f not in seen: seen.add(f); l2.append(f)
        lin = l2
        # multipliers: sub-monomials of the monomials in play, over atoms known to be >= 0
        nonneg = set(a for a in rel if T.ATOM_IV[a][0] is not None and T.ATOM_IV[a][0] >= 0)
        for f in lin:
            if len(f.m) == 1 or (len(f.m) == 2 and f.m.get((), 0) <= 0):
                for k, c in f.m.items():
                    if len(k) == 1 and c > 0: nonneg.add(k[0])
        subm = set()
        for k in allm:
            n = len(k)
            for mask in range(1, (1 << n) - 1):
                q = tuple(k[i] for i in range(n) if mask >> i & 1)
                if all(a in nonneg for a in q): subm.add(q)
        for k in subm:
            pk = Poly({k: 1})
            for f in lin:
                if f.deg() + len(k) > maxdeg: continue
                p = mul(f, pk)
                out.append(T.z(p) >= 0)
        if level > 1:
            maxn = 4000
            cur = [(f, i) for i, f in enumerate(lin)]
            allp = []
            d = 2
            while d <= min(maxdeg, 3) and len(allp) < maxn:
                nxt = []
                for f, i in cur:
                    for j in range(i, len(lin)):
                        p = mul(f, lin[j])
                        if isinstance(p, Poly): nxt.append((p, j))
                        if len(nxt) + len(allp) > maxn: break
                    if len(nxt) + len(allp) > maxn: break
                allp += nxt; cur = nxt; d += 1
            for p, _ in allp:
                if p.deg() >= 2: out.append(T.z(p) >= 0)
        # equality products
        mults = set()
        for k in allm:
            for i in range(len(k)):
                mults.add(k[:i] + k[i+1:])
                for j in range(i+1, len(k)):
                    mults.add(tuple(k[:i] + k[i+1:j] + k[j+1:]))
        cnt = 0
        for e in eqs:
            if not (e.atoms() & rel): continue
            for k in mults:
                if not k or len(k) + e.deg() > maxdeg: continue
                p = mul(e, Poly({k: 1}))
                if isinstance(p, Poly):
                    out.append(T.z(p) == 0); cnt += 1
                if cnt > 3000: break
        return out
    def nia_defs(self, exprs):
        ds = []
        todo = self.monos_in(exprs); done = set()
        while todo:
            k = todo.pop()
            if k in done: continue
            done.add(k)
            e = T.ATOM[k[0]]
            for a in k[1:]: e = e * T.ATOM[a]
            ds.append(T.MONO[k] == e)
            todo |= self.monos_in([T.ATOM[a] for a in k]) - done
        return ds
    def prove(self, st, goal):
        """returns ('proved',how) | ('sat',model) | ('unknown',reason)"""
        if goal is True: return ('proved', 'trivial')
        if goal is False: ng = True
        else: ng = b_not(goal)
        r = self.check(st.pc, ng)
        if r == z3.unsat: return ('proved', 'z3-lia')
        m0 = self.last_model
        monos = self.monos_in([ng] + st.pc)
        if not monos:
            if r == z3.sat: return ('sat', self.small_model(st, ng) or m0)
            # nonlinear reals / timeout: retry with longer
            return self.hard(st, ng, False)
        if len(self.monos_in([ng])) or True:
            for level in (1, 2):
                t = time.time()
                ex = self.saturate(st.pc, ng, level)
                if ex:
                    s = z3.Solver()
                    s.set('timeout', 10000)
                    for c in st.pc: s.add(zb(c))
                    s.add(zb(ng))
                    s.add(ex)
                    r = s.check()
                    self.stats['queries'] += 1; self.stats['solver_s'] += time.time() - t
                    if r == z3.unsat: return ('proved', 'z3-lia+products')
        return self.hard(st, ng, True)
    def small_model(self, st, ng):
        if not self.record: return None
        ins = [v for _, v, _ in st.inputs if isinstance(v, Poly)]
        for bound in (3, 8, 100):
            s = z3.Solver(); s.set('timeout', 3000)
            for c in st.pc: s.add(zb(c))
            s.add(zb(ng))
            for v in ins: s.add(T.z(v) <= bound, T.z(v) >= -bound)
            if s.check() == z3.sat: return s.model()
        return None
    def hard(self, st, ng, nia):
        self.stats['nia'] += 1
        ds = self.nia_defs([ng] + st.pc) if nia else []
        ins = [v for _, v, _ in st.inputs]
        for bound, to in ((6, 6000), (60, 6000), (None, int(self.o.get('nia_ms', 15000)))):
            t = time.time()
            s = z3.Solver(); s.set('timeout', to)
            for c in st.pc: s.add(zb(c))
            s.add(zb(ng))
            for d in ds: s.add(d)
            if bound is not None:
                for v in ins:
                    if isinstance(v, Poly): s.add(T.z(v) <= bound, T.z(v) >= -bound)
            r = s.check()
            self.stats['queries'] += 1; self.stats['solver_s'] += time.time() - t
            if r == z3.sat: return ('sat', s.model())
            if r == z3.unsat and bound is None: return ('proved', 'z3-nia')
        # second back end
        r = cvc5_check([zb(c) for c in st.pc] + [zb(ng)] + ds, 20)
        if r == 'unsat': return ('proved', 'cvc5')
        return ('unknown', 'solver')

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, kind, ident):
        """check obligation; assume it afterwards"""
        if goal is True:
            if self.record: self.note(kind, ident, 'proved', 'trivial', st)
            return
        if not self.record:
            self.assume(st, goal); return
        t = time.time()
        r, how = self.prove(st, goal)
        if r == 'proved':
            self.note(kind, ident, 'proved', how, st, time.time()-t)
        else:
            self.note(kind, ident, r, None, st, time.time()-t)
            self.failed.append(dict(kind=kind, id=ident, result=r, where=self.where(st), inputs=self.model_inputs(st, how if r == 'sat' else None),
                                    reason=str(how)[:300] if r != 'sat' else 'counterexample', goal=str(goal)[:600], tokens=st.tokens, trace=self.backtrace(st)))
        if goal is False:
            raise PathDead()
        self.assume(st, goal)
    def note(self, kind, ident, res, how, st, dt=0.0):
        k = (kind, ident)
        r = self.obls.setdefault(k, dict(n=0, proved=0, how={}, t=0.0))
        r['n'] += 1; r['t'] += dt
        if res == 'proved':
            r['proved'] += 1; r['how'][how] = r['how'].get(how, 0) + 1
    def where(self, st):
        f = st.frames[-1]
        return '%s:%s' % (demangle(f.fn.name), f.blk.name)
    def backtrace(self, st):
        return [demangle(f.fn.name)[:160] for f in st.frames[-8:]]
    def model_inputs(self, st, m):
        out = []
        for name, v, ty in st.inputs:
            if m is None: out.append((name, None, ty)); continue
            try:
                if isinstance(v, (int, Fraction)) and not isinstance(v, bool): out.append((name, str(v), ty)); continue
                e = m.eval(T.z(v) if isinstance(v, Poly) else v, model_completion=True)
                if ty == 'd':
                    if z3.is_rational_value(e): out.append((name, str(e.as_fraction()), ty))
                    else: out.append((name, str(e.approx(20).as_fraction()), ty))
                elif ty == 'b': out.append((name, '1' if z3.is_true(e) else '0', ty))
                else: out.append((name, str(e.as_long()), ty))
            except Exception as ex:
                out.append((name, None, ty))
        return out
    def assume(self, st, c):
        if c is True: return
        if c is False: raise PathDead()
        if z3.is_and(c):
            for x in c.children(): self.assume(st, x)
            return
        st.pc.append(c)

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name):
        i = self.next_obj; self.next_obj += 1
        o = ObjS(size, kind, name)
        st.objs[i] = o; st.owned.add(i)
        return i
    def wobj(self, st, i):
        o = st.objs[i]
        if i not in st.owned:
            o = o.clone(); st.objs[i] = o; st.owned.add(i)
        return o
    def gobj(self, st, name):
        while name in self.m.aliases: name = self.m.aliases[name]
        if name in self.m.funcs or name in self.m.decls: return Fn(name)
        i = self.globobj.get(name)
        if i is None:
            i = self.next_obj; self.next_obj += 1
            self.globobj[name] = i
        if i not in st.objs:
            t, init = self.m.gdef(name)
            o = ObjS(self.m.sizeof(t), 'global', name)
            st.objs[i] = o; st.owned.add(i)
            if init is not None: self.init_global(st, o, 0, t, init)
            elif name == '@__libc_single_threaded': o.cells[0] = (1, 1); self.trusted.add('single-threaded execution (shared_ptr reference counts)')
            o.ro = self.m.globals[name][0]
        return Ptr(i, 0)
    def init_global(self, st, o, off, t, c):
        k = c[0]
        t = self.m.rt(t)
        if k == 'zero': o.fills.append((off, self.m.sizeof(t), 0)); return
        if k == 'undef': return
        if k == 'cstr':
            bs = cstr_bytes(c[1])
            for j, b in enumerate(bs): o.cells[off+j] = (1, b if b < 128 else b-256)
            return
        if k == 'agg':
            if t[0] == 'st':
                for j, (et, ev) in enumerate(c[1]): self.init_global(st, o, off + self.m.field_off(t, j), et, ev)
            else:
                s = self.m.sizeof(t[2])
                for j, (et, ev) in enumerate(c[1]): self.init_global(st, o, off + j*s, et, ev)
            return
        o.cells[off] = (self.m.sizeof(t), self.const(st, t, c))
    def name_of(self, st, o):
        return st.objs[o].name if o in st.objs else str(o)
    def check_access(self, st, p, n, what):
        if isinstance(p, Undef): raise Unsupported('deref of undefined pointer in %s' % self.where(st))
        if isinstance(p, Fn): raise Unsupported('deref of function pointer')
        if not isinstance(p, Ptr): raise Unsupported('deref of non pointer %r' % (p,))
        if p.o == 0:
            self.oblige(st, False, 'memory', 'null-dereference'); raise PathDead()
        o = st.objs.get(p.o)
        if o is None: raise Unsupported('unknown object')
        if not o.alive:
            self.oblige(st, False, 'memory', 'use-after-free'); raise PathDead()
        off = p.off
        if isinstance(off, int) and isinstance(o.size, int):
            if not (0 <= off and off + n <= o.size):
                self.oblige(st, False, 'memory', 'out-of-bounds'); raise PathDead()
            return o
        self.oblige(st, b_and(le(0, off), le(add(off, n), o.size)), 'memory', 'in-bounds')
        return o
    def vkind(self, t):
        return {'i': 'i', 'f': 'f', 'p': 'p'}.get(t[0])
    def load(self, st, p, t):
        t = self.m.rt(t)
        n = self.m.sizeof(t)
        if t[0] in ('st', 'arr', 'vec'):
            return self.load_agg(st, p, t)
        o = self.check_access(st, p, n, 'load')
        if o.arr is not None or not isinstance(o.size, int):
            o = self.ensure_arr(st, p.o, t, n)
            idx = self.elem_index(o, p.off, n)
            v = sel(o.arr, idx)
            return self.coerce(st, v, t)
        off = p.off
        if not isinstance(off, int):
            return self.load_symoff(st, p, o, t, n)
        return self.load_conc(st, p.o, off, n, t)
    def ensure_arr(self, st, oi, t, n):
        o = st.objs[oi]
        if o.arr is None:
            vk = self.vkind(t)
            o = self.wobj(st, oi)
            if not isinstance(o.size, int) and o.cells: raise Unsupported('cells in symbolic object')
            # same initial contents in every state that shares the object
            ia = self.initmem.get((oi, n, vk))
            if ia is None:
                ia = self.initmem[(oi, n, vk)] = fresh_arr(n, vk, 'mem%d' % oi)
            o.arr = ia
            for (s, ln, b) in o.fills:
                o.arr = Arr('fill', o.arr, (T.divexact(s, n), T.divexact(ln, n), (0 if vk == 'i' else Fraction(0))), n, vk)
        return o
    def elem_index(self, o, off, n):
        if o.arr.es != n: raise Unsupported('mixed element sizes in symbolic array %s' % o.name)
        i = T.divexact(off, n)
        if i is None: raise Unsupported('unaligned symbolic access %s' % (off,))
        return i
    def load_symoff(self, st, p, o, t, n):
        cands = self.concretize(st, p.off, o.size, n)
        v = None
        for c in reversed(cands):
            x = self.load_conc(st, p.o, c, n, t)
            if v is None: v = x
            else:
                y = vite(eq(p.off, c), x, v)
                if y is None: raise Unsupported('symbolic offset load of mixed values')
                v = y
        return v
    def concretize(self, st, off, size, n):
        cands = []
        step = n
        g = 0
        c0 = off.m.get((), 0)
        import math
        for k, c in off.m.items():
            if k: g = math.gcd(g, abs(c))
        start = c0 % g if g else 0
        xs = list(range(start, size - n + 1, max(g, 1)))
        if len(xs) > 256: raise Unsupported('symbolic offset into large object')
        for x in xs:
            c = eq(off, x)
            if c is True: return [x]
            if c is False: continue
            if self.check(st.pc, c) != z3.unsat: cands.append(x)
        if not cands: raise PathDead()
        return cands
    def load_conc(self, st, oi, off, n, t):
        o = st.objs[oi]
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(st, c[1], t)
        b = self.gather(st, oi, off, n)
        if b is UNDEF:
            # uninitialised: materialise a symbolic value
            key = (oi, off, n, t[0])
            v = self.initmem.get(key)
            if v is None: v = self.initmem[key] = self.fresh_val(t, 'u_%s_%d' % (o.name[:20], off))
            if o.kind != 'stackundef':
                o2 = self.wobj(st, oi)
                for k in [k for k in o2.cells if k < off + n and k + o2.cells[k][0] > off]: del o2.cells[k]
                o2.cells[off] = (n, v)
            return v
        return self.coerce(st, b, t)
    def gather(self, st, oi, off, n):
        o = st.objs[oi]
        parts = []
        pos = off; end = off + n
        undef = 0
        cells = o.cells
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                k = min(c[0], end - pos)
                parts.append((k, c[1], 0, c[0]))
                pos += k; continue
            # cell covering pos
            cov = None
            for s in range(pos-1, max(pos-16, -1), -1):
                c = cells.get(s)
                if c is not None:
                    if s + c[0] > pos: cov = (s, c)
                    break
            if cov:
                s, c = cov
                k = min(s + c[0], end) - pos
                parts.append((k, c[1], pos - s, c[0])); pos += k; continue
            # fill
            fl = None
            for (s, ln, b) in reversed(o.fills):
                if s <= pos < s + ln: fl = (s, ln, b); break
            # extend until next cell
            nx = min([s for s in cells if s > pos] + [end])
            if fl:
                k = min(nx, fl[0] + fl[1]) - pos
                bv = fl[2]
                v = 0
                for j in range(k): v |= (bv & 255) << (8*j)
                parts.append((k, v, 0, k)); pos += k; continue
            k = nx - pos
            parts.append((k, UNDEF, 0, k)); undef += k; pos += k
        if undef == n: return UNDEF
        if len(parts) == 1 and parts[0][2] == 0 and parts[0][3] == n: return parts[0][1]
        return Bytes(parts)
    def coerce(self, st, v, t):
        """value v read as type t"""
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                if isbool(v): return v
                if isinstance(v, int): return bool(v & 1)
                if isint(v): return b_not(eq(v, 0))
            if isbool(v):
                return T.ite(v, 1, 0)
            if isint(v): return v
            if isinstance(v, Bytes):
                r = self.bytes_int(v)
                return v if r is None else r
            if isinstance(v, (Ptr, Fn)) or isreal(v): return v   # opaque reinterpretation
            if v is UNDEF: return self.fresh_val(t, 'undef')
        elif k == 'f':
            if isreal(v): return v
            if isinstance(v, int):
                if v == 0: return Fraction(0)
                if t[1] == 8: return Fraction(struct.unpack('<d', struct.pack('<q', norm_const(v, 64)))[0])
                return Fraction(struct.unpack('<f', struct.pack('<i', norm_const(v, 32)))[0])
            if isinstance(v, Poly): raise Unsupported('int read as float')
            if v is UNDEF: return self.fresh_val(t, 'undef')
        elif k == 'p':
            if isinstance(v, (Ptr, Fn, Undef)): return v
            if isinstance(v, int) and v == 0: return NULL
            if isinstance(v, Poly): return self.inttoptr(st, v)
            if isinstance(v, int): return Ptr(0, v)
            if isinstance(v, Bytes):
                r = self.bytes_int(v)
                return UNDEF if r is None else Ptr(0, r)      # not a pointer: any use of it is unsupported or an invalid access
        raise Unsupported('coerce %r to %s' % (v, t))
    def bytes_int(self, b):
        # all-constant, or a clean concat of ints
        tot = 0; sh = 0
        const = True; val = 0
        for (k, v, so, fn) in b.p:
            if isinstance(v, int) and not isinstance(v, bool):
                x = (v >> (8*so)) & ((1 << (8*k)) - 1)
                val |= x << sh
            else: const = False
            sh += 8*k
        if const: return norm_const(val, sh)
        return None
    def fresh_val(self, t, name):
        if t[0] == 'i':
            if t[1] == 1: return z3.Bool(T.fresh_name(name))
            return T.fresh_int(name, (-(1 << (t[1]-1)), (1 << (t[1]-1)) - 1))
        if t[0] == 'f': return z3.Real(T.fresh_name(name))
        if t[0] == 'p': return UNDEF
        raise Unsupported('fresh %s' % (t,))
    def load_agg(self, st, p, t):
        if t[0] == 'st':
            return [self.load(st, Ptr(p.o, add(p.off, self.m.field_off(t, j))), e) for j, e in enumerate(t[1])]
        s = self.m.sizeof(t[2])
        return [self.load(st, Ptr(p.o, add(p.off, j*s)), t[2]) for j in range(t[1])]
    def logw(self, oi, off, n):
        for w in self.write_logs: w.add((oi, off, n))
    def store(self, st, p, t, v):
        t = self.m.rt(t)
        n = self.m.sizeof(t)
        if t[0] in ('st', 'arr', 'vec'):
            if t[0] == 'st':
                for j, e in enumerate(t[1]): self.store(st, Ptr(p.o, add(p.off, self.m.field_off(t, j))), e, v[j])
            else:
                s = self.m.sizeof(t[2])
                for j in range(t[1]): self.store(st, Ptr(p.o, add(p.off, j*s)), t[2], v[j])
            return
        o = self.check_access(st, p, n, 'store')
        if o.ro: self.oblige(st, False, 'memory', 'write-to-constant')
        if o.arr is not None or not isinstance(o.size, int):
            o = self.ensure_arr(st, p.o, t, n)
            o = self.wobj(st, p.o)
            idx = self.elem_index(o, p.off, n)
            if isbool(v): v = T.ite(v, 1, 0)
            if v is UNDEF: v = self.fresh_val(t, 'undef')
            if o.arr.vk == 'f' and not isreal(v): raise Unsupported('store %r in float array' % (v,))
            if o.arr.vk == 'i' and not isint(v): raise Unsupported('store %r in int array' % (v,))
            if o.arr.vk == 'i': v = self.norm(st, v, 8*n, True)
            o.arr = Arr('store', o.arr, (idx, v), n, o.arr.vk)
            self.logw(p.o, None, n)
            return
        off = p.off
        if not isinstance(off, int):
            cands = self.concretize(st, off, o.size, n)
            if len(cands) == 1: off = cands[0]
            else:
                for c in cands:
                    old = self.load_conc(st, p.o, c, n, t)
                    nv = vite(eq(off, c), v, old)
                    if nv is None: raise Unsupported('symbolic offset store')
                    self.store_conc(st, p.o, c, n, nv)
                return
        self.store_conc(st, p.o, off, n, v)
    def store_conc(self, st, oi, off, n, v):
        o = self.wobj(st, oi)
        self.logw(oi, off, n)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            self.clear(st, o, oi, off, n)
        if isinstance(v, Bytes) and sum(x[0] for x in v.p) == n and all(x[2] == 0 and x[3] == x[0] for x in v.p):
            cells.pop(off, None)
            pos = off
            for (k, x, so, fn) in v.p:
                if x is not UNDEF: cells[pos] = (k, x)
                pos += k
            return
        cells[off] = (n, v)
    def clear(self, st, o, oi, off, n):
        """remove cells overlapping [off,off+n), splitting partial overlaps"""
        end = off + n
        for s in [s for s in o.cells if s < end and s + o.cells[s][0] > off]:
            k, v = o.cells[s]
            if s < off or s + k > end:
                if isinstance(v, Ptr) and v.o == 0 and isinstance(v.off, int): v = v.off
                if isinstance(v, int) and not isinstance(v, bool):
                    del o.cells[s]
                    for j in range(k):
                        if not (off <= s+j < end): o.cells[s+j] = (1, norm_const(v >> (8*j), 8))
                elif v is UNDEF: del o.cells[s]
                elif isinstance(v, (Ptr, Fn)) or isreal(v):
                    # the rest of a partly overwritten pointer or real is arbitrary
                    del o.cells[s]
                    for j in range(k):
                        if not (off <= s+j < end): o.cells[s+j] = (1, UNDEF)
                else: raise Unsupported('partial overwrite of symbolic cell in %s' % o.name)
            else: del o.cells[s]
    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        if isinstance(n, Poly):
            if self.check(st.pc, b_not(eq(n, 0))) == z3.unsat: return
        od = self.check_access_n(st, d, n); os_ = self.check_access_n(st, s, n)
        if od is None: return
        if isinstance(n, int) and isinstance(os_.size, int) and isinstance(od.size, int) and os_.arr is None and od.arr is None and isinstance(d.off, int) and isinstance(s.off, int):
            # cellwise
            o = st.objs[s.o]
            parts = []
            b = self.gather(st, s.o, s.off, n)
            dst = self.wobj(st, d.o)
            self.logw(d.o, d.off, n)
            self.clear(st, dst, d.o, d.off, n)
            dst.fills = [f for f in dst.fills if not (d.off <= f[0] and f[0]+f[1] <= d.off+n)]
            if b is UNDEF: return
            if not isinstance(b, Bytes): dst.cells[d.off] = (n, b); return
            pos = d.off
            for (k, v, so, fn) in b.p:
                if v is not UNDEF:
                    if so == 0 and k == fn: dst.cells[pos] = (k, v)
                    elif isinstance(v, int):
                        x = norm_const((v >> (8*so)), 8*k); dst.cells[pos] = (k, x)
                    else: raise Unsupported('memcpy splits symbolic cell')
                pos += k
            return
        # array range copy
        so = st.objs[s.o]; do = st.objs[d.o]
        ref = so.arr or do.arr
        es, vk = (ref.es, ref.vk) if ref else (8, 'f')
        t = ('f', es) if vk == 'f' else ('i', es*8)
        if so.arr is None and isinstance(so.size, int): raise Unsupported('symbolic memcpy from struct')
        if do.arr is None and isinstance(do.size, int): raise Unsupported('symbolic memcpy to struct')
        so = self.ensure_arr(st, s.o, t, es); do = self.ensure_arr(st, d.o, t, es); do = self.wobj(st, d.o); so = st.objs[s.o]
        ne = T.divexact(n, es); i = self.elem_index(so, s.off, es); j = self.elem_index(do, d.off, es)
        if ne is None: raise Unsupported('memcpy size')
        do.arr = Arr('copy', do.arr, (j, ne, so.arr, i), es, do.arr.vk)
        self.logw(d.o, None, es)
    def check_access_n(self, st, p, n):
        if not isinstance(p, Ptr): raise Unsupported('mem op on %r' % (p,))
        if p.o == 0:
            self.oblige(st, False, 'memory', 'null-dereference'); raise PathDead()
        o = st.objs[p.o]
        if not o.alive:
            self.oblige(st, False, 'memory', 'use-after-free'); raise PathDead()
        g = b_and(le(0, p.off), le(add(p.off, n), o.size), le(0, n))
        if g is not True: self.oblige(st, g, 'memory', 'in-bounds')
        return o
    def memset(self, st, d, b, n):
        if isinstance(n, int) and n == 0: return
        o = self.check_access_n(st, d, n)
        if not isinstance(b, int): raise Unsupported('memset symbolic byte')
        o = self.wobj(st, d.o)
        if isinstance(n, int) and isinstance(o.size, int) and o.arr is None and isinstance(d.off, int):
            self.logw(d.o, d.off, n)
            self.clear(st, o, d.o, d.off, n)
            o.fills.append((d.off, n, b)); return
        if b != 0: raise Unsupported('memset nonzero on array')
        self.logw(d.o, None, o.arr.es if o.arr else 1)
        if o.arr is None:
            o.fills.append((d.off, n, 0)); return
        ne = T.divexact(n, o.arr.es); j = T.divexact(d.off, o.arr.es)
        if ne is None or j is None: raise Unsupported('memset array size')
        o.arr = Arr('fill', o.arr, (j, ne, 0 if o.arr.vk == 'i' else Fraction(0)), o.arr.es, o.arr.vk)
    def base_atom(self, oi):
        a = self.baseatoms.get(oi)
        if a is None:
            a = T.atom(z3.Int('base!%d' % oi), (4096 + 16*oi, 1 << 47)); self.baseatoms[oi] = a; self.baseatoms[('r', a)] = oi
        return a
    def ptrtoint(self, p):
        if isinstance(p, Ptr):
            if p.o == 0: return p.off
            return add(Poly({(self.base_atom(p.o),): 1}), p.off)
        if isinstance(p, Fn):
            return T.var(z3.Int('fnaddr_' + p.n), (4096, 1 << 47))
        return p
    def inttoptr(self, st, v):
        if isinstance(v, int):
            return Ptr(0, v)
        bs = [a for a in v.atoms() if ('r', a) in self.baseatoms]
        if len(bs) == 1 and v.m.get((bs[0],)) == 1:
            return Ptr(self.baseatoms[('r', bs[0])], sub(v, Poly({(bs[0],): 1})))
        raise Unsupported('inttoptr %s' % v)
    def do_free(self, st, p, what):
        if isinstance(p, Ptr) and p.o == 0: return
        if not isinstance(p, Ptr): raise Unsupported('free of %r' % (p,))
        o = st.objs[p.o]
        if not o.alive:
            self.oblige(st, False, 'memory', 'double-free'); raise PathDead()
        g = b_and(eq(p.off, 0)) if o.kind == 'heap' else False
        self.oblige(st, g, 'memory', 'valid-free')
        o = self.wobj(st, p.o); o.alive = False
        self.logw(p.o, 'free', 0)

    # ------------------------------------------------------------ values
    def const(self, st, t, c):
        k = c[0]
        if k == 'ic': return c[1]
        if k == 'bc': return c[1]
        if k == 'null': return NULL
        if k == 'g': return self.gobj(st, c[1])
        if k == 'fc': return fconst(c[1])
        if k == 'undef':
            t = self.m.rt(t)
            if t[0] == 'st': return [self.const(st, e, ('undef', e)) for e in t[1]]
            if t[0] in ('arr', 'vec'): return [self.const(st, t[2], ('undef', t[2])) for _ in range(t[1])]
            return UNDEF
        if k == 'zero':
            t = self.m.rt(t)
            if t[0] == 'st': return [self.const(st, e, ('zero', e)) for e in t[1]]
            if t[0] in ('arr', 'vec'): return [self.const(st, t[2], ('zero', t[2])) for _ in range(t[1])]
            return {'i': 0, 'f': Fraction(0), 'p': NULL}[t[0]]
        if k == 'agg': return [self.const(st, et, ev) for et, ev in c[1]]
        if k == 'cgep': return self.gep(st, c[1], [(tt, self.const(st, tt, vv)) for tt, vv in c[2]])
        if k == 'ccast':
            v = self.const(st, c[2], c[3])
            if c[1] == 'ptrtoint': return self.ptrtoint(v)
            if c[1] == 'inttoptr': return self.inttoptr(st, v)
            if c[1] in ('bitcast', 'addrspacecast'): return v
        if k == 'cbin':
            a = self.const(st, c[2], c[3]); b = self.const(st, c[2], c[4])
            if c[1] == 'sub': return sub(a, b)
            if c[1] == 'add': return add(a, b)
        if k == 'meta' or k == 'none': return None
        raise Unsupported('const %s' % (c,))
    def val(self, st, fr, t, op):
        if op[0] == 'r':
            try: return fr.regs[op[1]]
            except KeyError: raise Unsupported('undefined reg %s in %s' % (op[1], fr.fn.name))
        return self.const(st, t, op)
    def gep(self, st, bt, ops):
        p = ops[0][1]
        if isinstance(p, list): raise Unsupported('vector gep')
        if p is UNDEF: return UNDEF
        if isinstance(p, Fn): return p
        if not isinstance(p, Ptr): p = self.coerce(st, p, ('p',))
        off = p.off
        t = bt
        for j, (it, iv) in enumerate(ops[1:]):
            if iv is UNDEF: raise Unsupported('undef gep index')
            if isbool(iv): iv = T.ite(iv, 1, 0)
            iv = self.as_int(iv)
            if it[1] < 64: iv = self.norm(st, iv, it[1], True)
            if j == 0:
                off = add(off, mul(iv, self.m.sizeof(t)))
            else:
                r = self.m.rt(t)
                if r[0] == 'st':
                    off = add(off, self.m.field_off(r, iv)); t = r[1][iv]
                elif r[0] in ('arr', 'vec'):
                    off = add(off, mul(iv, self.m.sizeof(r[2]))); t = r[2]
                else: raise Unsupported('gep')
        if isinstance(off, int): off = norm_const(off, 64)
        elif isinstance(off, Poly):
            # reduce constant coefficients mod 2^64
            if any(abs(c) >= (1 << 63) for c in off.m.values()):
                off = T.mk({k: norm_const(c, 64) for k, c in off.m.items()})
        return Ptr(p.o, off)
    def as_int(self, v):
        if isint(v): return v
        if isinstance(v, Bytes):
            # concat of ints -> sum; requires unsigned normalisation of lower parts
            tot = 0; sh = 0
            for j, (k, x, so, fn) in enumerate(v.p):
                if so or k != fn or not isint(x): raise Unsupported('bytes arithmetic')
                last = j == len(v.p)-1
                y = x if last else self.norm(self.cur, x, 8*k, False)
                tot = add(tot, mul(y, 1 << sh)); sh += 8*k
            return tot
        if isinstance(v, (Ptr, Fn)): return self.ptrtoint(v)
        if isbool(v): return T.ite(v, 1, 0)
        raise Unsupported('int from %r' % (v,))
    def norm(self, st, v, w, signed):
        """canonical representative of v mod 2^w"""
        v = self.as_int(v)
        if isinstance(v, int):
            v &= (1 << w) - 1
            if signed and v >> (w-1): v -= 1 << w
            return v
        lo, hi = T.ival(v)
        L, H = (-(1 << (w-1)), (1 << (w-1)) - 1) if signed else (0, (1 << w) - 1)
        if lo is not None and hi is not None and L <= lo and hi <= H: return v
        if w == 64:
            # 64-bit quantities are treated as mathematical above; only the sign matters
            if signed: return v
            if lo is not None and lo >= 0: return v
            if self.holds(st, le(0, v)): return v
            H = None
        else:
            if self.holds(st, b_and(le(L, v), le(v, H))): return v
        m = T.z(v)
        if signed: e = (m + (1 << (w-1))) % (1 << w) - (1 << (w-1))
        else: e = m % (1 << w)
        return T.var(e, (L, (1 << w) - 1 if H is None else H))
    def holds(self, st, c):
        if isinstance(c, bool): return c
        if self.check(st.pc, b_not(c)) == z3.unsat: return True
        if self.monos_in([c]):
            ng = b_not(c)
            ex = self.saturate(st.pc, ng)
            if ex:
                s = z3.Solver(); s.set('timeout', 5000)
                for x in st.pc: s.add(zb(x))
                s.add(zb(ng)); s.add(ex)
                return s.check() == z3.unsat
        return False

    # ------------------------------------------------------------ execution
    def start(self, fname):
        st = State.__new__(State)
        st.frames = []; st.objs = {}; st.owned = set(); st.pc = []; st.tokens = (); st.inputs = []; st.ghosts = {}; st.exc = None; st.caught = []; st.status = None
        st.stopinfo = None; st.watches = []; st.maythrow = False; st.split = None; st.leakobjs = None; st.nforks = 0
        if self.o.get('ctors'):
            # dynamic initialisation of the translation unit's globals
            for c in self.m.ctors:
                self.push(st, self.m.funcs[c], [], None)
                r = self.explore([st], None)
                if self.unsupported or len(r) != 1 or r[0].status != 'done': raise Unsupported('global constructor %s: %s' % (c, self.unsupported[:1]))
                st = r[0]; st.status = None
            self.obls.clear()
        fn = self.m.funcs['@' + fname]
        self.push(st, fn, [], None)
        return st
    def push(self, st, fn, args, ret):
        if len(st.frames) > 400: raise Unsupported('call depth')
        fr = Frame.__new__(Frame)
        fr.fn = fn; fr.blk = fn.entry; fr.ip = 0; fr.prev = None; fr.ret = ret; fr.loops = {}; fr.allocas = []
        self.uid += 1; fr.uid = self.uid
        fr.regs = {}
        for (t, nm, bv), a in zip(fn.params, args):
            if bv is not None:
                n = self.m.sizeof(bv)
                o = self.new_obj(st, n, 'stack', 'byval')
                self.memcpy(st, Ptr(o, 0), a, n); a = Ptr(o, 0)
            fr.regs[nm] = a
        self.fnset.add(fn.name)
        st.frames.append(fr)
    def run(self, fname, deadline=None):
        self.deadline = deadline
        st = self.start(fname)
        ends = self.explore([st], None)
        return ends
    def explore(self, states, stop):
        """stop: None or (frame_uid, fn, header, body) -> stop states at backedge / exit of that loop.
        returns list of terminal states with .status in done/back/exit"""
        work = list(states)
        out = []
        mark_f = None
        while work:
            st = work.pop()
            if any(t.dead for t in st.tokens): continue
            try:
                succ = self.step_until(st, stop)
            except PathDead:
                self.stats['paths'] += 1
                continue
            except Unsupported as ex:
                self.unsupported.append((str(ex), self.where(st) if st.frames else '', self.backtrace(st) if st.frames else []))
                if not self.record: raise
                self.stats['paths'] += 1
                continue
            for s in succ:
                if s.status is None: work.append(s)
                elif s.status == 'rollback':
                    rec = s.stopinfo
                    rec.token.dead = True
                    dead = rec.token
                    work = [w for w in work if dead not in w.tokens]
                    out = [w for w in out if dead not in w.tokens]
                    for f in self.failed:
                        if dead in f['tokens']: self.obls[(f['kind'], f['id'])]['n'] -= 1
                    self.failed = [f for f in self.failed if dead not in f['tokens']]
                    sn = rec.snap
                    sn.status = None
                    try:
                        for x in self.loop_invariant(sn):
                            if x.status is None: work.append(x)
                            else:
                                if x.status == 'done': self.stats['paths'] += 1
                                out.append(x)
                    except PathDead: pass
                    except Unsupported as ex:
                        self.unsupported.append((str(ex), self.where(sn), self.backtrace(sn)))
                        if not self.record: raise
                else:
                    if s.status == 'done': self.stats['paths'] += 1
                    out.append(s)
        return out
    def step_until(self, st, stop):
        """run st until it forks or ends; returns list of states"""
        self.cur = st
        n = 0
        while True:
            fr = st.frames[-1]
            ins = fr.blk.instrs[fr.ip]
            n += 1
            if n & 1023 == 0 and self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
            self.stats['instrs'] += 1
            op = ins.op
            if op in DISPATCH:
                r = DISPATCH[op](self, st, fr, ins)
                if r is None:
                    continue
                # r: list of successor states (fork), or special
                return self.settle(r, stop)
            raise Unsupported('instr ' + ins.line[:100])
    def settle(self, r, stop):
        return r
    def jump(self, st, fr, target, stop=None):
        """transfer control within frame; handles loop bookkeeping. returns None or list"""
        fn = fr.fn
        src = fr.blk.name
        loops = fn.loops if fn.loops is not None else llparse.find_loops(fn)
        ls = self.stopspec
        if ls is not None and fr.uid == ls[0]:
            if target == ls[1] and src in ls[2]:
                st.status = 'back'; st.stopinfo = src; return [st]
            if target not in ls[2]:
                st.status = 'exit'
                self.leave_loops(st, fr, target)
                fr.loops.pop(ls[1], None)
                self.goto(st, fr, target)
                return [st]
        if fr.loops:
            self.leave_loops(st, fr, target)
        if target in loops and 'lcast_put_unsigned' not in fn.name:   # loops over decimal digits are explored exhaustively
            body = loops[target]
            if src in body and target in fr.loops:
                rec = fr.loops[target]
                if not rec.conc:
                    st.status = 'rollback'; st.stopinfo = rec
                    return [st]
                rec = rec.copy(); rec.conc = False; fr.loops[target] = rec
                if st.nforks != rec.fk:
                    # concrete exit test, but the path through the loop body keeps forking
                    rec.fk = st.nforks; rec.nf += 1
                    if rec.nf > self.o.get('unroll_forks', 10):
                        st.status = 'rollback'; st.stopinfo = rec
                        return [st]
            else:
                snap = st.fork()
                snap.frames[-1].loops = dict(fr.loops)
                rec = LoopRec(); rec.token = Token(); rec.conc = False; rec.mode = None; rec.sym = False; rec.nf = 0; rec.fk = st.nforks
                rec.snap = snap
                snap.stopinfo = None
                snap.split = (target, src)
                fr.loops[target] = rec
                st.tokens = st.tokens + (rec.token,)
        self.goto(st, fr, target)
        return None
    def leave_loops(self, st, fr, target):
        loops = fr.fn.loops
        for h in list(fr.loops):
            if target not in loops[h]:
                rec = fr.loops.pop(h)
                if not rec.token.forked:
                    st.tokens = tuple(t for t in st.tokens if t is not rec.token)
    def goto(self, st, fr, target):
        src = fr.blk.name
        b = fr.fn.blocks[target]
        if b.phis:
            vals = []
            for ph in b.phis:
                t, inc = ph.a
                vals.append(self.val(st, fr, t, inc[src] if src in inc else inc[src.replace('%entry!', '%0')]))
            for ph, v in zip(b.phis, vals): fr.regs[ph.res] = v
        fr.prev = src; fr.blk = b; fr.ip = 0
    stopspec = None
    verbose = False
    def mark_exit(self, st, fr, tgts, conc):
        """note a decided exit branch for loop bookkeeping"""
        if not fr.loops: return
        b = fr.blk.name
        loops = fr.fn.loops
        for h, rec in list(fr.loops.items()):
            body = loops[h]
            if b in body and any(t not in body for t in tgts) and conc and not rec.conc:
                r = rec.copy(); r.conc = True; fr.loops[h] = r
    def branch(self, st, fr, cond, a, b):
        if isinstance(cond, Poly) or (isinstance(cond, int) and not isinstance(cond, bool)): cond = b_not(eq(cond, 0))
        if cond is UNDEF: raise Unsupported('branch on undef in %s' % self.where(st))
        if isinstance(cond, bool):
            self.mark_exit(st, fr, (a, b), True)
            return self.jump(st, fr, a if cond else b)
        fa = self.feasible(st, cond)
        fb = self.feasible(st, b_not(cond)) if fa else True
        if fa and not fb:
            return self.jump(st, fr, a)
        if fb and not fa:
            return self.jump(st, fr, b)
        self.stats['forks'] += 1
        st.nforks += 1
        for t in st.tokens: t.forked = True
        s2 = st.fork()
        st.pc.append(cond); s2.pc.append(b_not(cond))
        r = []
        for s, tg in ((st, a), (s2, b)):
            x = self.jump(s, s.frames[-1], tg)
            r.extend(x if x else [s])
        return r
    def fork_cond(self, st, cond):
        """fork on cond without moving ip; returns list of (state,bool) feasible"""
        if isinstance(cond, bool): return [(st, cond)]
        fa = self.feasible(st, cond)
        fb = self.feasible(st, b_not(cond)) if fa else True
        if fa and not fb: st.pc.append(cond); return [(st, True)]
        if fb and not fa: st.pc.append(b_not(cond)); return [(st, False)]
        st.nforks += 1
        for t in st.tokens: t.forked = True
        s2 = st.fork()
        st.pc.append(cond); s2.pc.append(b_not(cond))
        return [(st, True), (s2, False)]

    # ---- call handling
    def do_call(self, st, fr, ins):
        d = ins.a
        f = d['fn']
        if f[0] == 'g': name = f[1]
        elif f[0] == 'asm':
            return self.finish_call(st, fr, ins, None)
        else:
            v = self.val(st, fr, ('p',), f)
            if not isinstance(v, Fn):
                if isinstance(v, Ptr) and v.o == 0:
                    self.oblige(st, False, 'memory', 'null-call'); raise PathDead()
                raise Unsupported('indirect call via %r' % (v,))
            name = v.n
        while name in self.m.aliases: name = self.m.aliases[name]
        args = [self.val(st, fr, t, a) for t, a in d['args']]
        name = STDALIAS.get(name, name)
        h = self.externs.get(name)
        if h is None and name.startswith('@_ZN5boost4math'):
            for rx, hh in BOOSTMATH_RX:
                if rx.match(name): h = hh; break
        if h is None and name not in self.m.funcs:
            for rx, hh in EXTERN_RX:
                if rx.match(name): h = hh; break
        if h is not None:
            self.curname = name
            r = h(self, st, fr, ins, args)
            if r is NORET: return []
            if isinstance(r, Forked): return r.states
            return self.finish_call(st, fr, ins, r)
        fn = self.m.funcs.get(name)
        c = self.contracts.get(name)
        if c is not None and not any(f2.fn.name == '@' + c[1] for f2 in st.frames):
            fn = self.m.funcs['@' + c[0]]
            self.used_contracts.add((name, c[0]))
        if fn is None: raise Unsupported('external function %s' % demangle(name))
        # leave ip at the call; finish on ret
        self.push(st, fn, args, True)
        return None
    used_contracts = set()
    def finish_call(self, st, fr, ins, v):
        if ins.res is not None: fr.regs[ins.res] = v
        if ins.op == 'invoke':
            return self.jump(st, fr, ins.a['norm'])
        fr.ip += 1
        return None
    def do_ret(self, st, fr, ins):
        t, v = ins.a
        rv = None if v is None else self.val(st, fr, t, v)
        for o in fr.allocas:
            ob = self.wobj(st, o); ob.alive = False
        st.frames.pop()
        if not st.frames:
            st.status = 'done'
            return [st]
        f2 = st.frames[-1]
        ci = f2.blk.instrs[f2.ip]
        return self.finish_call(st, f2, ci, rv)
    # ---- exceptions
    def throw(self, st, exc):
        """exc = (ptr, typeinfo Fn/Ptr name)"""
        st.exc = exc
        left = False
        while st.frames:
            fr = st.frames[-1]
            ins = fr.blk.instrs[fr.ip]
            if ins.op == 'invoke':
                r = self.jump(st, fr, ins.a['unw'])
                if left and r is None and st.status is None:
                    st.status = 'exit'; return [st]
                return r
            for o in fr.allocas:
                ob = self.wobj(st, o); ob.alive = False
            ls = self.stopspec
            st.frames.pop()
            if ls is not None and fr.uid == ls[0]:
                # leaves the loop frame by exception
                left = True
        if st.maythrow:
            st.status = 'done'; return [st]
        tn = exc[1]
        # uncaught
        st.frames = []
        if self.record:
            self.note('exception', 'no-uncaught-exception', 'sat', None, st)
            r = self.check(st.pc)
            self.failed.append(dict(kind='exception', id='no-uncaught-exception', result='sat' if r == z3.sat else 'unknown', where=str(tn), inputs=self.model_inputs(st, self.last_model), reason='uncaught exception %s' % tn, goal='false', tokens=st.tokens, trace=[]))
        raise PathDead()
    def typeinfo_bases(self, name):
        res = [name]
        if name in self.m.globals:
            try:
                t, init = self.m.gdef(name)
            except Exception: init = None
            if init and init[0] == 'agg':
                for et, ev in init[1][2:]:
                    if ev[0] == 'g' and ev[1].startswith('@_ZTI'): res += self.typeinfo_bases(ev[1])
        return res
    def typeid(self, name):
        if name not in self.typeids: self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]
    def do_landingpad(self, st, fr, ins):
        t, cleanup, cl = ins.a
        exc = st.exc
        selv = 0
        bases = self.typeinfo_bases(exc[1]) if exc[1] else []
        matched = False
        for kind, c in cl:
            if kind == 'catch':
                if c[0] == 'null': selv = self.typeid('...'); matched = True; break
                if c[0] == 'g' and c[1] in bases: selv = self.typeid(c[1]); matched = True; break
            elif kind == 'filter':
                selv = -1; matched = True; break
        if not matched and not cleanup:
            # continue unwinding past this frame
            for o in fr.allocas:
                self.wobj(st, o).alive = False
            st.frames.pop()
            return self.throw(st, exc)
        fr.regs[ins.res] = [exc[0], selv]
        fr.ip += 1
        return None

    # ------------------------------------------------------------ loops with invariants
    def loop_invariant(self, snap):
        """snap: state about to jump to loop header snap.split=(header,src).  Returns exit states."""
        header, src = snap.split
        snap.split = None
        fr = snap.frames[-1]
        fn = fr.fn
        body = llparse.find_loops(fn)[header]
        self.stats['loops_inv'] += 1
        fr.loops.pop(header, None)
        saved_stop = self.stopspec
        spec = (fr.uid, header, body)
        key = (fn.name, header)
        # enter header with entry phi values
        entry = snap.fork()
        efr = entry.frames[-1]
        self.goto(entry, efr, header)
        hb = fn.blocks[header]
        depth = len(snap.frames)
        rec0 = self.record
        mod = set()           # (obj,off,n) or (obj,None,es)
        nvar_entry = 0
        ptr_poison = set()
        try:
            self.stopspec = spec
            # --- discover modified cells
            self.record = False
            first_backs = None
            while True:
                gen, lvs = self.generalise(entry, hb, mod, ptr_poison)
                wl = set(); cl = []
                self.write_logs.append(wl); self.cmp_logs.append(cl)
                preobjs = set(entry.objs)
                try:
                    outs = self.explore([gen.fork()], spec)
                finally:
                    self.write_logs.pop(); self.cmp_logs.pop()
                new = set()
                for (o, off, n) in wl:
                    if o in preobjs:
                        if off == 'free': raise Unsupported('object freed inside invariant loop')
                        if (o, off, n) not in mod and not (off is not None and (o, None, n) in mod):
                            new.add((o, off, n))
                backs = [s for s in outs if s.status == 'back']
                # pointer LVs that change object are poisoned
                newp = set()
                for lv in lvs:
                    if lv['kind'] == 'ptr':
                        for s in backs:
                            v = self.lv_value(s, lv, hb)
                            if not (isinstance(v, Ptr) and v.o == lv['obj']): newp.add(lv['key'])
                            elif lv['es'] > 1 and T.divexact(v.off, lv['es']) is None: newp.add((lv['key'], 'align'))
                if not new and not (newp - ptr_poison): break
                mod |= new; ptr_poison |= newp
            if not backs:
                # body never loops back: plain execution
                self.stopspec = saved_stop; self.record = rec0
                ex = entry.fork()
                # execute body once; paths either exit or die
                self.stopspec = spec
                outs = self.explore([ex], spec)
                res = [s for s in outs if s.status in ('exit', 'done')]
                for s in res:
                    if s.status == 'exit': s.status = None
                return res
            ivars = [lv for lv in lvs if lv['kind'] in ('int', 'ptr')]
            # --- candidates
            ghostn = T.fresh_int('iter', (0, None))
            cands = []
            vm_head = self.lvmap(gen, lvs, hb, head=True); vm_head['#n'] = ghostn
            vm_entry = self.lvmap(entry, lvs, hb, head=True); vm_entry['#n'] = 0
            for lv in ivars:
                k = lv['key']; v0 = vm_entry[k]
                steps = set()
                for s in backs:
                    v1 = self.lvmap(s, [lv], hb)[k]
                    if v1 is None: continue
                    dlt = sub(v1, vm_head[k])
                    if isinstance(dlt, int): steps.add(dlt)
                    elif isinstance(dlt, Poly) and not (dlt.atoms() & self.head_atoms(vm_head)): steps.add(dlt)
                if v0 is None: continue
                for s in steps:
                    if isinstance(s, int) or True:
                        cands.append(('%s == entry + %s*n' % (k, s), lambda vm, k=k, v0=v0, s=s: eq(vm[k], add(v0, mul(s, vm['#n'])))))
                cands.append(('%s >= entry' % (k,), lambda vm, k=k, v0=v0: le(v0, vm[k])))
                cands.append(('%s <= entry' % (k,), lambda vm, k=k, v0=v0: le(vm[k], v0)))
            # boolean LVs unchanged, real LVs unchanged
            for lv in lvs:
                if lv['kind'] == 'real':
                    k = lv['key']; v0 = vm_entry[k]
                    if v0 is not None: cands.append(('%s == entry' % (k,), lambda vm, k=k, v0=v0: zr(vm[k]) == zr(v0)))
                if lv['kind'] == 'bool':
                    k = lv['key']; v0 = vm_entry[k]
                    if v0 is not None: cands.append(('%s == entry' % (k,), lambda vm, k=k, v0=v0: zb(vm[k]) == zb(v0)))
            # predicates from comparisons seen in the body
            amap = {}
            for lv in ivars:
                h = vm_head[lv['key']]
                if isinstance(h, Poly) and len(h.m) == 1: amap[list(h.m)[0][0]] = (lv['key'], lv.get('es', 1))
            limit = max([a for a in amap] + [0])
            seenp = set()
            hatoms = set(amap)
            old_limit = gen_limit = len(T.ATOM)
            okatoms = self.entry_atoms | hatoms
            for p in cl:
                if not isinstance(p, Poly): continue
                at = p.atoms()
                if not (at & hatoms): continue
                if not all(a in okatoms for a in at): continue
                if p in seenp or len(seenp) > 40: continue
                seenp.add(p)
                for nm, f in (('<=0', lambda q: le0(q)), ('<=1', lambda q: le0(sub(q, 1))), ('>=0', lambda q: le(0, q)), ('>=-1', lambda q: le(-1, q)), ('<=-1', lambda q: le0(add(q, 1)))):
                    cands.append(('(%s) %s' % (p, nm), lambda vm, p=p, f=f: f(psubst(p, amap, vm))))
            L = dict(engine=self, lvs=lvs, entry=entry, gen=gen, vm_entry=vm_entry, vm_head=vm_head, fn=fn, header=header, cmps=list(seenp), amap=amap,
                     allcmps=list(dict.fromkeys(p for p in cl if isinstance(p, Poly))), okatoms=okatoms, hatoms=hatoms, backs=backs)
            for tpl in self.templates:
                for c in tpl(L): cands.append(c)
            # --- filter by entry
            if self.verbose: print('LOOP', demangle(fn.name)[:80], header, 'rec', rec0, 'lvs', [(lv['key'], lv['kind']) for lv in lvs], '\n    cands', [c[0] for c in cands])
            cands = [c for c in cands if self.cand_holds(entry, c, vm_entry)]
            cached = self.inv_cache.get(key)
            if cached is not None:
                pass
            # --- Houdini
            rounds = 0
            while True:
                rounds += 1; self.stats['houdini_rounds'] += 1
                if rounds > 25: raise Unsupported('houdini rounds')
                h = gen.fork()
                h.pc.append(T.z(ghostn) >= 0)
                for c in cands: self.assume_q(h, c, vm_head)
                outs = self.explore([h], spec)
                bs = [s for s in outs if s.status == 'back']
                keep = []
                for c in cands:
                    ok = True
                    for s in bs:
                        vm = self.lvmap(s, lvs, hb); vm['#n'] = add(ghostn, 1)
                        if not self.cand_holds(s, c, vm): ok = False; break
                    if ok: keep.append(c)
                if self.verbose: print('   round', rounds, header, 'backs', len(bs), 'dropped', [c[0] for c in cands if c not in keep])
                if len(keep) == len(cands): break
                cands = keep
            # --- final pass, recording obligations
            self.record = rec0
            h = gen.fork()
            h.pc.append(T.z(ghostn) >= 0)
            for c in cands: self.assume_q(h, c, vm_head)
            self.inv_cache[key] = [c[0] for c in cands]
            if rec0:
                self.stats['inv_obls'] += 2*len(cands)
                self.loopinv.append((demangle(fn.name), header, [c[0] for c in cands], [str(lv['key']) for lv in lvs]))
            outs = self.explore([h], spec)
            res = [s for s in outs if s.status in ('exit', 'done')]
            for s in res:
                if s.status == 'exit': s.status = None
            return res
        finally:
            self.stopspec = saved_stop; self.record = rec0
    def head_atoms(self, vm):
        s = set()
        for v in vm.values():
            if isinstance(v, Poly): s |= v.atoms()
        return s
    def assume_q(self, st, c, vm):
        try: f = c[1](vm)
        except (KeyError, TypeError, AttributeError): return
        if f is None or f is True: return
        if f is False: st.pc.append(z3.BoolVal(False)); return
        st.pc.append(f)
    def cand_holds(self, st, c, vm):
        try: f = c[1](vm)
        except (KeyError, TypeError, AttributeError): return False
        if f is None: return False
        if isinstance(f, bool): return f
        r = self.check(st.pc, b_not(f))
        if r == z3.unsat: return True
        if self.monos_in([f]):
            return self.holds(st, f)
        return False
    def generalise(self, entry, hb, mod, poison):
        g = entry.fork()
        fr = g.frames[-1]
        lvs = []
        self.entry_atoms = set(range(len(T.ATOM)))
        def havoc(v, key, t=None):
            if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                lvs.append(dict(key=key, kind='bool')); return z3.Bool(T.fresh_name('hb'))
            if isint(v):
                w = t[1] if t and t[0] == 'i' else 64
                iv = (-(1 << (w-1)), (1 << (w-1)) - 1) if w <= 32 else (None, None)
                if iv[0] is not None:
                    # value may be an unnormalised ring element: keep it canonical at the header
                    pass
                x = T.fresh_int('h', iv)
                if iv[0] is not None: g.pc.append(z3.And(T.z(x) >= iv[0], T.z(x) <= iv[1]))
                lvs.append(dict(key=key, kind='int', w=w)); return x
            if isreal(v):
                lvs.append(dict(key=key, kind='real')); return z3.Real(T.fresh_name('hr'))
            if isinstance(v, Ptr):
                if key in poison or v.o == 0:
                    return UNDEF
                a = g.objs[v.o].arr
                es = a.es if a is not None else 1
                if es > 1 and ((key, 'align') in poison or T.divexact(v.off, es) is None): es = 1
                lvs.append(dict(key=key, kind='ptr', obj=v.o, es=es))
                return Ptr(v.o, mul(T.fresh_int('hp'), es))
            return UNDEF
        for ph in hb.phis:
            fr.regs[ph.res] = havoc(fr.regs[ph.res], ('phi', ph.res), self.m.rt(ph.a[0]))
        for (o, off, n) in sorted(mod, key=lambda x: (x[0], -1 if x[1] is None else x[1], x[2])):
            ob = self.wobj(g, o)
            if off is None:
                if ob.arr is None:
                    # element kind: as seen when the body was explored
                    ks = [k for k in self.initmem if k[0] == o]
                    if len(ks) != 1 or ob.cells: raise Unsupported('array first touched in loop')
                    ob.arr = self.initmem[ks[0]]
                    for (s_, ln_, b_) in ob.fills: ob.arr = Arr('fill', ob.arr, (T.divexact(s_, ks[0][1]), T.divexact(ln_, ks[0][1]), (0 if ks[0][2] == 'i' else Fraction(0))), ks[0][1], ks[0][2])
                ob.arr = fresh_arr(ob.arr.es, ob.arr.vk, 'harr')
                lvs.append(dict(key=('arr', o), kind='arr', obj=o))
                continue
            c = ob.cells.get(off)
            if c is None or c[0] != n:
                b = self.gather(g, o, off, n)
                if b is UNDEF or True:
                    # undefined or differently-shaped at entry: becomes undefined
                    self.clear(g, ob, o, off, n)
                    ob.fills = split_fills(ob.fills, off, n)
                    if isinstance(b, int):
                        ob.cells[off] = (n, havoc(b, ('cell', o, off, n), ('i', 8*n)))
                    elif b is not UNDEF and not isinstance(b, Bytes):
                        ob.cells[off] = (n, havoc(b, ('cell', o, off, n), ('i', 8*n)))
                    self.havoc_undef.add((o, off, n))
                continue
            v = c[1]
            nv = havoc(v, ('cell', o, off, n), ('i', 8*n))
            if nv is UNDEF:
                del ob.cells[off]
                ob.fills = split_fills(ob.fills, off, n)
            else: ob.cells[off] = (n, nv)
        return g, lvs
    havoc_undef = set()
    def lv_value(self, st, lv, hb, head=False):
        k = lv['key']
        if k[0] == 'phi':
            fr = st.frames[-1]
            if head: return fr.regs.get(k[1])
            for ph in hb.phis:
                if ph.res == k[1]:
                    t, inc = ph.a
                    return self.val(st, fr, t, inc[fr.blk.name])
        if k[0] == 'cell':
            ob = st.objs[k[1]]
            c = ob.cells.get(k[2])
            if c is not None and c[0] == k[3]: return c[1]
            g = self.gather(st, k[1], k[2], k[3])
            return g
        if k[0] == 'arr': return st.objs[k[1]].arr
    def lvmap(self, st, lvs, hb, head=False):
        vm = {}
        for lv in lvs:
            v = self.lv_value(st, lv, hb, head)
            if lv['kind'] == 'ptr':
                vm[lv['key']] = v.off if isinstance(v, Ptr) and v.o == lv['obj'] else None
            elif lv['kind'] == 'int':
                if isinstance(v, Bytes) or v is UNDEF or not (isint(v) or isbool(v)): vm[lv['key']] = None
                else:
                    if isbool(v): v = T.ite(v, 1, 0)
                    vm[lv['key']] = self.norm(st, v, lv['w'], True) if lv['w'] <= 32 else v
            elif lv['kind'] in ('real', 'bool'):
                vm[lv['key']] = None if v is UNDEF or isinstance(v, Bytes) else v
            else: vm[lv['key']] = v
        vm['#st'] = st
        return vm

def split_fills(fills, off, n):
    out = []
    for (s, ln, b) in fills:
        if s + ln <= off or s >= off + n: out.append((s, ln, b)); continue
        if s < off: out.append((s, off - s, b))
        if s + ln > off + n: out.append((off + n, s + ln - off - n, b))
    return out

def psubst(p, amap, vm):
    r = 0
    for k, c in p.m.items():
        t = c
        for a in k:
            t = mul(t, (vm[amap[a][0]] if amap[a][1] == 1 else T.divexact(vm[amap[a][0]], amap[a][1])) if a in amap else Poly({(a,): 1}))
        r = add(r, t)
    return r

def cstr_bytes(s):
    s = s[2:-1]
    out = []; i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out

def fconst(s):
    if s.startswith('0x'):
        if s[2] in 'KLMHR': raise Unsupported('fp80 const')
        d = struct.unpack('>d', int(s, 16).to_bytes(8, 'big'))[0]
    else: d = float(s)
    if d != d: return z3.Real('NaN!const')
    if d in (float('inf'), float('-inf')): return z3.Real('Inf!%s' % ('p' if d > 0 else 'm'))
    return Fraction(d)

_dm = {}
def demangle(n):
    r = _dm.get(n)
    if r is None:
        import subprocess
        try: r = subprocess.run(['c++filt', n.lstrip('@').strip('"')], capture_output=True, text=True).stdout.strip()
        except Exception: r = n
        _dm[n] = r
    return r

def cvc5_check(exprs, tmo):
    import subprocess, tempfile
    s = z3.Solver()
    for e in exprs: s.add(e)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(txt); f.close()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (tmo*1000), f.name], capture_output=True, text=True, timeout=tmo+5).stdout
        return r.split('\n')[0].strip()
    except Exception:
        return 'unknown'
    finally: os.unlink(f.name)

class Forked:
    def __init__(self, s): self.states = s
NORET = object()

# ------------------------------------------------------------ instruction semantics
def i_bin(E, st, fr, ins):
    op, t, a, b, fl = ins.a
    x = E.val(st, fr, t, a); y = E.val(st, fr, t, b)
    fr.regs[ins.res] = binop(E, st, op, t, x, y, fl)
    fr.ip += 1

def tdiv(E, st, x, y, w, signed, rem):
    x = E.norm(st, x, w, signed); y = E.norm(st, y, w, signed)
    E.oblige(st, b_not(eq(y, 0)), 'arith', 'division-by-zero')
    if isinstance(x, int) and isinstance(y, int):
        q = abs(x)//abs(y); q = q if (x >= 0) == (y >= 0) else -q
        return x - q*y if rem else q
    q = T.polydiv(x, y)
    if q is not None: return 0 if rem else q
    # q,r with |r|<|y|, sign of r follows x; the same pair for the same operands
    hit = T.DIV.get((x, y))
    if hit is None:
        zx, zy = T.z(x), T.z(y)
        q = T.fresh_int('q'); r = T.fresh_int('r'); zr_ = T.z(r); zq = T.z(q)
        cs = [eq(x, add(mul(q, y), r)),
              z3.If(zx >= 0, z3.And(zr_ >= 0, zr_ < z3.If(zy >= 0, zy, -zy)), z3.And(zr_ <= 0, -zr_ < z3.If(zy >= 0, zy, -zy)))]
        if not isinstance(y, int):      # helpful linear consequence
            cs.append(z3.Implies(z3.And(zx >= 0, zy > 0), z3.And(zq >= 0, zq <= zx)))
        hit = T.DIV[(x, y)] = (q, r, cs)
    q, r, cs = hit
    if not any(c is cs[1] for c in st.pc):
        for c in cs: E.assume(st, c)
    return r if rem else q

def binop(E, st, op, t, x, y, fl=()):
    if t[0] == 'vec':
        return [binop(E, st, op, t[2], p, q, fl) for p, q in zip(x, y)]
    if op[0] == 'f' and op != 'freeze':
        if x is UNDEF or y is UNDEF: raise Unsupported('undef float')
        if not isreal(x): x = E.coerce(st, x, t)
        if not isreal(y): y = E.coerce(st, y, t)
        return fbin(E, st, op, x, y)
    w = t[1]
    if w == 1:
        x = tobool(x); y = tobool(y)
        if op == 'and': return b_and(x, y)
        if op == 'or': return b_or(x, y)
        if op == 'xor' or op == 'add' or op == 'sub':
            if isinstance(x, bool): return b_not(y) if x else y
            if isinstance(y, bool): return b_not(x) if y else x
            return z3.Xor(x, y)
        raise Unsupported('i1 ' + op)
    if x is UNDEF or y is UNDEF: raise Unsupported('arith on undef in ' + E.where(st))
    if op in ('and', 'or', 'xor', 'lshr', 'shl', 'ashr'):
        return bitop(E, st, op, w, x, y)
    x = E.as_int(x); y = E.as_int(y)
    if op in ('add', 'sub', 'mul'):
        r = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else mul(x, y)
        if isinstance(r, int): return norm_const(r, w)
        if 'nsw' in fl and w <= 32:
            # operands must be canonical for the overflow obligation
            L, H = -(1 << (w-1)), (1 << (w-1)) - 1
            lo, hi = T.ival(r)
            if not (lo is not None and hi is not None and L <= lo and hi <= H):
                xs, ys = E.norm(st, x, w, True), E.norm(st, y, w, True)
                r = add(xs, ys) if op == 'add' else sub(xs, ys) if op == 'sub' else mul(xs, ys)
                if isinstance(r, int): return norm_const(r, w)
                if E.o.get('overflow', True):
                    E.oblige(st, b_and(le(L, r), le(r, H)), 'arith', 'no-signed-overflow')
                else: E.trusted.add('32-bit signed arithmetic treated as mathematical in %s' % E.o.get('name', ''))
        elif any(abs(c) >= (1 << w) for c in r.m.values()):
            r = T.mk({k: norm_const(c, w) for k, c in r.m.items()})
        return r
    if op == 'sdiv': return tdiv(E, st, x, y, w, True, False)
    if op == 'srem': return tdiv(E, st, x, y, w, True, True)
    if op == 'udiv': return tdiv(E, st, x, y, w, False, False)
    if op == 'urem': return tdiv(E, st, x, y, w, False, True)
    raise Unsupported('bin ' + op)

def bitop(E, st, op, w, x, y):
    nb = w//8
    if isinstance(x, int) and isinstance(y, int):
        ux = x & ((1 << w)-1); uy = y & ((1 << w)-1)
        if op == 'and': r = ux & uy
        elif op == 'or': r = ux | uy
        elif op == 'xor': r = ux ^ uy
        elif op == 'shl': r = ux << uy
        elif op == 'lshr': r = ux >> uy
        else: r = norm_const(x, w) >> uy
        return norm_const(r, w)
    if op in ('and', 'or') and w == 64 and isinstance(y, int) and isinstance(x, (Poly, Ptr)):
        # tag bits in pointers: allocations are aligned to 8 bytes
        p = x if isinstance(x, Ptr) else None
        if p is None:
            bs = [a for a in x.atoms() if ('r', a) in E.baseatoms]
            if len(bs) == 1 and x.m.get((bs[0],)) == 1: p = E.inttoptr(st, x)
        if p is not None and p.o != 0 and isinstance(p.off, int):
            uy = y & ((1 << 64) - 1)
            if op == 'and' and uy < 8: return p.off & uy
            if op == 'and' and (1 << 64) - uy <= 8: return E.ptrtoint(Ptr(p.o, p.off & y))
            if op == 'or' and uy < 8: return E.ptrtoint(Ptr(p.o, p.off | y))
    if op in ('and', 'or', 'xor') and isint(x) and isint(y):
        cx, cy = T.as_bool01(x), T.as_bool01(y)
        if cx is not None and cy is not None:
            if op == 'and': r = b_and(cx, cy)
            elif op == 'or': r = b_or(cx, cy)
            elif isinstance(cx, bool): r = b_not(cy) if cx else cy
            elif isinstance(cy, bool): r = b_not(cx) if cy else cx
            else: r = z3.Xor(cx, cy)
            return T.ite(r, 1, 0)
    if op in ('shl', 'lshr', 'ashr'):
        if not isinstance(y, int): raise Unsupported('symbolic shift')
        if y == 0: return x
        if op == 'shl':
            if y % 8 == 0 and not isinstance(x, Bytes) and not isint(x): x = Bytes([(nb, x, 0, nb)])
            if isinstance(x, Bytes) and y % 8 == 0:
                return bytes_norm([(y//8, 0, 0, y//8)] + bytes_slice(x, 0, nb - y//8))
            if isint(x) and y % 8 == 0 and y >= 8 and 'zx' :
                # keep arithmetic form
                return mul(x, 1 << y)
            return mul(E.as_int(x), 1 << y)
        if isinstance(x, Bytes) and y % 8 == 0 and op == 'lshr':
            return bytes_norm(bytes_slice(x, y//8, nb - y//8) + [(y//8, 0, 0, y//8)])
        v = E.norm(st, E.as_int(x), w, op == 'ashr')
        if isinstance(v, int): return v >> y
        d = T.divexact(v, 1 << y)
        if d is not None: return d
        lo, hi = T.ival(v)
        return T.var(T.z(v) / (1 << y), (None if lo is None else lo >> y, None if hi is None else hi >> y))
    if isinstance(y, int) and op == 'and':
        uy = y & ((1 << w)-1)
        if uy == 0: return 0
        if uy & (uy+1) == 0:
            k = uy.bit_length()
            if isinstance(x, Bytes) and k % 8 == 0:
                return bytes_norm(bytes_slice(x, 0, k//8) + [(nb - k//8, 0, 0, nb - k//8)])
            return E.norm(st, E.as_int(x), k, False)
        inv = (~uy) & ((1 << w)-1)
        if inv & (inv+1) == 0:   # high mask
            k = inv.bit_length()
            if isinstance(x, Bytes) and k % 8 == 0:
                return bytes_norm([(k//8, 0, 0, k//8)] + bytes_slice(x, k//8, nb - k//8))
            v = E.as_int(x)
            return sub(v, E.norm(st, v, k, False))
    if op == 'or':
        if isinstance(x, int) and x == 0: return y
        if isinstance(y, int) and y == 0: return x
        if isinstance(x, Bytes) or isinstance(y, Bytes):
            r = bytes_or(x, y, nb)
            if r is not None: return r
        # disjoint ranges
        for a, b in ((x, y), (y, x)):
            if isint(a) and isint(b):
                # a = 2^k * q and 0<=b<2^k
                if isinstance(a, Poly):
                    import math
                    g = 0
                    for c in a.m.values(): g = math.gcd(g, c)
                    k = (g & -g).bit_length()-1
                    if k > 0:
                        lo, hi = T.ival(b)
                        if lo is not None and hi is not None and lo >= 0 and hi < (1 << k): return add(a, b)
                        if E.holds(st, b_and(le(0, b), lt(b, 1 << k))): return add(a, b)
    if op == 'xor' and isinstance(y, int) and y == -1:
        return sub(-1, E.as_int(x))
    if op == 'xor' and x == y: return 0
    raise Unsupported('bitop %s in %s' % (op, E.where(st)))

def bytes_slice(b, off, n):
    out = []; pos = 0
    for (k, v, so, fn) in b.p:
        s = max(pos, off); e = min(pos+k, off+n)
        if s < e: out.append((e-s, v, so + s-pos, fn))
        pos += k
    return out
def bytes_norm(p):
    if len(p) == 1 and p[0][2] == 0 and p[0][0] == p[0][3]: return p[0][1]
    # merge adjacent constants
    if all(isinstance(v, int) and not isinstance(v, bool) for _, v, _, _ in p):
        val = 0; sh = 0
        for (k, v, so, fn) in p:
            val |= ((v >> (8*so)) & ((1 << 8*k)-1)) << sh; sh += 8*k
        return norm_const(val, sh)
    return Bytes(p)
def as_bytes(x, nb):
    if isinstance(x, Bytes): return x
    return Bytes([(nb, x, 0, nb)])
def bytes_or(x, y, nb):
    bx, by = as_bytes(x, nb), as_bytes(y, nb)
    cuts = set([0, nb])
    for b in (bx, by):
        pos = 0
        for q in b.p: pos += q[0]; cuts.add(pos)
    cuts = sorted(cuts); out = []
    def isz(p): return isinstance(p[1], int) and ((p[1] >> (8*p[2])) & ((1 << 8*p[0])-1)) == 0
    for s, e in zip(cuts, cuts[1:]):
        px = bytes_slice(bx, s, e-s); py = bytes_slice(by, s, e-s)
        if len(px) != 1 or len(py) != 1: return None
        if isz(px[0]): out.append(py[0])
        elif isz(py[0]): out.append(px[0])
        else: return None
    # merge consecutive slices of the same value
    m = [out[0]]
    for q in out[1:]:
        l = m[-1]
        if l[1] is q[1] and l[3] == q[3] and l[2]+l[0] == q[2]: m[-1] = (l[0]+q[0], l[1], l[2], l[3])
        else: m.append(q)
    return bytes_norm(m)

def tobool(v):
    if isbool(v): return v
    if isinstance(v, int): return bool(v & 1)
    if v is UNDEF: return z3.Bool(T.fresh_name('ub'))
    return b_not(eq(v, 0))

def fbin(E, st, op, x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        if op == 'fadd': return x+y
        if op == 'fsub': return x-y
        if op == 'fmul': return x*y
        if op == 'fdiv' and y != 0: return x/y
    if op == 'fdiv':
        E.oblige_f(st, y) if hasattr(E, 'oblige_f') else None
        if isinstance(y, Fraction) and y != 0: return zr(x) * zr(1/y)
        return zr(x) / zr(y)
    a, b = zr(x), zr(y)
    if op == 'fadd':
        if isinstance(x, Fraction) and x == 0: return y
        if isinstance(y, Fraction) and y == 0: return x
        return a + b
    if op == 'fsub':
        if isinstance(y, Fraction) and y == 0: return x
        return a - b
    if op == 'fmul':
        if isinstance(x, Fraction) and x == 1: return y
        if isinstance(y, Fraction) and y == 1: return x
        if (isinstance(x, Fraction) and x == 0) or (isinstance(y, Fraction) and y == 0): return Fraction(0)
        if E.o.get('real_abs') and not isinstance(x, Fraction) and not isinstance(y, Fraction):
            r = RMUL(a, b)
            if a.eq(b): E.assume(st, r >= 0)
            return r
        return a * b
    raise Unsupported('fbin ' + op)
RMUL = z3.Function('rmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
RSQRT = z3.Function('rsqrt', z3.RealSort(), z3.RealSort())

def i_fneg(E, st, fr, ins):
    v = E.val(st, fr, ins.a[0], ins.a[1])
    fr.regs[ins.res] = -v if isinstance(v, Fraction) else -zr(v)
    fr.ip += 1
def i_freeze(E, st, fr, ins):
    v = E.val(st, fr, ins.a[0], ins.a[1])
    if v is UNDEF: v = E.fresh_val(E.m.rt(ins.a[0]), 'frz')
    fr.regs[ins.res] = v; fr.ip += 1

def i_cast(E, st, fr, ins):
    op, t, a, t2 = ins.a
    v = E.val(st, fr, t, a)
    fr.regs[ins.res] = cast(E, st, op, t, v, t2)
    fr.ip += 1
def cast(E, st, op, t, v, t2):
    if v is UNDEF:
        return UNDEF
    if op in ('bitcast', 'addrspacecast'):
        if t2[0] in ('f', 'i', 'p') and not isinstance(v, list): return E.coerce(st, v, t2) if not (t2[0] == 'i' and isreal(v)) else v
        return v
    if op == 'zext':
        if t[1] == 1:
            v = tobool(v)
            return T.ite(v, 1, 0)
        if isinstance(v, Bytes): return bytes_norm(v.p + [((t2[1]-t[1])//8, 0, 0, (t2[1]-t[1])//8)])
        if isreal(v) or isinstance(v, (Ptr, Fn)): return Bytes([(t[1]//8, v, 0, t[1]//8), ((t2[1]-t[1])//8, 0, 0, (t2[1]-t[1])//8)])
        return E.norm(st, v, t[1], False)
    if op == 'sext':
        if t[1] == 1: return T.ite(tobool(v), -1, 0)
        return E.norm(st, v, t[1], True)
    if op == 'trunc':
        if t2[1] == 1:
            v = E.as_int(v)
            if isinstance(v, int): return bool(v & 1)
            lo, hi = T.ival(v)
            if lo is not None and hi is not None and lo >= 0 and hi <= 1: return eq(v, 1)
            return (T.z(v) % 2) == 1
        if isinstance(v, Bytes):
            return bytes_norm(bytes_slice(v, 0, t2[1]//8))
        if isinstance(v, (Ptr, Fn)): v = E.ptrtoint(v)
        if isreal(v): return Bytes([(t2[1]//8, v, 0, t[1]//8)])
        if isinstance(v, int): return norm_const(v, t2[1])
        return v      # ring homomorphism; normalised on use
    if op == 'ptrtoint': return E.ptrtoint(v)
    if op == 'inttoptr': return E.inttoptr(st, E.as_int(v)) if not isinstance(v, (Ptr, Fn)) else v
    if op in ('sitofp', 'uitofp'):
        if t[1] == 1:
            b = tobool(v)
            one = Fraction(1 if op == 'uitofp' else -1)
            return vite(b, one, Fraction(0))
        v = E.norm(st, v, t[1], op == 'sitofp')
        if isinstance(v, int): return Fraction(v)
        return z3.ToReal(T.z(v))
    if op in ('fptosi', 'fptoui'):
        if isinstance(v, Fraction):
            q = abs(v.numerator)//v.denominator
            return q if v >= 0 else -q
        e = z3.If(zr(v) >= 0, z3.ToInt(zr(v)), -z3.ToInt(-zr(v)))
        e = simplify_toint(e, zr(v))
        w = t2[1]
        r = T.var(e) if not isinstance(e, int) else e
        if w <= 32:
            L, H = (-(1 << (w-1)), (1 << (w-1)) - 1) if op == 'fptosi' else (0, (1 << w)-1)
            g = b_and(le(L, r), le(r, H))
            E.oblige(st, g, 'arith', 'float-to-int-in-range')
            if isinstance(r, Poly) and len(r.m) == 1:
                T.atom(e, (L, H))
        return r
    if op in ('fpext', 'fptrunc'): return v
    raise Unsupported('cast ' + op)
def simplify_toint(e, v):
    return e

def i_icmp(E, st, fr, ins):
    pr, t, a, b = ins.a
    x = E.val(st, fr, t, a); y = E.val(st, fr, t, b)
    fr.regs[ins.res] = icmp(E, st, pr, t, x, y)
    fr.ip += 1
def icmp(E, st, pr, t, x, y):
    if x is UNDEF or y is UNDEF:
        if t[0] == 'p': raise Unsupported('icmp on undef pointer in ' + E.where(st))
        return z3.Bool(T.fresh_name('ucmp'))
    if t[0] == 'p' or isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
        if isinstance(x, int): x = Ptr(0, x)
        if isinstance(y, int): y = Ptr(0, y)
        if isinstance(x, Fn) or isinstance(y, Fn):
            r = (x == y)
            if pr == 'eq': return r
            if pr == 'ne': return not r
            raise Unsupported('fn cmp')
        if isinstance(x, Poly): x = E.inttoptr(st, x)
        if isinstance(y, Poly): y = E.inttoptr(st, y)
        if x.o == y.o:
            d = sub(x.off, y.off)
            for cl in E.cmp_logs: cl.append(d)
            if pr == 'eq': return eq(x.off, y.off)
            if pr == 'ne': return b_not(eq(x.off, y.off))
            return {'u': {'lt': lt, 'le': le, 'gt': lambda p, q: lt(q, p), 'ge': lambda p, q: le(q, p)}}['u'][pr[1:]](x.off, y.off)
        if pr == 'eq': return False
        if pr == 'ne': return True
        E.trusted.add('relative order of distinct objects\' addresses taken as allocation order')
        r = x.o < y.o
        return r if pr[1:] in ('lt', 'le') else not r
    w = t[1]
    if w == 1:
        x = tobool(x); y = tobool(y)
        e = (x == y) if isinstance(x, bool) and isinstance(y, bool) else (zb(x) == zb(y))
        if pr == 'eq': return e
        if pr == 'ne': return b_not(e)
        raise Unsupported('i1 cmp')
    if isreal(x) or isreal(y): raise Unsupported('icmp on float bits')
    if w == 64 and isinstance(x, Poly) and isinstance(y, Poly):
        bx = [q for q in x.atoms() if ('r', q) in E.baseatoms]; by = [q for q in y.atoms() if ('r', q) in E.baseatoms]
        if len(bx) == 1 and len(by) == 1 and bx[0] != by[0] and x.m.get((bx[0],)) == 1 and y.m.get((by[0],)) == 1:
            return icmp(E, st, pr, ('p',), E.inttoptr(st, x), E.inttoptr(st, y))
    if pr in ('eq', 'ne'):
        x = E.as_int(x); y = E.as_int(y)
        d = sub(x, y)
        lo, hi = T.ival(d)
        if lo is None or hi is None or not (-(1 << w) < lo and hi < (1 << w)):
            if w == 64:
                pass
            else:
                x = E.norm(st, x, w, True); y = E.norm(st, y, w, True)
        d = sub(x, y)
        for cl in E.cmp_logs: cl.append(d)
        r = eq(x, y)
        return r if pr == 'eq' else b_not(r)
    signed = pr[0] == 's'
    x = E.norm(st, x, w, signed); y = E.norm(st, y, w, signed)
    d = sub(x, y)
    for cl in E.cmp_logs: cl.append(d)
    k = pr[1:]
    if k == 'lt': return lt(x, y)
    if k == 'le': return le(x, y)
    if k == 'gt': return lt(y, x)
    return le(y, x)

def i_fcmp(E, st, fr, ins):
    pr, t, a, b = ins.a
    x = E.val(st, fr, t, a); y = E.val(st, fr, t, b)
    if x is UNDEF or y is UNDEF:
        fr.regs[ins.res] = z3.Bool(T.fresh_name('ucmp')); fr.ip += 1; return
    x = E.coerce(st, x, t); y = E.coerce(st, y, t)
    if pr in ('ord', 'uno'): r = pr == 'ord'
    elif pr == 'true': r = True
    elif pr == 'false': r = False
    else:
        k = pr[1:]
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k]
        else:
            p, q = zr(x), zr(y)
            if k in ('eq', 'ne') and p.eq(q): r = k == 'eq'
            else: r = {'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[k]
            if isinstance(r, z3.BoolRef):
                if z3.is_true(r): r = True
                elif z3.is_false(r): r = False
    fr.regs[ins.res] = r
    fr.ip += 1

def i_alloca(E, st, fr, ins):
    t, n = ins.a
    c = 1
    if n is not None:
        c = E.val(st, fr, n[0], n[1])
    o = E.new_obj(st, mul(E.m.sizeof(t), c), 'stack', ins.res)
    fr.allocas = fr.allocas + [o]
    fr.regs[ins.res] = Ptr(o, 0); fr.ip += 1
def i_load(E, st, fr, ins):
    t, p = ins.a
    fr.regs[ins.res] = E.load(st, E.val(st, fr, ('p',), p), t); fr.ip += 1
def i_store(E, st, fr, ins):
    t, v, p = ins.a
    x = E.val(st, fr, t, v)
    pp = E.val(st, fr, ('p',), p)
    if t == ('i', 1): x = tobool(x)
    E.store(st, pp, t, x); fr.ip += 1
def i_gep(E, st, fr, ins):
    bt, ops = ins.a
    k = ins.koff
    if k is None:
        k = False
        if all(v[0] != 'r' for t, v in ops[1:]):
            q = E.gep(st, bt, [(ops[0][0], Ptr(None, 0))] + [(t, E.val(st, fr, t, v)) for t, v in ops[1:]])
            if isinstance(q, Ptr) and isinstance(q.off, int): k = (q.off,)
        ins.koff = k
    if k:
        p = E.val(st, fr, ops[0][0], ops[0][1])
        if isinstance(p, Ptr):
            if isinstance(p.off, int):
                fr.regs[ins.res] = Ptr(p.o, norm_const(p.off + k[0], 64)); fr.ip += 1; return
    fr.regs[ins.res] = E.gep(st, bt, [(t, E.val(st, fr, t, v)) for t, v in ops]); fr.ip += 1
def i_select(E, st, fr, ins):
    c, t, a, b = ins.a
    cv = tobool(E.val(st, fr, ('i', 1), c))
    x = E.val(st, fr, t, a); y = E.val(st, fr, t, b)
    if isinstance(cv, bool):
        fr.regs[ins.res] = x if cv else y; fr.ip += 1; return
    v = vite(cv, x, y)
    if v is not None:
        fr.regs[ins.res] = v; fr.ip += 1; return
    outs = []
    for s, bval in E.fork_cond(st, cv):
        f = s.frames[-1]; f.regs[ins.res] = x if bval else y; f.ip += 1; outs.append(s)
    return outs
def i_br(E, st, fr, ins):
    if len(ins.a) == 1: return E.jump(st, fr, ins.a[0])
    c = E.val(st, fr, ('i', 1), ins.a[0])
    return E.branch(st, fr, c, ins.a[1], ins.a[2])
def i_switch(E, st, fr, ins):
    (t, v), d, cs = ins.a
    x = E.val(st, fr, t, v)
    if isbool(x): x = T.ite(x, 1, 0)
    tg = [d] + [l for _, l in cs]
    x = E.norm(st, x, t[1], True)
    if isinstance(x, int):
        E.mark_exit(st, fr, tg, True)
        for cv, l in cs:
            c = cv[1]
            if isinstance(c, bool): c = int(c)
            if norm_const(c, t[1]) == norm_const(x, t[1]): return E.jump(st, fr, l)
        return E.jump(st, fr, d)
    outs = []
    rest = st
    st.nforks += 1
    for tk in st.tokens: tk.forked = True
    for cv, l in cs:
        c = eq(x, int(cv[1]))
        if c is False: continue
        if E.feasible(rest, c):
            s = rest.fork(); E.assume(s, c)
            r = E.jump(s, s.frames[-1], l); outs.extend(r if r else [s])
        rest.pc.append(b_not(c)) if c is not True else rest.pc.append(z3.BoolVal(False))
    if E.check(rest.pc) != z3.unsat:
        r = E.jump(rest, rest.frames[-1], d); outs.extend(r if r else [rest])
    return outs
def i_call(E, st, fr, ins): return E.do_call(st, fr, ins)
def i_ret(E, st, fr, ins): return E.do_ret(st, fr, ins)
def i_unreachable(E, st, fr, ins):
    E.oblige(st, False, 'control', 'unreachable-reached')
    raise PathDead()
def i_landingpad(E, st, fr, ins): return E.do_landingpad(st, fr, ins)
def i_resume(E, st, fr, ins):
    exc = st.exc
    for o in fr.allocas: E.wobj(st, o).alive = False
    st.frames.pop()
    return E.throw(st, exc)
def i_extractvalue(E, st, fr, ins):
    t, v, idx = ins.a
    x = E.val(st, fr, t, v)
    for i in idx: x = x[i]
    fr.regs[ins.res] = x; fr.ip += 1
def i_insertvalue(E, st, fr, ins):
    t, v, t2, v2, idx = ins.a
    x = E.val(st, fr, t, v); y = E.val(st, fr, t2, v2)
    def ins_(a, ix):
        a = list(a)
        if len(ix) == 1: a[ix[0]] = y
        else: a[ix[0]] = ins_(a[ix[0]], ix[1:])
        return a
    fr.regs[ins.res] = ins_(x, idx); fr.ip += 1
def i_atomicrmw(E, st, fr, ins):
    bop, a, t, v = ins.a
    p = E.val(st, fr, ('p',), a); x = E.val(st, fr, t, v)
    old = E.load(st, p, t)
    if bop == 'add': n = add(old, x)
    elif bop == 'sub': n = sub(old, x)
    elif bop == 'xchg': n = x
    else: raise Unsupported('atomicrmw ' + bop)
    E.store(st, p, t, n if not isinstance(n, int) else norm_const(n, t[1]))
    fr.regs[ins.res] = old; fr.ip += 1
def i_cmpxchg(E, st, fr, ins):
    a, t, c, n = ins.a
    p = E.val(st, fr, ('p',), a)
    old = E.load(st, p, t); cv = E.val(st, fr, t, c); nv = E.val(st, fr, t, n)
    e = icmp(E, st, 'eq', t, old, cv)
    x = vite(e, nv, old)
    E.store(st, p, t, x); fr.regs[ins.res] = [old, e]; fr.ip += 1
def i_extractelement(E, st, fr, ins):
    t, v, i = ins.a
    x = E.val(st, fr, t, v); k = E.val(st, fr, ('i', 64), i)
    if x is UNDEF: fr.regs[ins.res] = UNDEF
    else: fr.regs[ins.res] = x[k]
    fr.ip += 1
def i_insertelement(E, st, fr, ins):
    t, v, e, i = ins.a
    x = E.val(st, fr, t, v); y = E.val(st, fr, t[2], e); k = E.val(st, fr, ('i', 64), i)
    x = list(x); x[k] = y
    fr.regs[ins.res] = x; fr.ip += 1

DISPATCH = dict(bin=i_bin, fneg=i_fneg, freeze=i_freeze, cast=i_cast, icmp=i_icmp, fcmp=i_fcmp, alloca=i_alloca, load=i_load, store=i_store, gep=i_gep,
    select=i_select, br=i_br, switch=i_switch, call=i_call, invoke=i_call, ret=i_ret, unreachable=i_unreachable, landingpad=i_landingpad, resume=i_resume,
    extractvalue=i_extractvalue, insertvalue=i_insertvalue, atomicrmw=i_atomicrmw, cmpxchg=i_cmpxchg, extractelement=i_extractelement, insertelement=i_insertelement)

# ------------------------------------------------------------ externals
def cstring(E, st, p):
    o = st.objs[p.o]
    s = ''
    i = p.off
    while True:
        c = E.load_conc(st, p.o, i, 1, ('i', 8))
        if c == 0: return s
        s += chr(c & 255); i += 1

def x_vc_int(E, st, fr, ins, a):
    nm = cstring(E, st, a[0])
    lo, hi = a[1], a[2]
    iv = (lo if isinstance(lo, int) else None, hi if isinstance(hi, int) else None)
    v = T.var(z3.Int(T.fresh_name('in_' + nm)), (iv[0] if iv[0] is not None else -(1 << 31), iv[1] if iv[1] is not None else (1 << 31)-1))
    E.assume(st, z3.And(T.z(lo) <= T.z(v), T.z(v) <= T.z(hi)) if True else None)
    # register linear facts for saturation
    E.assume(st, le(lo, v)) if not isinstance(lo, int) else None
    E.assume(st, le(v, hi)) if not isinstance(hi, int) else None
    st.inputs.append((nm, v, 'i'))
    return v
def x_vc_double(E, st, fr, ins, a):
    nm = cstring(E, st, a[0])
    v = z3.Real(T.fresh_name('in_' + nm))
    st.inputs.append((nm, v, 'd'))
    return v
def x_vc_bool(E, st, fr, ins, a):
    nm = cstring(E, st, a[0])
    v = z3.Bool(T.fresh_name('in_' + nm))
    st.inputs.append((nm, v, 'b'))
    return v
def x_vc_assume(E, st, fr, ins, a):
    c = tobool(a[0])
    if c is False: raise PathDead()
    E.assume(st, c)
    if c is not True and E.check(st.pc) == z3.unsat: raise PathDead()
    return None
def x_vc_assert(E, st, fr, ins, a):
    E.oblige(st, tobool(a[0]), 'ensures', cstring(E, st, a[1]))
def x_vc_reach(E, st, fr, ins, a):
    nm = cstring(E, st, a[0])
    if E.record:
        r = E.reach.get(nm)
        if r != 'yes':
            q = E.check(st.pc)
            E.reach[nm] = 'yes' if q == z3.sat else (r or str(q))
            # confirm nonlinear consistency lazily by caller
def x_vc_split(E, st, fr, ins, a):
    c = tobool(a[0])
    outs = []
    for s, bval in E.fork_cond(st, c):
        f = s.frames[-1]
        r = E.finish_call(s, f, ins, None)
        outs.extend(r if r else [s])
    return Forked(outs)
def x_vc_ghost(E, st, fr, ins, a):
    st.ghosts[cstring(E, st, a[0])] = a[1]
def x_vc_watch(E, st, fr, ins, a):
    # (ptr, newvalue)
    st.watches.append((a[0], a[1]))
def x_vc_unwatch(E, st, fr, ins, a):
    st.watches = []
def x_vc_maythrow(E, st, fr, ins, a):
    st.maythrow = bool(a[0])
def x_vc_havoc_d(E, st, fr, ins, a):
    p, n = a
    o = E.wobj(st, p.o)
    if isinstance(o.size, int) and isinstance(n, int):
        for i in range(n):
            E.store(st, Ptr(p.o, add(p.off, 8*i)), ('f', 8), z3.Real(T.fresh_name('hv')))
        return
    o = E.ensure_arr(st, p.o, ('f', 8), 8); o = E.wobj(st, p.o)
    src = fresh_arr(8, 'f', 'hv')
    o.arr = Arr('copy', o.arr, (T.divexact(p.off, 8), n, src, 0), 8, 'f')
def x_vc_is_native(E, st, fr, ins, a): return 0
def x_vc_live(E, st, fr, ins, a):
    p = a[0]
    return isinstance(p, Ptr) and p.o != 0 and st.objs[p.o].alive
def x_vc_same_object(E, st, fr, ins, a):
    return isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o == a[1].o
def x_vc_heap_live(E, st, fr, ins, a):
    return sum(1 for o in st.objs.values() if o.kind == 'heap' and o.alive)
def x_vc_obj_size(E, st, fr, ins, a):
    return st.objs[a[0].o].size if isinstance(a[0], Ptr) and a[0].o else 0

def x_new(E, st, fr, ins, a):
    n = a[0]
    n = E.as_int(n)
    if isinstance(n, int):
        n &= W64-1
        if n > (1 << 40):
            E.oblige(st, False, 'memory', 'allocation-size'); raise PathDead()
    else:
        E.oblige(st, le(0, n), 'memory', 'allocation-size-nonnegative')
    o = E.new_obj(st, n, 'heap', 'heap')
    return Ptr(o, 0)
def x_free(E, st, fr, ins, a): E.do_free(st, a[0], 'free')
def x_memcpy(E, st, fr, ins, a): E.memcpy(st, a[0], a[1], E.norm(st, a[2], 64, False)); return a[0]
def x_memset(E, st, fr, ins, a): E.memset(st, a[0], a[1], E.norm(st, a[2], 64, False)); return a[0]
def x_nop(E, st, fr, ins, a): return None
def x_lex_double(E, st, fr, ins, a):
    """boost::lexical_cast<double>(std::string) on a concrete string"""
    d = E.load(st, a[0], ('p',)); n = E.load(st, Ptr(a[0].o, a[0].off + 8), ('i', 64))
    if not isinstance(n, int) or not isinstance(d.off, int): raise Unsupported('conversion of a symbolic string')
    cs = [E.load_conc(st, d.o, d.off + i, 1, ('i', 8)) for i in range(n)]
    if not all(isinstance(c, int) for c in cs): raise Unsupported('conversion of a symbolic string')
    s = ''.join(chr(c & 255) for c in cs)
    if not re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s): return False
    E.trusted.add('boost::lexical_cast<double>(string) returns the nearest double')
    E.store(st, a[1], ('f', 8), Fraction(float(s)))
    return True
def x_locale_eq(E, st, fr, ins, a): return True
def x_locale_classic(E, st, fr, ins, a):
    E.trusted.add('the C++ locale is the classic locale')
    return Ptr(E.new_obj(st, 8, 'global', 'std::locale::classic'), 0)
def x_first(E, st, fr, ins, a): return a[0]
def x_zero(E, st, fr, ins, a): return 0
def x_umul_ov(E, st, fr, ins, a):
    E.trusted.add('array-new size computations do not overflow 64 bits')
    r = mul(E.as_int(a[0]), E.as_int(a[1]))
    if isinstance(r, int): return [norm_const(r, 64), not (0 <= r < W64)]
    return [r, False]
def x_uadd_ov(E, st, fr, ins, a):
    r = add(E.as_int(a[0]), E.as_int(a[1]))
    if isinstance(r, int): return [norm_const(r, 64), not (0 <= r < W64)]
    return [r, False]
def x_throw_std(E, st, fr, ins, a):
    st.exc = (NULL, '@_ZTISt9exception')
    r = E.throw(st, (NULL, '@_ZTISt9exception'))
    return Forked(r if r else [st])
def x_cxa_alloc_exc(E, st, fr, ins, a):
    return Ptr(E.new_obj(st, a[0], 'exc', 'exception'), 0)
def x_cxa_throw(E, st, fr, ins, a):
    ti = a[1]
    nm = st.objs[ti.o].name if isinstance(ti, Ptr) and ti.o else (ti.n if isinstance(ti, Fn) else None)
    r = E.throw(st, (a[0], nm))
    return Forked(r if r is not None else [st])
def x_cxa_begin_catch(E, st, fr, ins, a):
    st.caught = st.caught + [st.exc]
    return a[0]
def x_cxa_end_catch(E, st, fr, ins, a):
    if st.caught: st.caught = st.caught[:-1]
def x_cxa_rethrow(E, st, fr, ins, a):
    exc = st.caught[-1] if st.caught else st.exc
    r = E.throw(st, exc)
    return Forked(r if r is not None else [st])
def x_typeid(E, st, fr, ins, a):
    ti = a[0]
    return E.typeid(st.objs[ti.o].name if isinstance(ti, Ptr) else ti.n)
def x_terminate(E, st, fr, ins, a):
    E.oblige(st, False, 'control', 'terminate'); raise PathDead()
def x_assert_fail(E, st, fr, ins, a):
    E.oblige(st, False, 'control', 'assert-failure'); raise PathDead()
def x_expect(E, st, fr, ins, a): return a[0]
def x_sqrt(E, st, fr, ins, a):
    x = a[0]
    if isinstance(x, Fraction) and x >= 0 and x.denominator == 1 and x < 1 << 50: return Fraction(math.sqrt(int(x)))       # the correctly rounded double
    if E.o.get('real_abs'):
        s = RSQRT(zr(x)); E.assume(st, s >= 0)
        return s
    s = z3.Real(T.fresh_name('sqrt'))
    E.assume(st, s >= 0); E.assume(st, z3.Implies(zr(x) >= 0, s*s == zr(x)))
    return s
def x_fabs(E, st, fr, ins, a):
    x = a[0]
    if isinstance(x, Fraction): return abs(x)
    return z3.If(zr(x) >= 0, zr(x), -zr(x))
def x_floor(E, st, fr, ins, a):
    x = a[0]
    if isinstance(x, Fraction): return Fraction(x.numerator//x.denominator)
    return z3.ToReal(z3.ToInt(zr(x)))
def x_ceil(E, st, fr, ins, a):
    x = a[0]
    if isinstance(x, Fraction): return Fraction(-((-x.numerator)//x.denominator))
    return -z3.ToReal(z3.ToInt(-zr(x)))
def x_uf(n):
    def f(E, st, fr, ins, a):
        nm = E.curname.lstrip('@').replace('llvm.', '').split('.')[0]
        E.trusted.add('%s is an uninterpreted function' % (demangle(E.curname)[:60] if nm.startswith('_Z') else 'libm ' + nm))
        zs = [zr(x) if isreal(x) else T.z(x) for x in a]
        fd = z3.Function('m_' + nm, *([z.sort() for z in zs] + [z3.RealSort()]))
        return fd(*zs)
    return f
def x_strlen(E, st, fr, ins, a): return len(cstring(E, st, a[0]))
def mm(is_min, signed):
    def f(E, st, fr, ins, a):
        w = ins.a['ret'][1]
        x = E.norm(st, a[0], w, signed); y = E.norm(st, a[1], w, signed)
        c = le(x, y)
        return T.ite(c, x, y) if is_min else T.ite(c, y, x)
    return f
def x_memcmp(E, st, fr, ins, a):
    n = a[2]
    if not isinstance(n, int): raise Unsupported('memcmp symbolic length')
    for i in range(n):
        x = E.load_conc(st, a[0].o, a[0].off+i, 1, ('i', 8)); y = E.load_conc(st, a[1].o, a[1].off+i, 1, ('i', 8))
        if not (isinstance(x, int) and isinstance(y, int)): raise Unsupported('memcmp symbolic')
        if x != y: return -1 if (x & 255) < (y & 255) else 1
    return 0
def x_memchr(E, st, fr, ins, a):
    n = a[2]
    for i in range(n):
        x = E.load_conc(st, a[0].o, a[0].off+i, 1, ('i', 8))
        if not isinstance(x, int): raise Unsupported('memchr symbolic')
        if (x & 255) == (a[1] & 255): return Ptr(a[0].o, a[0].off+i)
    return NULL
def x_dyncast(E, st, fr, ins, a):
    """__dynamic_cast(ptr, src, dst, hint): exact via vtable RTTI, public non-virtual single/multiple inheritance"""
    p, src, dst, hint = a
    if isinstance(p, Ptr) and p.o == 0: return NULL
    vt = E.load(st, p, ('p',))
    tip = E.load(st, Ptr(vt.o, sub(vt.off, 8)), ('p',))
    top = E.load(st, Ptr(vt.o, sub(vt.off, 16)), ('i', 64))
    if isinstance(top, Ptr): top = top.off
    base = Ptr(p.o, add(p.off, top))
    def nm(t): return st.objs[t.o].name if isinstance(t, Ptr) else t.n
    want = nm(dst)
    def search(tn, off):
        if tn == want: return off
        if tn not in E.m.globals: return None
        t, init = E.m.gdef(tn)
        if not init or init[0] != 'agg': return None
        els = init[1]
        if len(els) == 3: return search(els[2][1][1], off)
        if len(els) > 3:
            i = 4
            while i < len(els):
                bn = els[i][1][1]; fl = els[i+1][1][1]
                r = None
                if fl & 1:
                    # virtual base: vtable offset
                    vo = fl >> 8
                    vt2 = E.load(st, Ptr(base.o, add(base.off, off)), ('p',))
                    d = E.load(st, Ptr(vt2.o, add(vt2.off, vo)), ('i', 64))
                    r = search(bn, off + d)
                else: r = search(bn, off + (fl >> 8))
                if r is not None: return r
                i += 2
        return None
    r = search(nm(tip), 0)
    return NULL if r is None else Ptr(base.o, add(base.off, r))

def x_ctlz(E, st, fr, ins, a):
    w = ins.a['ret'][1]
    if not isinstance(a[0], int): raise Unsupported('ctlz symbolic')
    v = a[0] & ((1 << w) - 1)
    return w - v.bit_length()
def x_cttz(E, st, fr, ins, a):
    w = ins.a['ret'][1]
    if not isinstance(a[0], int): raise Unsupported('cttz symbolic')
    v = a[0] & ((1 << w) - 1)
    return w if v == 0 else (v & -v).bit_length() - 1

STDALIAS = {
 '@_ZNSi4readEPcl': '@vc_istream_read', '@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': '@vc_out_str', '@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c': '@vc_out_char', '@_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': '@vc_out_endl', '@_ZNSolsEPFRSoS_E': '@vc_out_manip',
 '@_ZNSt8__detail15_List_node_base4swapERS0_S1_': '@vc_list_swap',
 '@_ZNSt8__detail15_List_node_base7_M_hookEPS0_': '@vc_list_hook', '@_ZNSt8__detail15_List_node_base9_M_unhookEv': '@vc_list_unhook',
 '@_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_': '@vc_list_transfer',
 '@_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_': '@vc_rb_insert', '@_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_': '@vc_rb_erase',
 '@_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base': '@vc_rb_inc', '@_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base': '@vc_rb_inc',
 '@_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base': '@vc_rb_dec', '@_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base': '@vc_rb_dec',
}
EXTERNS = {
 '@vc_int': x_vc_int, '@vc_long': x_vc_int, '@vc_double': x_vc_double, '@vc_bool': x_vc_bool, '@vc_assume': x_vc_assume, '@vc_assert': x_vc_assert, '@vc_reach': x_vc_reach, '@vc_split': x_vc_split,
 '@vc_ghost_i': x_vc_ghost, '@vc_ghost_d': x_vc_ghost, '@vc_ghost_p': x_vc_ghost, '@vc_watch_d': x_vc_watch, '@vc_watch_i': x_vc_watch, '@vc_unwatch': x_vc_unwatch,
 '@vc_maythrow': x_vc_maythrow, '@vc_havoc_d': x_vc_havoc_d, '@vc_is_native': x_vc_is_native, '@vc_live': x_vc_live, '@vc_same_object': x_vc_same_object,
 '@vc_heap_live': x_vc_heap_live, '@vc_obj_size': x_vc_obj_size,
 '@_Znwm': x_new, '@_Znam': x_new, '@malloc': x_new, '@_ZdlPv': x_free, '@_ZdaPv': x_free, '@_ZdlPvm': x_free, '@_ZdaPvm': x_free, '@free': x_free,
 '@memcpy': x_memcpy, '@memmove': x_memcpy, '@memset': x_memset, '@strlen': x_strlen, '@memcmp': x_memcmp, '@bcmp': x_memcmp, '@memchr': x_memchr,
 '@__cxa_allocate_exception': x_cxa_alloc_exc, '@__cxa_free_exception': x_nop, '@__cxa_throw': x_cxa_throw, '@__cxa_begin_catch': x_cxa_begin_catch,
 '@__cxa_end_catch': x_cxa_end_catch, '@__cxa_rethrow': x_cxa_rethrow, '@_ZSt9terminatev': x_terminate, '@abort': x_terminate, '@__assert_fail': x_assert_fail,
 '@llvm.trap': x_terminate, '@__cxa_pure_virtual': x_terminate, '@__cxa_atexit': x_zero, '@__dynamic_cast': x_dyncast, '@exit': x_terminate,
 '@_ZNSt8ios_base4InitC1Ev': x_nop, '@_ZNSt8ios_base4InitD1Ev': x_nop,
 '@_ZNSt6localeC1Ev': x_nop, '@_ZNSt6localeD1Ev': x_nop, '@_ZNKSt6localeeqERKS_': x_locale_eq, '@_ZNSt6locale7classicEv': x_locale_classic,
 '@_ZN5boost10conversion6detail19try_lexical_convertIdNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEEEbRKT0_RT_': x_lex_double,
 '@sqrt': x_sqrt, '@fabs': x_fabs, '@floor': x_floor, '@ceil': x_ceil, '@__clang_call_terminate': x_terminate,
}
BOOSTMATH_RX = [(re.compile(r'@_ZN5boost4math(6tgamma|6lgamma|7digamma|12cyl_bessel_j|11cyl_neumann)I[id]*E'), x_uf(1)), (re.compile(r'@_ZN5boost4math.*init'), x_nop)]
EXTERN_RX = [(re.compile(r), h) for r, h in [
 (r'@llvm\.memcpy|@llvm\.memmove', x_memcpy), (r'@llvm\.memset', x_memset), (r'@llvm\.expect', x_expect), (r'@llvm\.umul\.with', x_umul_ov), (r'@llvm\.uadd\.with', x_uadd_ov),
 (r'@llvm\.lifetime|@llvm\.dbg|@llvm\.assume|@llvm\.experimental|@llvm\.invariant|@llvm\.stack', x_nop), (r'@llvm\.eh\.typeid\.for', x_typeid), (r'@_ZSt\d+__throw_', x_throw_std),
 (r'@llvm\.is\.constant', lambda E, st, fr, ins, a: False), (r'@llvm\.ctlz', x_ctlz), (r'@llvm\.cttz', x_cttz), (r'@llvm\.fabs', x_fabs), (r'@llvm\.sqrt', x_sqrt), (r'@llvm\.floor', x_floor), (r'@llvm\.ceil', x_ceil),
 (r'@llvm\.smin', mm(True, True)), (r'@llvm\.smax', mm(False, True)), (r'@llvm\.umin', mm(True, False)), (r'@llvm\.umax', mm(False, False)),
 (r'@(sin|cos|tan|exp|log|log10|pow|atan2|asin|acos|atan|sinh|cosh|tanh|fmod|round|ldexp|lgamma|tgamma)$', x_uf(1)), (r'@llvm\.(sin|cos|exp|log|log10|pow)\b', x_uf(1)),
]]
