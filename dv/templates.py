"""Loop-invariant templates offered to the Houdini step (candidates only: each kept one is proved inductive)."""
import z3, itertools
import terms as T
from terms import Poly, add, sub, mul, neg, le, lt, eq, b_not, b_and, b_or, b_imp, zb, zr
REG = {}
def template(f):
    REG[f.__name__] = f
    return f
def select(names):
    return [REG[n] for n in names]

def psub(p, L, vm):
    import engine
    return engine.psubst(p, L['amap'], vm) if isinstance(p, Poly) else p

def watch_getters(L):
    """[(name, getter(vm)->value, entry value, new value)] for watched cells that the loop modifies"""
    import engine
    out = []
    E = L['engine']; entry = L['entry']
    keys = {}
    for lv in L['lvs']: keys[lv['key']] = lv
    for wi, (p, new) in enumerate(entry.watches):
        if not isinstance(p, engine.Ptr): continue
        hit = None
        for k, lv in keys.items():
            if k[0] == 'cell' and k[1] == p.o and k[2] == p.off: hit = k
            if k[0] == 'arr' and k[1] == p.o: hit = k
        if hit is None: continue
        if hit[0] == 'cell':
            out.append(('w%d' % wi, (lambda vm, k=hit: vm[k]), L['vm_entry'][hit], new))
        else:
            def g(vm, k=hit, p=p):
                a = vm[k]
                i = T.divexact(p.off, a.es)
                return engine.sel(a, i)
            out.append(('w%d' % wi, g, g(L['vm_entry']), new))
    return out

def veq(a, b):
    import engine
    if a is None or b is None: return None
    if engine.isreal(a) or engine.isreal(b):
        if isinstance(a, int): a = T.Fraction(a)
        if isinstance(b, int): b = T.Fraction(b)
        return zr(a) == zr(b)
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or isinstance(a, bool) or isinstance(b, bool):
        if engine.isint(a): a = b_not(eq(a, 0))
        if engine.isint(b): b = b_not(eq(b, 0))
        return zb(a) == zb(b)
    return eq(a, b)

def ghosts(L):
    """ghost tuple k0,k1,... as ints"""
    g = L['entry'].ghosts
    out = []
    i = 0
    while 'k%d' % i in g: out.append(g['k%d' % i]); i += 1
    return out

def lexgt(xs, ks):
    """xs > ks lexicographically, first component slowest"""
    r = False
    for x, k in reversed(list(zip(xs, ks))):
        r = b_or(lt(k, x), b_and(eq(x, k), r))
    return r

def positions(L):
    """for each ghost component: polys x (over LVs or constants of the loop) the body compares with it"""
    ks = ghosts(L)
    res = []
    ok = L['okatoms']
    for k in ks:
        xs = []
        if isinstance(k, Poly):
            for p in L['allcmps']:
                if not set(p.atoms()) <= ok: continue
                for q in (add(p, k), sub(k, p)):
                    if isinstance(q, Poly) and (q.atoms() & k.atoms()): continue
                    if isinstance(q, Poly) and len(q.m) > 2: continue
                    if q not in xs: xs.append(q)
        res.append(xs[:6])
    return ks, res

def runs(L, n):
    """runs of n contiguous equal-size int cells among the LVs"""
    cells = {}
    for lv in L['lvs']:
        k = lv['key']
        if k[0] == 'cell' and lv['kind'] == 'int' and k[3] in (4, 8): cells[(k[1], k[2], k[3])] = k
    out = []
    for (o, off, sz), k in cells.items():
        ks = [cells.get((o, off + i*sz, sz)) for i in range(n)]
        if all(ks): out.append(ks)
    return out

@template
def flags(L):
    """0/1 flags: range, and what they imply about the other loop variables"""
    out = []
    for lv in L['lvs']:
        k = lv['key']
        if lv['kind'] == 'int' and lv['w'] == 8:
            b = lambda vm, k=k: eq(vm[k], 1)
            out.append(('%s in {0,1}' % (k,), lambda vm, k=k: b_or(eq(vm[k], 0), eq(vm[k], 1))))
        elif lv['kind'] == 'bool':
            b = lambda vm, k=k: zb(vm[k])
        else: continue
        for l2 in L['lvs']:
            if l2['kind'] == 'int' and l2['key'] != k:
                e = L['vm_entry'][l2['key']]
                if e is None: continue
                out.append(('%s ==> %s == entry' % (k, l2['key']), lambda vm, b=b, k2=l2['key'], e=e: b_imp(b(vm), eq(vm[k2], e))))
    return out

@template
def guarded(L):
    """flag or comparison predicate"""
    out = []
    for fname, fl in flagset(L)[1:]:
        for p in L['cmps'][:24]:
            out.append(('%s(%s)<=0' % (fname, p), lambda vm, fl=fl, p=p: b_or(fl(vm), le(psub(p, L, vm), 0))))
            out.append(('%s(%s)>=0' % (fname, p), lambda vm, fl=fl, p=p: b_or(fl(vm), le(0, psub(p, L, vm)))))
    return out

def flagset(L):
    fl = [('', lambda vm: False)]
    for lv in L['lvs']:
        k = lv['key']
        if lv['kind'] == 'int' and lv['w'] == 8: fl.append(('flag%s or ' % (k,), lambda vm, k=k: eq(vm[k], 1)))
        elif lv['kind'] == 'bool': fl.append(('flag%s or ' % (k,), lambda vm, k=k: zb(vm[k])))
    return fl

@template
def visited(L):
    """watched cell holds its new value once the traversal has passed the ghost index k, its entry value before"""
    out = []
    ws = watch_getters(L)
    if not ws: return out
    conds = []
    ks, pos = positions(L)
    hat = L['hatoms']
    if ks:
        # components that depend on loop variables vs constants
        choices = []
        for d, xs in enumerate(pos):
            lv = [x for x in xs if isinstance(x, Poly) and (x.atoms() & hat)]
            ct = [x for x in xs if not (isinstance(x, Poly) and (x.atoms() & hat))]
            choices.append((lv, ct))
        ldims = [d for d, (l, c) in enumerate(choices) if l]
        if len(ldims) == 1:
            d = ldims[0]
            cdims = [e for e, (l, c) in enumerate(choices) if c and e != d]
            for x in choices[d][0]:
                # constants: every subset of known constant components (all of them, or none)
                for sel_ in [list(c_) for n_ in range(len(cdims), -1, -1) for c_ in itertools.combinations(cdims, n_)]:
                    for cc in itertools.islice(itertools.product(*[choices[e][1] for e in sel_]), 4):
                        pre = [eq(c, ks[e]) for c, e in zip(cc, sel_)]
                        for dr in (1, -1):
                            conds.append(('%s %s k%d & %s' % (x, '>' if dr > 0 else '<', d, sel_), lambda vm, x=x, d=d, pre=pre, dr=dr: b_and(*(pre + [lt(ks[d], psub(x, L, vm)) if dr > 0 else lt(psub(x, L, vm), ks[d])]))))
        elif len(ldims) == len(ks):
            for combo in itertools.islice(itertools.product(*[choices[d][0] for d in ldims]), 4):
                for order in ('c', 'f'):
                    def cond(vm, combo=combo, order=order):
                        xs = [psub(x, L, vm) for x in combo]
                        kk = list(ks)
                        if order == 'f': xs = xs[::-1]; kk = kk[::-1]
                        return lexgt(xs, kk)
                    conds.append(('lex%s%s' % (order, list(map(str, combo))), cond))
        for run in runs(L, len(ks)):
            for order in ('c', 'f'):
                def cond(vm, run=run, order=order):
                    xs = [vm[k] for k in run]; kk = list(ks)
                    if order == 'f': xs = xs[::-1]; kk = kk[::-1]
                    return lexgt(xs, kk)
                conds.append(('lex%s%s' % (order, run), cond))
    # flat pointers / counters
    import engine
    for wi, (p, new) in enumerate(L['entry'].watches):
        if not isinstance(p, engine.Ptr): continue
        for lv in L['lvs']:
            if lv['kind'] == 'ptr' and lv['obj'] == p.o:
                k = lv['key']
                conds.append(('%s > w%d' % (k, wi), lambda vm, k=k, p=p: lt(p.off, vm[k])))
                conds.append(('%s <= w%d' % (k, wi), lambda vm, k=k, p=p: le(vm[k], p.off)))
        es = 8
        o = L['entry'].objs.get(p.o)
        if o is not None and o.arr is not None: es = o.arr.es
        conds.append(('n > w%d' % wi, lambda vm, p=p, es=es: lt(p.off, mul(vm['#n'], es))))
    for fname, fl in flagset(L):
        for cname, c in conds:
            for wname, g, old, new in ws:
                def f(vm, c=c, g=g, old=old, new=new, fl=fl):
                    t = b_or(fl(vm), c(vm)); v = g(vm)
                    a, b = veq(v, new), veq(v, old)
                    if a is None or b is None: return None
                    return b_and(b_imp(t, a), b_or(t, b))
                out.append(('%s: %s(%s) ? new : old' % (wname, fname, cname), f))
    return out

@template
def lockstep(L):
    """pairs of counters that advance together keep their distance"""
    out = []
    ints = [lv for lv in L['lvs'] if lv['kind'] == 'int' and lv.get('w') in (32, 64) and L['vm_entry'].get(lv['key']) is not None]
    cells = [lv for lv in ints]
    n = 0
    for i, a in enumerate(cells):
        for b in cells[i+1:]:
            if a['w'] != b['w']: continue
            ka, kb = a['key'], b['key']
            d = sub(L['vm_entry'][ka], L['vm_entry'][kb])
            out.append(('%s-%s == entry' % (ka, kb), lambda vm, ka=ka, kb=kb, d=d: eq(sub(vm[ka], vm[kb]), d)))
            n += 1
            if n > 150: return out
    return out
