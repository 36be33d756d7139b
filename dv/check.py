#!/usr/bin/env python3-vt
"""Runner: check.py PROP [quick|thorough].  Compiles the contract harnesses of PROP against /repo's working tree,
proves every obligation with the engine, replays counterexamples natively, writes evidence."""
import sys, os, subprocess, tempfile, shutil, time, json, multiprocessing, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from props import PROPS

CLANG, OPT, GXX = '/usr/bin/clang++-18', '/usr/bin/opt-18', '/usr/bin/g++'
MPIINC = '/usr/lib/x86_64-linux-gnu/openmpi/include'
HDFINC = '/usr/include/hdf5/openmpi'
PASSES = '-passes=function(sroa,early-cse,simplifycfg,loop-simplify)'

def make_config(scratch, defs):
    inc = os.path.join(scratch, 'inc_' + '_'.join(sorted(defs)))
    os.makedirs(os.path.join(inc, 'grid', 'iteration'), exist_ok=True)
    with open(os.path.join(REPO, 'src', 'config.hpp.in')) as f: src = f.read()
    out = []
    for l in src.split('\n'):
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', l)
        if m:
            if m.group(1) in defs: out.append('#define %s' % m.group(1))
        else: out.append(l)
    with open(os.path.join(inc, 'config.hpp'), 'w') as f: f.write('\n'.join(out) + '\n')
    return ['-I' + os.path.join(inc, 'grid'), '-I' + os.path.join(inc, 'grid', 'iteration'), '-I' + inc]

def flags(tu, scratch):
    fl = ['-std=c++17', '-w', '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src'), '-I' + REPO]
    fl += make_config(scratch, tu.get('defs', []))
    if tu.get('stub'): fl += ['-I' + os.path.join(VERIF, 'harness', 'stub')]
    for i in tu.get('inc', []): fl += ['-I' + os.path.join(VERIF, 'harness', i)]

    if 'SCHNEK_HAVE_MPI' in tu.get('defs', []) and not tu.get('stub'): fl += ['-isystem', MPIINC]
    if 'SCHNEK_HAVE_HDF5' in tu.get('defs', []): fl += ['-isystem', HDFINC]
    return fl

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)

def compile_ir(args):
    tu, scratch = args
    base = os.path.join(scratch, tu['src'].replace('.cpp', ''))
    t = time.time()
    r = sh([CLANG] + flags(tu, scratch) + ['-DVC_SYM', '-fno-threadsafe-statics', '-ffp-contract=off', '-fno-discard-value-names',
        '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', os.path.join(VERIF, 'harness', tu['src']), '-o', base + '.raw.ll'])
    if r.returncode: return (tu['src'], 'ir', False, r.stderr[-3000:], time.time()-t)
    r = sh([OPT, '-S', PASSES, base + '.raw.ll', '-o', base + '.ll'])
    if r.returncode: return (tu['src'], 'ir', False, r.stderr[-3000:], time.time()-t)
    return (tu['src'], 'ir', True, base + '.ll', time.time()-t)

def compile_native(args):
    tu, scratch = args
    out = os.path.join(scratch, tu['src'].replace('.cpp', '.exe'))
    t = time.time()
    r = sh([GXX] + flags(tu, scratch) + ['-O1', '-g1', '-ffp-contract=off', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,alignment,vptr', '-fno-sanitize-recover=all', '-rdynamic',
        os.path.join(VERIF, 'harness', tu['src']), os.path.join(VERIF, 'harness', 'native.cpp'), '-o', out, '-ldl'])
    return (tu['src'], 'native', r.returncode == 0, out if r.returncode == 0 else r.stderr[-3000:], time.time()-t)

MODS = {}
def prove_fn(job):
    (src, fn, opts, budget) = job
    import engine, terms, templates
    terms.reset()
    t = time.time()
    o = dict(opts); o['templates'] = templates.select(o.get('templates', ())); o['name'] = fn
    E = engine.Engine(MODS[src], o)
    E.deadline = t + budget
    err = None
    try:
        ends = E.run(fn)
    except Exception as ex:
        import traceback
        err = traceback.format_exc()[-1500:]
        ends = []
    if err: E.unsupported.append(('engine error: ' + err, '', []))
    fns = sorted(engine.demangle(n) for n in E.fnset if 'schnek' in n or '6schnek' in n)
    return dict(src=src, fn=fn, t=time.time()-t, obls=[dict(kind=k[0], id=k[1], **v) for k, v in E.obls.items()],
                failed=[{k: v for k, v in f.items() if k != 'tokens'} for f in E.failed], unsupported=E.unsupported[:5], nunsup=len(E.unsupported),
                reach=E.reach, stats=E.stats, trusted=sorted(E.trusted), loopinv=[(a, b, c) for a, b, c, _ in E.loopinv], fns=fns,
                contracts=sorted('%s -> %s' % (engine.demangle(a), b) for a, b in E.used_contracts), ends=len(ends))

def _worker(conn, job):
    try: conn.send(prove_fn(job))
    except BaseException as ex:
        try: conn.send(dict(src=job[0], fn=job[1], t=0, obls=[], failed=[], unsupported=[('worker: %r' % ex, '', [])], nunsup=1, reach={}, stats={}, trusted=[], loopinv=[], fns=[], contracts=[], ends=0))
        except BaseException: pass
    conn.close()
    os._exit(0)

def run_pool(jobs, nproc, hard_extra=60):
    """fork one process per job, at most nproc at a time; kill on overrun"""
    ctx = multiprocessing.get_context('fork')
    pending = list(jobs); running = []; results = []
    while pending or running:
        while pending and len(running) < nproc:
            j = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, j)); p.start(); b.close()
            running.append((p, a, j, time.time()))
        nr = []
        for p, a, j, t0 in running:
            got = None
            if a.poll(0):
                try: got = a.recv()
                except EOFError: got = 'died'
            elif not p.is_alive(): got = 'died'
            elif time.time() - t0 > j[3] + hard_extra:
                p.kill(); got = 'time budget (hard)'
            if got is None: nr.append((p, a, j, t0)); continue
            if isinstance(got, str):
                got = dict(src=j[0], fn=j[1], t=time.time()-t0, obls=[], failed=[], unsupported=[(got, '', [])], nunsup=1, reach={}, stats={}, trusted=[], loopinv=[], fns=[], contracts=[], ends=0)
            p.join(5)
            if p.is_alive(): p.kill(); p.join()
            results.append(got)
        running = nr
        if running: time.sleep(0.02)
    return results

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=77')
def native_search(job):
    exe, fn, seed, secs, runs, scratch = job
    log = os.path.join(scratch, fn + '.log')
    try:
        r = subprocess.run([exe, 'search', fn, str(seed), str(secs), str(runs), log], capture_output=True, text=True, env=ENV, timeout=secs*3 + 60, errors='replace')
        rc, out = r.returncode, (r.stdout + r.stderr)
    except subprocess.TimeoutExpired:
        # one run that does not end: report it as undecided unless it is a hang of the code itself
        return dict(fn=fn, status='hang', out='did not terminate', inputs=read_log(log))
    if rc == 0: return dict(fn=fn, status='pass', out=out.strip()[-400:], inputs=None)
    if rc == 3: return dict(fn=fn, status='missing', out=out[-400:], inputs=None)
    return dict(fn=fn, status='fail', out=out[-2500:], inputs=read_log(log))
def read_log(log):
    try:
        with open(log, 'rb') as f: return f.read().split(b'\0')[0].decode()
    except OSError: return ''
def native_replay(exe, fn, inputs, scratch):
    """inputs: list of (name,val,ty)"""
    f = os.path.join(scratch, fn + '.in')
    with open(f, 'w') as h:
        for n, v, ty in inputs: h.write('%s %s %s\n' % (ty, n, '?' if v is None else v))
    try:
        r = subprocess.run([exe, 'replay', fn, f], capture_output=True, text=True, env=ENV, timeout=60, errors='replace')
    except subprocess.TimeoutExpired: return 'hang', 'did not terminate within 60 s'
    if r.returncode == 0: return 'pass', r.stdout
    if r.returncode in (3, 11): return 'reject', r.stdout
    return 'fail', (r.stdout + r.stderr)[-2500:]

def fn_names(llfile):
    return re.findall(r'^define [^@]*@(ht?_\w+)\(', open(llfile).read(), re.M)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = os.environ.get('VC_VERBOSE')
    P = PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    try:
        return run(prop, tier, only, seed, P, t0, scratch, verbose)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run(prop, tier, only, seed, P, t0, scratch, verbose):
    nproc = int(os.environ.get('VC_NPROC', '8'))
    tus = P['tus']
    budget = P.get('budget', 120) if tier == 'quick' else P.get('budget_thorough', 900)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(nproc) as ex:
        irs = list(ex.map(compile_ir, [(t, scratch) for t in tus]))
        nats_f = [ex.submit(compile_native, (t, scratch)) for t in tus]
        bad = [r for r in irs if not r[2]]
        if bad:
            for r in bad: print('ERROR property=%s harness %s does not compile against the current tree:\n%s' % (prop, r[0], r[3]))
            return 2
        import llparse
        jobs = []
        for tu, r in zip(tus, irs):
            MODS[tu['src']] = llparse.Module(open(r[3]).read())
            names = fn_names(r[3])
            for n in names:
                if n.startswith('ht_') and tier != 'thorough': continue
                if only and n not in only: continue
                o = dict(tu.get('opts', {})); o.update(tu.get('fnopts', {}).get(n, {}))
                jobs.append((tu['src'], n, o, o.get('budget', budget) if tier == 'quick' else budget))
        nats = {f.result()[0]: f.result() for f in nats_f}
    bad = [r for r in nats.values() if not r[2]]
    if bad:
        for r in bad: print('ERROR property=%s harness %s does not build natively:\n%s' % (prop, r[0], r[3]))
        return 2
    if not jobs: print('ERROR property=%s no contracts found' % prop); return 2
    # longest first
    jobs.sort(key=lambda j: -j[2].get('cost', 1))
    results = run_pool(jobs, nproc)
    results.sort(key=lambda r: (r['src'], r['fn']))
    # native: replay every counterexample, and search every contract
    secs = P.get('native_s', 2) if tier == 'quick' else P.get('native_s_thorough', 20)
    sjobs = [(nats[s][3], n, seed, secs, 10**7, scratch) for s, n, _, _ in jobs]
    with cf.ThreadPoolExecutor(nproc) as ex: searches = {j[1]: r for j, r in zip(sjobs, ex.map(native_search, sjobs))}
    basefile = os.path.join(VERIF, 'baseline', prop + '.json')
    baseline = json.load(open(basefile)) if os.path.exists(basefile) else {}
    violations = []; undecided = []; proved = []; nff = []
    for r in results:
        fn = r['fn']; exe = nats[r['src']][3]
        s = searches[fn]
        r['native'] = s['out'] if s['status'] == 'pass' else s['status']
        ok = not r['failed'] and not r['unsupported'] and r['obls'] and r['reach'] and all(v == 'yes' for v in r['reach'].values())
        if s['status'] == 'missing': print('ERROR property=%s %s not found natively' % (prop, fn)); return 2
        hit = None
        if s['status'] in ('fail',):
            hit = ('native', s['out'], s['inputs'], None)
        elif s['status'] == 'hang':
            hit = ('native', 'a run of the real code did not terminate', s['inputs'], None)
        # order: satisfiable obligations first
        sat = [f for f in r['failed'] if f['result'] == 'sat']
        best = None
        for f in sat[:6]:
            st, out = native_replay(exe, fn, f['inputs'], scratch)
            if st == 'fail': best = ('replay', out, '\n'.join('%s %s %s' % (ty, n, v) for n, v, ty in f['inputs']), f); break
        if best: violations.append((r, best))
        elif hit: violations.append((r, (hit[0], hit[1], hit[2], sat[0] if sat else (r['failed'][0] if r['failed'] else None))))
        elif ok: proved.append(r)
        else:
            b = baseline.get(fn, {})
            lost = [f for f in sat if b.get('%s|%s' % (f['kind'], f['id']))]
            if lost and b.get('#proved'): nff.append((r, lost[0]))
            else: undecided.append(r)
    code = 0
    if violations or nff:
        code = 1
        rdir = os.path.join(VERIF, 'replay'); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%s.txt' % (prop, violations[0][0]['fn'] if violations else nff[0][0]['fn']))
        with open(rp, 'w') as f:
            if violations:
                r, (how, out, inputs, ob) = violations[0]
                f.write('property %s\nharness %s function %s\n' % (prop, r['src'], r['fn']))
                if ob: f.write('failed obligation: [%s] %s\nin %s\nreason: %s\n' % (ob['kind'], ob['id'], ob['where'], ob['reason']))
                f.write('found by: %s\nreal code said:\n%s\ninputs (type name value, in call order):\n%s\n' % ({'native': 'search on the real code', 'replay': 'verifier counterexample replayed on the real code'}[how], out, inputs))
            else:
                r, ob = nff[0]
                f.write('property %s\nharness %s function %s\nfailed obligation: [%s] %s\nin %s\ntrace %s\nreason: %s\ngoal: %s\nmodel inputs: %s\nnot reproduced natively: %s\n' % (
                    prop, r['src'], r['fn'], ob['kind'], ob['id'], ob['where'], ob.get('trace'), ob['reason'], ob['goal'], ob['inputs'], r['native']))
            f.write('\nall failing contracts: %s\n' % ', '.join([v[0]['fn'] for v in violations] + [v[0]['fn'] + ' (no input)' for v in nff]))
    tot = sum(o['n'] for r in results for o in r['obls']); dis = sum(o['proved'] for r in results for o in r['obls'])
    inv = sum(r['stats'].get('inv_obls', 0) for r in results)
    hows = {}
    for r in results:
        for o in r['obls']:
            for k, v in o['how'].items(): hows[k] = hows.get(k, 0) + v
    wall = time.time() - t0
    bounded = ['%s: %s' % (r['fn'], '; '.join(sorted(set([u[0][:160] for u in r['unsupported']] + ['%s %s: %s' % (f['kind'], f['id'], f['result']) for f in r['failed']])))[:400] or 'no obligations or unreached cover %s' % r['reach']) for r in undecided]
    if not only:
        ev = dict(property=prop, tier=tier, seed=seed, level='proof' if P.get('level', 'proof') == 'proof' else P['level'],
          coverage=dict(obligations=tot + inv, discharged=dis + inv, contracts_checked=len(results), contracts_fully_proved=len(proved),
            invariant_obligations=inv, by_back_end=hows, solver_seconds=round(sum(r['stats'].get('solver_s', 0) for r in results), 2), solver_queries=sum(r['stats'].get('queries', 0) for r in results),
            paths=sum(r['stats'].get('paths', 0) for r in results), loops_with_invariants=sum(r['stats'].get('loops_inv', 0) for r in results),
            functions_under_contract=sorted(set(x for r in results for x in r['fns']))[:400],
            contracts=[dict(name=r['fn'], obligations=sum(o['n'] for o in r['obls']), discharged=sum(o['proved'] for o in r['obls']), seconds=round(r['t'], 2), reach=r['reach'], native=r['native'][:200]) for r in results],
            bounded_stand_ins=bounded + P.get('bounded', []),
            checker_cmd='python3-vt dv/check.py %s %s' % (prop, tier),
            trusted_base=['clang 18 front end and the listed LLVM passes', 'dv/engine.py (IR semantics, VC generation)', 'z3 5.x, cvc5 1.1.2'] + sorted(set(x for r in results for x in r['trusted']))),
          assumptions=P.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=len(violations) + len(nff))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if os.environ.get('VC_WRITE_BASELINE') and not only and tier == 'quick':
        os.makedirs(os.path.dirname(basefile), exist_ok=True)
        b = {}
        pv = set(r['fn'] for r in proved)
        for r in results:
            b[r['fn']] = {'#proved': r['fn'] in pv}
            for o in r['obls']: b[r['fn']]['%s|%s' % (o['kind'], o['id'])] = o['n'] == o['proved']
        json.dump(b, open(basefile, 'w'), indent=1, sort_keys=True)
    for r in sorted(results, key=lambda r: -r['t']):
        if verbose or r in undecided or r in [v[0] for v in violations] or r in [v[0] for v in nff]:
            print('  %-28s %6.1fs obl %d/%d paths %s ends %d native: %s' % (r['fn'], r['t'], sum(o['proved'] for o in r['obls']), sum(o['n'] for o in r['obls']), r['stats'].get('paths'), r['ends'], r['native'][:110]))
            if verbose or r in undecided:
                for u in r['unsupported'][:3]: print('      UNSUPPORTED', u[0][:300], '@', u[1][:140])
            if verbose:
                for f in r['failed'][:6]: print('      FAILED', f['kind'], f['id'], f['result'], f['where'][:120], f['inputs'], f['reason'][:100], '|', f['goal'][:200])
                if r['reach'] and any(v != 'yes' for v in r['reach'].values()): print('      REACH', r['reach'])
                if 'L' in verbose:
                    for l in r['loopinv']: print('      LOOP', l[0][:100], l[1], l[2])
    for b in bounded: print('BOUNDED property=%s %s' % (prop, b))
    print('property=%s tier=%s contracts=%d proved=%d bounded=%d obligations=%d+%d discharged=%d wall=%.1fs' % (prop, tier, len(results), len(proved), len(undecided), tot, inv, dis + inv, wall))
    if code:
        if violations: print('VIOLATION property=%s replay=%s' % (prop, rp))
        else: print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    for k in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    return code

def known(prop):
    f = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

COMMON_ASSUMPTIONS = [
 'the verified text is the LLVM IR clang-18 produces from the harness and the unmodified /repo sources it includes (passes: sroa, early-cse, simplifycfg, loop-simplify); nothing is rewritten by hand',
 '64-bit integer arithmetic (sizes, offsets) is treated as mathematical; 32-bit arithmetic is exact with overflow obligations',
 'double is treated as the reals (no rounding, NaN or infinity)',
 'operator new does not fail',
 'threads: single-threaded execution',
]
if __name__ == '__main__':
    sys.exit(main())
