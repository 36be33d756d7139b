#!/usr/bin/env python3
"""mut.py FILE: run checks against textual mutants of a copy of /repo.  FILE holds lines  PROP<TAB>path<TAB>old<TAB>new  ."""
import sys, subprocess, os, shutil, tempfile
for line in open(sys.argv[1]):
    line = line.rstrip('\n')
    if not line or line[0] == '#': continue
    prop, path, old, new = line.split('\t')[:4]
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.check_call(['cp', '-a', '/repo/src', d + '/src'])
        p = os.path.join(d, path); s = open(p).read()
        if old.startswith('@'):
            n, old = old[1:].split('@', 1); n = int(n)
        else: n = 1
        parts = s.split(old)
        if len(parts) <= n: print('NOTFOUND', line); continue
        s = old.join(parts[:n]) + new + old.join(parts[n:])
        open(p, 'w').write(s)
        r = subprocess.run(['timeout', '-s', 'KILL', '700', 'python3-vt', '/verif/dv/check.py', prop, 'quick'], capture_output=True, text=True, env=dict(os.environ, VC_REPO=d))
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print('%s rc=%s %s | %s: %s => %s' % ('CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR', r.returncode, 'replayed' if v and any('no-failing' not in x for x in v) else 'noinput' if v else '', path.split('/')[-1], old[:50], new[:50]), flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-300:], r.stderr[-300:])
    finally: shutil.rmtree(d)
