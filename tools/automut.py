#!/usr/bin/env python3
"""automut.py PROP FILE MAX [WORKERS]: operator mutants of one source file against the run-time side of a property's contracts (no proofs).
Prints the survivors; each survivor is then judged by hand or with mut.py (which runs the whole check)."""
import sys, os, re, random, subprocess, shutil, tempfile, hashlib
import concurrent.futures as cf
sys.path.insert(0, '/verif/dv')
prop, path, mx = sys.argv[1], sys.argv[2], int(sys.argv[3]); workers = int(sys.argv[4]) if len(sys.argv) > 4 else 6
src = open('/repo/' + path).read()
# strip comments (keep positions)
def blank(m): return re.sub(r'[^\n]', ' ', m.group(0))
code = re.sub(r'/\*.*?\*/|//[^\n]*', blank, src, flags=re.S)
code = re.sub(r'"(?:\\.|[^"\\])*"', blank, code)
code = re.sub(r'^[ \t]*(#|SCHNEK_TRACE).*$', blank, code, flags=re.M)
code = re.sub(r'template\s*<[^;{()]*?>\s*(?=\n|class|struct|SCHNEK|inline|bool|void|std|typename|static)', blank, code, flags=re.S)
OPS = [(r'(?<![<>=!+\-*/&|])<=(?!=)', '<'), (r'(?<![<>=\-])>=(?!=)', '>'), (r'(?<=[\w\)\]]) < (?=[\w\(\-])', '<='), (r'(?<=[\w\)\]])<(?=[\w]+[;\)])', '<='), (r'(?<=[\w\)\]]) > (?=[\w\(\-])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<=[\w\)\]]) ?\+ ?(?=[\w\(])', '-'), (r'(?<=[\w\)\]]) ?- ?(?=[\w\(])', '+'), (r'\+=', '-='), (r'-=', '+='), (r'\*=', '/='), (r'(?<=[\w\)\]])\*(?=[\w\(])', '+'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])2(?![\w.])', '3'), (r'!(?=[\w\(])', ''), (r'\+\+(?=\w)', ''), (r'(?<=\w)\+\+', ''),
       (r'\bpush_back\b', 'push_front'), (r'\bpush_front\b', 'push_back'), (r'\bMin\b', 'Max'), (r'\bMax\b', 'Min'), (r'\bgetLo\b', 'getHi'), (r'\bgetHi\b', 'getLo'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'(?<=\n)[ \t]+[\w>\-.\[\]()*:&, ]+(?:=[^;{}=]+|\([^;{}]*\));(?=[ \t]*\n)', ';'), (r'\breturn [^;]+;(?=\s*\n\s*\n?\s*(?!\}))', ';'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'\bif \([^{};]*?\)(?=\s*(\{|\w))', 'if (true)'), (r'\bif \([^{};]*?\)(?=\s*(\{|\w))', 'if (false)'), (r'\bif\([^{};]*?\)(?=\s*(\{|\w))', 'if (false)')]
muts = []
for rx, new in OPS:
    for m in re.finditer(rx, code):
        line = src.count('\n', 0, m.start()) + 1
        ln = src.split('\n')[line-1]
        if re.match(r'\s*(typedef|template|using|namespace|class|struct|#)', ln): continue
        muts.append((m.start(), m.end(), new))
random.seed(1); random.shuffle(muts); muts = sorted(muts[:mx])
DRV = r'''
import sys; sys.path.insert(0,'/verif/dv'); sys.argv=['x']
import check, os, subprocess
from props import PROPS
prop, scratch = os.environ['AM_PROP'], os.environ['AM_SCRATCH']
for tu in PROPS[prop]['tus']:
    out = scratch + '/' + tu['src'] + '.exe'
    r = subprocess.run([check.GXX] + check.flags(tu, scratch) + ['-O0', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,alignment,vptr', '-fno-sanitize-recover=all', '-rdynamic', '/verif/harness/' + tu['src'], '/verif/harness/native.cpp', '-o', out, '-ldl'], capture_output=True, text=True)
    if r.returncode: print('NOCOMPILE'); sys.exit(0)
    import re
    for fn in sorted(set(re.findall(r' T (h_\w+)', subprocess.run(['nm', out], capture_output=True, text=True).stdout))):
        s = check.native_search((out, fn, 1, 1, 3000, scratch))
        if s['status'] != 'pass': print('KILLED', fn); sys.exit(0)
print('SURVIVED')
'''
def one(m):
    d = tempfile.mkdtemp(prefix='am.', dir='/tmp/am')
    try:
        shutil.copytree('/repo/src', d + '/src')
        a, b, new = m
        open(d + '/' + path, 'w').write(src[:a] + new + src[b:])
        os.makedirs(d + '/sc')
        r = subprocess.run(['nice', '-n', '19', 'timeout', '-s', 'KILL', '400', 'python3-vt', '-c', DRV], capture_output=True, text=True, env=dict(os.environ, VC_REPO=d, AM_PROP=prop, AM_SCRATCH=d + '/sc'))
        return m, (r.stdout.strip().split('\n') or ['?'])[-1] if r.returncode == 0 else 'KILLED timeout'
    finally: shutil.rmtree(d, ignore_errors=True)
n = {}
with cf.ThreadPoolExecutor(workers) as ex:
    for m, res in ex.map(one, muts):
        k = res.split()[0] if res else 'ERR'; n[k] = n.get(k, 0) + 1
        if k not in ('KILLED', 'NOCOMPILE'):
            line = src.count('\n', 0, m[0]) + 1
            print('%s %s:%d  %r -> %r   | %s' % (k, path, line, src[m[0]:m[1]].strip()[:80], m[2], src.split('\n')[line-1].strip()[:110]), flush=True)
print('# %s %s: %s' % (prop, path, n), flush=True)
