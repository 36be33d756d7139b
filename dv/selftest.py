#!/usr/bin/env python3-vt
"""setup_cmd: checks that the tools the verifier needs are there and that the engine tells a true contract from a false one."""
import os, sys, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import z3, check, llparse, engine, terms, templates
SRC = r'''
#include "vc.h"
static int clampi(int x, int lo, int hi) { return x < lo ? lo : x > hi ? hi : x; }
static double *cell(double *p, int i) { return p + i; }
extern "C" void h_good() { int x = vc_int("x", -1000, 1000); int y = clampi(x, -5, 7); vc_assert(y >= -5 && y <= 7, "range"); vc_reach("r"); }
extern "C" void h_bad() { int x = vc_int("x", -1000, 1000); int y = clampi(x, -5, 7); vc_assert(y != 7, "not seven"); vc_reach("r"); }
extern "C" void h_oob() { int n = vc_int("n", 1, 1000); double *p = new double[n]; *cell(p, vc_int("i", 0, n)) = 1.0; delete[] p; vc_assert(true, "t"); vc_reach("r"); }
extern "C" void h_loop() { int n = vc_int("n", 0, 1000); int s = 0; for (int i = 0; i < n; ++i) ++s; vc_assert(s == n, "count"); vc_reach("r"); }
extern "C" void h_loopbad() { int n = vc_int("n", 0, 1000); int s = 0; for (int i = 0; i <= n; ++i) ++s; vc_assert(s == n, "count"); vc_reach("r"); }
'''
def main():
    for t in (check.CLANG, check.OPT, check.GXX):
        if not os.path.exists(t): print('missing', t); return 1
    d = tempfile.mkdtemp(prefix='vc_self_')
    try:
        open(d + '/t.cpp', 'w').write(SRC)
        inc = ['-I' + os.path.join(check.VERIF, 'harness')]
        subprocess.run([check.CLANG, '-std=c++17', '-w', '-DVC_SYM', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', d + '/t.cpp', '-o', d + '/t.raw.ll'] + inc, check=True)
        subprocess.run([check.OPT, '-S', check.PASSES, d + '/t.raw.ll', '-o', d + '/t.ll'], check=True)
        m = llparse.Module(open(d + '/t.ll').read())
        for fn, want in (('h_good', True), ('h_bad', False), ('h_oob', False), ('h_loop', True), ('h_loopbad', False)):
            terms.reset()
            E = engine.Engine(m, dict(templates=[]))
            E.run(fn)
            got = not E.failed and not E.unsupported and bool(E.obls) and all(v == 'yes' for v in E.reach.values())
            print(fn, 'proved' if got else 'not proved')
            if got != want: print('self-test failed on', fn); return 1
    finally: shutil.rmtree(d, ignore_errors=True)
    print('self-test ok')
    return 0
if __name__ == '__main__': sys.exit(main())
