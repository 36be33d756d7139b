#!/usr/bin/env python3
"""mkbug.py: helper that writes seeded/<id>/ from (id, property, [(file, old, new)], needs, breaks, demo source)."""
import subprocess, os, json
DEMO = '''#!/bin/bash
# builds demo.cpp against the sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++17 -w -O1 -g %s-I"$R/src" -I"$R/_build/src" -I"$R/_build/src/grid" -I"$R/_build/src/grid/iteration" %s"$here/demo.cpp" -o "$T/demo" %s || exit 99
cd "$T" && timeout 120 ./demo
'''
def bug(id, prop, edits, needs, breaks, demo, san=True, pre='', libs='', demosh=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = '/repo/' + f; s = open(p).read()
        assert s.count(old) >= 1, (id, f, 'old text not found')
        assert s.count(old) == 1, (id, f, 'old text not unique', s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/meta.json', 'w').write(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + '\n')
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(demosh or DEMO % ('-fsanitize=address,undefined -fno-sanitize-recover=all ' if san else '', pre, libs))
    os.chmod(d + '/demo.sh', 0o755)
