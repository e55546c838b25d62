#!/usr/bin/env python3
"""dev tool: mkbug.py ID spec.py -> seeded/ID (patch.diff, demo.cpp, demo.sh, meta.json)
spec.py defines FILE, OLD, NEW (or EDITS=[(file,old,new)]), PROP, NEEDS, BREAKS, DEMO (C++ source; main returns 0 when right)."""
import sys, os, subprocess, json, shutil
id, spec = sys.argv[1:3]
d = {}; exec(open(spec).read(), d)
W = '/tmp/bug/mk_' + id
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', W])
for f, o, n in d.get('EDITS') or [(d['FILE'], d['OLD'], d['NEW'])]:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
diff = subprocess.check_output(['git', '-C', W, 'diff']).decode()
out = '/verif/seeded/' + id; os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(diff)
open(out + '/demo.cpp', 'w').write(d['DEMO'].lstrip())
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)" || exit 99
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -w -O1 -fopenmp -I"$PWD" -I/usr/include/eigen3 "$here/demo.cpp" -o "$w/demo" || exit 98
cd "$w" && OMP_NUM_THREADS=2 timeout 250 ./demo
''')
os.chmod(out + '/demo.sh', 0o755)
json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
shutil.rmtree(W)
print(diff)
