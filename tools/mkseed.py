#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, prop, edits=[(file, old, new)], demo (C++ main body file text), needs, breaks.
Builds the patch in the scratch clone /tmp/sr, runs the demo with and without it and, with --check, the check of the property."""
import sys, os, subprocess, json
sp = {}; exec(open(sys.argv[1]).read(), sp)
R = '/tmp/sr'; H = 'libs/cmdr11/include/cmdr11/'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh('git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD' % (R, R))
d = '/verif/seeded/' + sp['id']; os.makedirs(d, exist_ok=True)
open(d + '/demo.cc', 'w').write(sp['demo'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository, after its build. exit 0: behaves as promised.
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O0 %s-DENABLE_ASSERTS=1 -Ilibs/cmdr11/include -I_build/generated "$here/demo.cc" -o "$t/demo" -lpthread || exit 1
cd "$t" && timeout 60 ./demo
''' % sp.get('cxxflags', ''))
def demo(): r = sh('bash %s/demo.sh' % d, cwd=R); return r.returncode, (r.stdout + r.stderr)[-400:]
a = demo()
for f, o, n in sp['edits']:
    p = R + '/' + (f if '/' in f else H + f); s = open(p).read()
    assert s.count(o) == 1, ('not unique', s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
json.dump(dict(property=sp['prop'], needs=sp['needs'], what_it_breaks=sp['breaks']), open(d + '/meta.json', 'w'), indent=1)
b = demo()
print(sp['id'], 'unchanged:', a, 'patched:', b, 'OK' if a[0] == 0 and b[0] != 0 else 'BAD DEMO')
if '--check' in sys.argv:
    r = sh('python3-vt /verif/dv/check.py %s' % sp['prop'], env=dict(os.environ, DV_REPO=R)); print(r.returncode, r.stdout[-1500:], r.stderr[-300:])
