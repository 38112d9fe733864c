#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turn bug specifications into /verif/seeded/<id>/, confirming in a scratch
copy of /repo that each patch applies, builds, that demo.sh passes before and fails after.
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, what, demo)] and COMMON (C prelude)."""
import sys, os, json, subprocess, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
gcc -w -g -fsanitize=address,undefined -fno-sanitize-recover=all -I include -I _build/lib/include -I src "$d/demo.c" _build/lib/librcpr.a -lpthread -o "$t/demo" || exit 9
(cd "$t" && timeout 100 ./demo); rc=$?
rm -rf -- "$t"
exit $rc
'''
def sh(c, cwd=None):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = '/tmp/pl/repo'
def build():
    return sh('cmake -S %s -B %s/_build/lib -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_PROJECT_rcpr_INCLUDE=/opt/vp/rcpr-hook.cmake && ninja -C %s/_build/lib -j8 all' % (W, W, W))
if not os.path.exists(W):
    os.makedirs('/tmp/pl', exist_ok=True)
    sh('cp -a /repo %s && rm -rf %s/_build' % (W, W))
sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD', W)
for b in ns['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    d = os.path.join(V, b['id'])
    os.makedirs(d, exist_ok=True)
    sh('git checkout -qf .', W)
    rc, o = build()
    assert rc == 0, o[-500:]
    open(d + '/demo.c', 'w').write(ns['COMMON'] + b['demo'])
    open(d + '/demo.sh', 'w').write(b.get('sh', SH))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['what']), open(d + '/meta.json', 'w'), indent=1)
    rc0, o0 = sh('bash %s/demo.sh' % d, W)
    for f, old, new in b['edits']:
        t = open(W + '/' + f).read()
        assert t.count(old) >= 1, (b['id'], 'text not found', f)
        assert t.count(old) == 1, (b['id'], 'text not unique', f)
        open(W + '/' + f, 'w').write(t.replace(old, new))
    rc, diff = sh('git diff', W)
    open(d + '/patch.diff', 'w').write(diff)
    rc, o = build()
    if rc:
        print(b['id'], 'DOES NOT BUILD', o[-600:]); continue
    rc1, o1 = sh('bash %s/demo.sh' % d, W)
    ok = rc0 == 0 and rc1 not in (0, 9)
    print(b['id'], b['prop'], 'clean', rc0, 'patched', rc1, 'OK' if ok else 'BAD ' + (o0 if rc0 else o1)[-600:])
sh('git checkout -qf .', W)
