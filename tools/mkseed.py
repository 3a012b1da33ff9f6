"""mkseed(id, prop, [(file, old, new)...], needs, breaks, sources, demo): write seeded/<id> from text replacements against /repo HEAD (scratch copy /tmp/pw)."""
import subprocess, os, json
def sh(c, **k): return subprocess.run(c, shell=True, check=True, capture_output=True, text=True, **k).stdout
TMPL = '''#!/bin/bash
# exit 0: behaves; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
C=framework/core
g++ -std=gnu++23 -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr -DPLAIN_BUILD_AS_DLL -DPLAIN_CREATE_SHARED_LIBRARY=1 -DPLAIN_HAS_PTHREAD=1 -DPLAIN_CORE -I$C/include -I$C -I$C/src "$d/demo.cc" %s -o "$t/demo" -lpthread || exit 3
cd "$t"; ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
'''
def mkseed(id, prop, reps, needs, breaks, sources, demo):
    if sh('git -C /repo rev-parse HEAD') != (open('/tmp/pw_head').read() if os.path.exists('/tmp/pw_head') else ''):
        sh('mkdir -p /tmp/pw; cd /tmp/pw; test -d .git || git init -q; git checkout -q -- . || true; git -C /repo archive HEAD | tar x -C /tmp/pw; git add -A; git -c user.name=a -c user.email=a@b commit -qm x || true; git -C /repo rev-parse HEAD > /tmp/pw_head')
    for f, a, b in reps:
        p = '/tmp/pw/framework/core/' + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('cd /tmp/pw; git diff; git checkout -q -- .'))
    open(d + '/demo.cc', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(TMPL % ' '.join('$C/src/' + s for s in sources)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
