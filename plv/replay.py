import sys, os, re, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from specs import PROPS
pid, proof, path = sys.argv[1:4]
txt = open(path).read()
m = re.search(r'=== values\n(.*?)=== end\n', txt, re.S)
if not m: sys.exit('no recorded inputs in ' + path)
w = tempfile.mkdtemp(prefix='plv_replay_')
try:
    open(w + '/v', 'w').write(m.group(1))
    for u in PROPS[pid]['units']:
        if any((p if isinstance(p, str) else p[0]) == proof for p in u['proofs']):
            exe = build.native(w, f'{build.VERIF}/contracts/{u["contract"]}', u['sources'], extra=u.get('defs', []))
            rc = subprocess.run([exe, proof, '--values', w + '/v'], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).returncode
            print('reproduced' if rc else 'not reproduced')
            break
finally: shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if rc else 0)
