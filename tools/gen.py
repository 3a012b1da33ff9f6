"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/plv')
from specs import PROPS
C = 'framework/core/'
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[C + f for f in files], mechanism=[dict(name=n, where=C + w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=C + w) for n, m, w in state], observe_at=list(observe), hook_needed=None))
L = []
exec(open(V + '/tools/properties_text.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for p in L:
        if p['id'] in PROPS or p['id'] in NA: f.write(json.dumps(p) + '\n')
checks = []
for p in L:
    pid = p['id']
    if pid not in PROPS: continue
    sp = PROPS[pid]
    bounded = sp.get('bounded')
    checks.append(dict(property=pid, quick_cmd=f'./check.sh {pid} quick', thorough_cmd=f'./check.sh {pid} thorough',
        technique='contract-based deductive verification: contracts on the real C++ (via its LLVM IR), inductive loop summaries, SMT (z3/cvc5)',
        level=sp.get('level', 'proof'),
        level_note=sp.get('note', 'Every obligation generated from the current source is discharged for all inputs; no bound on sizes or iterations.') + ' Trusts clang\'s translation, the plv verifier, the SMT solvers and the library contracts listed in the evidence.',
        theorems=[f'{u["contract"]}:{q if isinstance(q, str) else q[0]}' for u in sp['units'] for q in u['proofs']]))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in L if p['id'] not in PROPS and p['id'] in NA],
         hooks=dict(guard='none', enable='no hooks: /repo carries only fix: commits'), notes='see DESIGN.md')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
