"""Driver: decides one property. usage: check.py PID"""
import sys, os, json, time, subprocess, tempfile, shutil, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from specs import PROPS, TRUSTED
VERIF = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('PLV_JOBS', str(max(2, os.cpu_count() or 4))))
T0 = time.time()
BUDGET = 780 if TIER == 'quick' else 3000
PY = '/opt/veriftools/pyvenv/bin/python3' if os.path.exists('/opt/veriftools/pyvenv/bin/python3') else 'python3-vt'

def left(): return BUDGET - (time.time() - T0)

def run_jobs(jobs, work):
    """jobs: list of dict; run workers in parallel. -> results in order"""
    res = [None] * len(jobs)
    pend = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('weight', 1))
    live = {}
    while pend or live:
        while pend and len(live) < NPROC:
            i = pend.pop(0)
            jf, of = f'{work}/job{i}.{os.getpid()}.{time.time_ns()}.json', f'{work}/out{i}.{time.time_ns()}.json'
            json.dump(jobs[i], open(jf, 'w'))
            p = subprocess.Popen([PY, HERE + '/worker.py', jf, of], stdout=subprocess.DEVNULL if not os.environ.get('PLV_DEBUG') else None, stderr=subprocess.PIPE, text=True, start_new_session=True)
            live[p.pid] = (p, i, of, time.time())
        time.sleep(0.05)
        for pid, (p, i, of, t) in list(live.items()):
            if p.poll() is None:
                if time.time() - t > jobs[i]['opts']['time_limit'] + 60:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except Exception: pass
                continue
            err = p.stderr.read()
            try: res[i] = json.load(open(of))
            except Exception: res[i] = dict(proof=jobs[i]['proof'], status='timeout', why='worker ended without result: ' + err[-300:], wall=time.time() - t)
            del live[pid]
    return res

class Native:
    def __init__(self, unit, work): self.unit = unit; self.work = work; self.exe = None; self.err = None
    def get(self):
        if self.exe is None and self.err is None:
            try: self.exe = build.native(self.work + '/nat', f'{VERIF}/contracts/{self.unit["contract"]}', self.unit['sources'], extra=self.unit.get('defs', []))
            except (build.BuildError, subprocess.TimeoutExpired) as x: self.err = str(x)
        return self.exe
    def run(self, args, timeout):
        exe = self.get()
        if exe is None: return None, 'native build failed: ' + (self.err or '')[-1500:]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096', UBSAN_OPTIONS='print_stacktrace=1')
        try:
            p = subprocess.run([exe] + args, capture_output=True, text=True, errors='replace', timeout=timeout, env=env, cwd=self.work)
            return p.returncode, (p.stdout + p.stderr)[-6000:]
        except subprocess.TimeoutExpired:
            return 'timeout', 'native run timed out'

def values_text(vals):
    return ''.join(f'u {v[1]} {v[2]}\n' if v[0] == 'u' else f'b {v[1]} {v[2]} {v[3]}\n' for v in vals)

def prog_failed(rc): return rc not in (0, None, 2, 'timeout')

def main():
    pid = sys.argv[1]
    prop = PROPS[pid]
    work = tempfile.mkdtemp(prefix=f'plv_{pid}_')
    try:
        code = decide(pid, prop, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def contract_labels(unit):
    s = open(f'{VERIF}/contracts/{unit["contract"]}').read()
    for inc in re.findall(r'#include "(\w+\.inc)"', s):
        s += open(f'{VERIF}/contracts/{inc}').read()
    return set(re.findall(r'plv_assert\((?:[^;]*?),\s*"([^"]+)"\s*\)\s*;', s, re.S))

def decide(pid, prop, work):
    results = []          # (unit, proof, result)
    violations = []       # (replay path, confirmed)
    notes = []
    bounded = []
    jobs = []; meta = []
    natives = {}
    for ui, unit in enumerate(prop['units']):
        uw = f'{work}/u{ui}'
        natives[ui] = Native(unit, uw)
        try:
            ll = build.ir(uw, f'{VERIF}/contracts/{unit["contract"]}', unit['sources'], unit.get('defs', []))
            ok = True
        except build.BuildError as x:
            ok = False; err = str(x)
        if not ok:
            fb = unit.get('fallback')
            notes.append(f'{unit["contract"]} no longer compiles against the code: {err[-600:]}')
            if fb:
                unit2 = dict(unit, **fb); natives[ui] = Native(unit2, uw)
                prop['units'][ui] = unit = unit2
                try:
                    ll = build.ir(uw, f'{VERIF}/contracts/{unit["contract"]}', unit['sources'], unit.get('defs', []))
                    ok = True
                except build.BuildError as x:
                    notes.append('fallback does not compile either: ' + str(x)[-600:])
            if not ok:
                # nothing of this unit can be decided: not an alarm by itself
                bounded.append((unit['contract'], 'not checked: the contract does not compile against the changed interface'))
                continue
        for pr in unit['proofs']:
            name, opts = (pr, {}) if isinstance(pr, str) else pr
            o = dict(unit.get('opts', {}), time_limit=min(unit.get('time_limit', 420), 420) if TIER == 'quick' else 1800)
            if TIER == 'thorough': o['obtimeout'] = 300000
            rep = dict(unit.get('replace', {})); rep.update(opts.get('replace', {}))
            o.update({k: v for k, v in opts.items() if k not in ('weight', 'replace', 'search')})
            jobs.append(dict(ll=ll, proof=name, opts=o, replace=rep, weight=opts.get('weight', 1)))
            meta.append((ui, unit, name, opts))
    rs = run_jobs(jobs, work)
    labels_seen = {}
    undecided_units = set()
    for (ui, unit, name, opts), job, r in zip(meta, jobs, rs):
        results.append((unit, name, r))
        labels_seen.setdefault(ui, set()).update(x[7:] for x in r.get('labels', []) if x.startswith('assert:'))
        if r['status'] == 'proved': continue
        undecided_units.add(ui)
        print(f'[plv] {name}: {r["status"]} {r.get("why", "")[:300]}')
        shown = set()
        for f in r.get('failures', []):
            if (f['label'], f['where'][1]) in shown: continue
            shown.add((f['label'], f['where'][1]))
            print(f'[plv]    obligation {f["label"]} in {f["where"][0][:120]}:{f["where"][1]} not discharged ({f["status"]}) {f["detail"][:200]}')
        v = investigate(pid, unit, natives[ui], name, opts, job, r, work, bounded, notes)
        if v: violations.append(v)
    # vacuity: every named obligation of a contract file must have been reached
    for unit in {u['contract']: u for u in prop['units']}.values():
        same = [ui for ui, u in enumerate(prop['units']) if u['contract'] == unit['contract']]
        if any(ui in undecided_units or ui not in labels_seen for ui in same): continue
        miss = contract_labels(unit).difference(*[labels_seen[ui] | set(prop['units'][ui].get('unreached', [])) for ui in same])
        if miss and not violations:
            rp = write_replay(pid, 'vacuity', f'obligations {sorted(miss)} of contracts/{unit["contract"]} are no longer reached on any path of the code', None, None)
            violations.append((rp, False, 'vacuity'))
    for line in known_lines(pid): print(line)
    wall = time.time() - T0
    write_evidence(pid, prop, results, violations, bounded, notes, wall)
    if violations:
        rp, conf, what = sorted(violations, key=lambda v: not v[1])[0]
        print(f'VIOLATION property={pid} replay={rp}' + ('' if conf else ' no-failing-input-found'))
        return 1
    tot = sum(r.get('obligations', 0) for _, _, r in results); dis = sum(r.get('trivial', 0) + r.get('smt', 0) for _, _, r in results)
    print(f'OK property={pid} proofs={len(results)} obligations={tot} discharged={dis}' + (f' bounded-stand-ins={len(bounded)}' if bounded else '') + f' wall={wall:.1f}s')
    return 0

def investigate(pid, unit, nat, name, opts, job, r, work, bounded, notes):
    """an obligation of this contract was not discharged: find a concrete failing input, or decide what the failure means"""
    def confirm(vals, what):
        vf = f'{work}/vals.txt'
        open(vf, 'w').write(values_text(vals) if not isinstance(vals, str) else vals)
        rc, out = nat.run([name, '--values', vf], 60)
        if prog_failed(rc):
            return write_replay(pid, name, what, open(vf).read(), out, unit), True, what
        return None
    can_native = opts.get('search', unit.get('search', True))
    desc = '; '.join(dict.fromkeys(f'{f["label"]} in {f["where"][0][:150]} line {f["where"][1]} {f["detail"]}' for f in r.get('failures', []))) or r.get('why', '')
    if can_native:
        for f in r.get('failures', []):
            for vals in f.get('values', []):
                v = confirm(vals, desc)
                if v: return v
    # bounded symbolic run: exact paths only
    br = None
    exact_fail = [f for f in r.get('failures', []) if f['status'] == 'sat' and f['abstract'] <= 1 and not job.get('replace')]
    if r['status'] != 'vacuous' and left() > 120 and not (exact_fail and not can_native):
        for B in (4, 9) if TIER == 'quick' else (4, 9, 20):
            bj = dict(job, replace={}); bj['opts'] = dict(job['opts'], bounded=B, time_limit=min(150, max(40, left() - 100)))
            br2 = run_jobs([bj], work)[0]
            if br2['status'] in ('proved', 'failed', 'vacuous') or br is None: br = br2; brB = B
            if can_native:
                for f in br2.get('failures', []):
                    for vals in f.get('values', []):
                        v = confirm(vals, desc)
                        if v: return v
            if br2['status'] != 'proved': break
            if left() < 200: break
    # native search
    searched = None
    if can_native:
        dump = f'{work}/dump.txt'
        procs = []
        secs = 40 if TIER == 'quick' else 240
        secs = max(10, min(secs, left() - 40))
        if nat.get():
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(NPROC) as ex:
                futs = [ex.submit(nat.run, [name, '--seed', str(SEED * 1000 + i), '--iters', '100000000', '--time', str(secs), '--dump', f'{dump}{i}'], secs + 40) for i in range(NPROC)]
                outs = [f.result() for f in futs]
            for i, (rc, out) in enumerate(outs):
                if prog_failed(rc) and os.path.exists(f'{dump}{i}'):
                    rc2, out2 = nat.run([name, '--values', f'{dump}{i}'], 60)
                    return write_replay(pid, name, desc, open(f'{dump}{i}').read(), out, unit), True, desc
            searched = sum(int(m.group(1)) for rc, out in outs for m in [re.search(r'total=(\d+)', out)] if m)
        else: notes.append(nat.err[-500:] if nat.err else '')
    exact_b = [f for f in (br or {}).get('failures', []) if f['status'] == 'sat' and f['abstract'] == 0]
    if exact_fail or exact_b or r['status'] == 'vacuous':
        f = (exact_fail or exact_b or [None])[0]
        return write_replay(pid, name, desc or 'contract became vacuous: no path reaches its postcondition', None, json.dumps(r.get('failures', [])[:3], default=str), unit), False, desc
    # only the abstraction failed: the bounded check stands in
    bounded.append((name, f'proof not completed ({r["status"]}: {(r.get("why") or desc)[:200]}); bounded stand-in: all paths with at most {brB if br and br["status"]=="proved" else 0} iterations per loop '
                    f'({"all obligations discharged" if br and br["status"] == "proved" else "symbolic run " + (br["status"] if br else "skipped")}), plus {searched} native executions of the contract without failure'))
    return None

def write_replay(pid, name, what, values, output, unit=None):
    d = f'{VERIF}/evidence/replay'
    os.makedirs(d, exist_ok=True)
    p = f'{d}/{pid}_{name}.txt'
    with open(p, 'w') as f:
        f.write(f'property {pid}\nfailed obligation: {what}\n')
        if unit: f.write(f'contract: contracts/{unit["contract"]} function {name}, over {", ".join(unit["sources"]) or "headers"}\n')
        if values is not None:
            f.write(f'reproduce: /verif/replay.sh {pid} {name} {p}\n=== values\n{values}=== end\n')
        else:
            f.write('no failing input found; verifier output follows\n')
        if output: f.write('=== output\n' + output + '\n')
    return p

def known_lines(pid):
    out = []
    try:
        for l in open(f'{VERIF}/known_findings.txt'):
            if l.startswith('known: property=' + pid + ' '): out.append('KNOWN-FINDING: ' + l[len('known: '):].strip())
    except OSError: pass
    return out

def write_evidence(pid, prop, results, violations, bounded, notes, wall):
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    fns = {}
    proofs = []
    backends = {}
    for unit, name, r in results:
        for f in r.get('functions', []):
            if f.startswith('plain') or 'plain::' in f.split('(')[0]: fns[f] = fns.get(f, 0) + 1
        for k, v in r.get('backends', {}).items(): backends[k] = backends.get(k, 0) + v
        proofs.append(dict(proof=name, contract=unit['contract'], status=r['status'], obligations=r.get('obligations', 0), trivially_true_after_simplification=r.get('trivial', 0),
                           by_smt=r.get('smt', 0), failed=r.get('failed', 0), paths=r.get('paths', 0), solver_s=round(r.get('qtime', 0), 2), wall_s=round(r.get('wall', 0), 2),
                           loops_summarised=r.get('summaries', []), callee_contracts_used=r.get('replaced', []), named_obligations=r.get('named', {})))
    tot = sum(p['obligations'] for p in proofs); dis = sum(p['trivially_true_after_simplification'] + p['by_smt'] for p in proofs)
    assum = sorted(set(TRUSTED) | set(prop.get('assumptions', [])) | {a for _, _, r in results for a in r.get('assumptions', [])})
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=prop.get('level', 'proof'),
              coverage=dict(obligations=tot, discharged=dis, checker_cmd=f'plv/check.py {pid} (plv: obligations generated from the LLVM IR of /repo on this run, discharged by z3 {__import__("z3").get_version_string()} with a z3/cvc5 portfolio for hard queries)',
                            trusted_base=TRUSTED, functions_under_contract=sorted(fns), proofs=proofs, bounded_stand_ins=[list(b) for b in bounded], portfolio_backends=backends,
                            solver_s=round(sum(p['solver_s'] for p in proofs), 1), notes=notes),
              assumptions=assum, wall_s=round(wall, 1), violations=len(violations))
    if 'explanation' in prop: ev['coverage']['explanation'] = prop['explanation']
    json.dump(ev, open(f'{VERIF}/evidence/{pid}.json', 'w'), indent=1)

if __name__ == '__main__':
    main()
