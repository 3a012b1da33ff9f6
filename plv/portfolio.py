"""Discharge one query with several solver processes in parallel; first definite answer wins."""
import subprocess, os, time, tempfile, z3, signal, selectors
CMDS = [
    ('z3-new', ['z3-new', '-smt2']),
    ('cvc5', ['cvc5', '--lang=smt2', '--bv-solver=bitblast']),
    ('z3-4.8', ['/usr/bin/z3', '-smt2']),
    ('z3-new-qfaufbv', ['z3-new', '-smt2', 'tactic.default_tactic=(then simplify propagate-values solve-eqs elim-uncnstr bv_size_reduction max-bv-sharing ackermannize_bv bit-blast sat)']),
    ('z3-new-s2', ['z3-new', '-smt2', 'smt.random_seed=7', 'sat.random_seed=7', 'smt.relevancy=0']),
]
LOG = os.environ.get('PLV_DUMP')
_n = [0]
def solve(s, timeout):
    txt = s.to_smt2()
    # array-valued lambda etc. never occur; declare a logic cvc5 understands
    txt2 = '(set-logic ALL)\n' + txt.replace('(set-info :status unknown)\n', '')
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='plv_')
    os.write(fd, txt2.encode()); os.close(fd)
    if LOG:
        _n[0] += 1
        open(f'{LOG}/q{os.getpid()}_{_n[0]}.smt2', 'w').write(txt2)
    procs = []
    sel = selectors.DefaultSelector()
    try:
        for nm, cmd in CMDS[:4]:
            try:
                p = subprocess.Popen(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
            except OSError:
                continue
            procs.append((nm, p)); sel.register(p.stdout, selectors.EVENT_READ, (nm, p))
        end = time.time() + timeout
        live = len(procs)
        while live and time.time() < end:
            for key, _ in sel.select(timeout=max(0.01, end - time.time())):
                nm, p = key.data
                sel.unregister(p.stdout)
                out = p.stdout.read()
                live -= 1
                first = out.strip().split('\n')[0].strip() if out.strip() else ''
                if first in ('sat', 'unsat'): return first, nm
        return 'unknown', 'none'
    finally:
        for nm, p in procs:
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
            try: p.wait(5)
            except Exception: pass
            p.stdout.close()
        sel.close()
        os.unlink(path)
