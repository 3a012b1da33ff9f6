import sys, time
sys.path.insert(0, '/verif/plv')
import build, irparse, engine, loops, z3
def main():
    contract, srcs, proofs = sys.argv[1], [x for x in sys.argv[2].split(',') if x], sys.argv[3:]
    loops.DBG = '-v' in proofs
    proofs = [p for p in proofs if p != '-v' and '=>' not in p]
    opts = {}
    for p in list(proofs):
        if p.startswith('--'):
            k, v = p[2:].split('='); opts[k] = int(v); proofs.remove(p)
    t = time.time()
    ll = build.ir(f"/tmp/plv_try.{__import__("os").getpid()}", f'/verif/contracts/{contract}', srcs)
    m = irparse.Module(ll)
    print('ir', round(time.time() - t, 1))
    if not proofs: proofs = [n for n in m.func_txt if n.startswith('proof_')]
    for p in proofs:
        e = engine.Engine([m], opts)
        t = time.time()
        try:
            for q in sys.argv:
                if '=>' in q: e.replace[q.split('=>')[0]] = q.split('=>')[1]
            r = e.run_proof(p, e.mods if not getattr(e, 'noctor', 0) else ())
            st = f'{len(r)} paths'
        except (engine.OutOfReach, engine.Timeout) as x:
            st = f'OUT OF REACH {type(x).__name__} {x}'
        print(p, st, 'fails', len(e.failures), 'obs', sum(o.n for o in e.obs.values()), 'smt', sum(o.smt for o in e.obs.values()), 'q', e.stats['queries'], f"{e.stats['qtime']:.1f}s", f'{time.time()-t:.1f}s', 'insts', e.stats['insts'], 'unk', e.stats['unknown'], e.loops_done, e.pathends)
        for f in e.failures:
            print('   FAIL', f['label'], f['where'], f['detail'][:300], f['status'], 'abstract', f['abstract'], f['stack'][-4:])
        for k, o in e.obs.items():
            if '-q' not in sys.argv and k[0].startswith('assert'): print('   ', k[0], o.n, o.trivial, o.smt, f'{o.time:.2f}s', 'FAIL' if o.fails else 'ok')
main()
