"""Prove one contract (proof_* function). Output: JSON on the given path."""
import sys, os, json, time, resource, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3

def model_values(f, limit_s=25):
    """candidate concrete inputs for a failed obligation, small sizes first"""
    outs = []
    t0 = time.time()
    sizes = [n for k, nm, v, n in f['inputs'] if k == 'b' and type(n) is not int]
    small = [v for k, nm, v, n in f['inputs'] if k == 'u' and n == 64]
    for cap in (8, 40, 300, 5000, None):
        s = z3.Solver(); s.set('timeout', 12000)
        for c in f['pc']: s.add(c)
        s.add(f['neg'])
        if cap is not None:
            if not sizes and not small: continue
            for n in sizes: s.add(z3.ULE(n, cap))
        if s.check() == z3.sat:
            m = s.model()
            vals = []
            for k, nm, v, n in f['inputs']:
                if k == 'u':
                    vals.append(('u', nm, m.eval(v, model_completion=True).as_long()))
                else:
                    ln = n if type(n) is int else m.eval(n, model_completion=True).as_long()
                    bs = bytes(m.eval(z3.Select(v, z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(min(ln, 4096)))
                    vals.append(('b', nm, ln, bs.hex()))
            outs.append(vals)
            if len(outs) >= 2: break
        if time.time() - t0 > limit_s: break
    return outs

def main():
    job = json.load(open(sys.argv[1]))
    resource.setrlimit(resource.RLIMIT_AS, (job.get('mem_gb', 6) << 30, job.get('mem_gb', 6) << 30))
    import irparse, engine, loops
    loops.DBG = bool(os.environ.get('PLV_DEBUG'))
    t = time.time()
    out = dict(proof=job['proof'], status='error')
    e = None
    try:
        m = irparse.Module(job['ll'])
        e = engine.Engine([m], job['opts'])
        for pat, rep in job.get('replace', {}).items():
            hits = [n for n in list(m.func_txt) + list(m.decls) if n == pat]
            if not hits:
                raise engine.OutOfReach(f'contract target {pat} not found in the code')
            e.replace[pat] = rep
        r = e.run_proof(job['proof'], [m])
        out['paths'] = len(r)
        out['status'] = 'failed' if e.failures else 'proved'
        if out['status'] == 'proved' and (not r or not any(k[0].startswith('assert') for k in e.obs)): out['status'] = 'vacuous'
    except engine.OutOfReach as x:
        out['status'] = 'out-of-reach'; out['why'] = str(x)
    except engine.Timeout:
        out['status'] = 'timeout'; out['why'] = 'time limit'
    except MemoryError:
        out['status'] = 'timeout'; out['why'] = 'memory limit'
    except z3.Z3Exception as x:
        out['status'] = 'out-of-reach'; out['why'] = 'z3: ' + str(x)
    except Exception as x:
        out['status'] = 'out-of-reach'; out['why'] = 'internal: ' + repr(x) + traceback.format_exc()[-1500:]
    if e is not None:
        if e.failures and out['status'] != 'failed': out['partial_failures'] = True
        obs = list(e.obs.values())
        out.update(obligations=sum(o.n for o in obs), trivial=sum(o.trivial for o in obs), smt=sum(o.smt for o in obs),
                   failed=sum(len(o.fails) for o in obs), labels=sorted({o.label for o in obs}), qtime=e.stats['qtime'], queries=e.stats['queries'],
                   insts=e.stats['insts'], summaries=[list(x) for x in e.loops_done], backends=e.backends, bounded_hit=e.bounded_hit,
                   functions=sorted(engine.demangle(f) for f in e.functions if not f.startswith('proof_')), replaced=[engine.demangle(x) for x in e.used_replace],
                   assumptions=sorted(e.assumptions), pathends=e.pathends,
                   named={o.label + '@' + o.where[0][:100]: [o.n, len(o.fails)] for o in obs})
        fl = []
        for f in e.failures:
            d = dict(label=f['label'], where=f['where'], detail=f['detail'], status=f['status'], abstract=f['abstract'], stack=f['stack'][-6:])
            try: d['values'] = model_values(f) if len(fl) < 3 else []
            except Exception as x: d['values'] = []; d['modelerr'] = str(x)
            fl.append(d)
        out['failures'] = fl
    out['wall'] = time.time() - t
    json.dump(out, open(sys.argv[2], 'w'))

main()
