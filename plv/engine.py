"""Deductive symbolic executor over LLVM IR: generates and discharges proof obligations."""
import z3, time, os, sys, re, subprocess
from irparse import *
from irparse import Inst
from terms import *
import mem
from mem import *

sys.setrecursionlimit(20000)
z3.set_param('smt.random_seed', 1)

ANDMAP = {}     # term id -> (x, y, term) for x & y

class PC:
    __slots__ = ('parent', 'cond', 'depth', 'uid')
    _n = [0]
    def __init__(s, parent, cond):
        s.parent = parent; s.cond = cond
        s.depth = parent.depth + 1 if parent else 0
        PC._n[0] += 1; s.uid = PC._n[0]
    def list(s):
        r = []
        x = s
        while x is not None and x.cond is not None:
            r.append(x.cond); x = x.parent
        r.reverse()
        return r
    def since(s, anc):
        r = []
        x = s
        while x is not anc:
            r.append(x.cond); x = x.parent
        r.reverse()
        return r

class Fork(Exception):
    def __init__(s, cond): s.cond = cond

class PathEnd(Exception):
    def __init__(s, why): s.why = why

class OutOfReach(Exception):
    """the function (or loop) is outside what the verifier can summarise"""

class Timeout(Exception): pass

class Frame:
    __slots__ = ('f', 'block', 'prev', 'idx', 'regs', 'call', 'allocas', 'tag')
    def __init__(s, f):
        s.f = f; s.block = f.entry if f else None; s.prev = None; s.idx = 0; s.regs = {}; s.call = None; s.allocas = (); s.tag = None
    def copy(s):
        r = Frame.__new__(Frame)
        r.f = s.f; r.block = s.block; r.prev = s.prev; r.idx = s.idx; r.regs = dict(s.regs); r.call = s.call; r.allocas = s.allocas; r.tag = s.tag
        return r

class State:
    __slots__ = ('frames', 'objs', 'pc', 'known', 'inputs', 'wlog', 'foralls', 'witness', 'pending', 'exc', 'caught', 'hooks', 'ghost', 'loopdepth', 'trace', 'abstract', 'skiphook', 'gl')
    def copy(s):
        r = State.__new__(State)
        r.frames = s.frames[:-1] + [s.frames[-1].copy()] if s.frames else []
        r.objs = dict(s.objs); r.pc = s.pc; r.known = s.known; r.inputs = s.inputs; r.wlog = s.wlog
        r.foralls = s.foralls; r.witness = s.witness; r.pending = s.pending; r.exc = s.exc; r.caught = s.caught
        r.hooks = s.hooks; r.ghost = s.ghost; r.loopdepth = s.loopdepth; r.trace = s.trace; r.abstract = s.abstract; r.skiphook = s.skiphook
        r.gl = s.gl
        return r
    @property
    def fr(s): return s.frames[-1]

class Ob:
    """obligation record"""
    __slots__ = ('label', 'where', 'n', 'trivial', 'smt', 'time', 'fails')
    def __init__(s, label, where): s.label = label; s.where = where; s.n = 0; s.trivial = 0; s.smt = 0; s.time = 0.0; s.fails = []

class Ctx:
    __slots__ = ('e', 'st')
    def __init__(s, e, st): s.e = e; s.st = st
    def decide(s, c): return s.e.decide(s.st, c, timeout=s.e.opts['dtimeout'])
    def ptr_int(s, p): return s.e.ptr_int(s.st, p)

class Engine:
    def __init__(self, modules, opts=None):
        self.mods = modules
        self.loopstack = []
        self.opts = dict(unroll_sym=20, unroll_fork=4, unroll_conc=4096, conc_sum=300, bounded=0, qtimeout=20000, dtimeout=2000, obquick=3000, obtimeout=60000, max_states=4000, summary=True, peel=2, time_limit=800)
        if opts: self.opts.update(opts)
        self.fmod = {}
        self.gmod = {}
        for m in modules:
            for n in m.func_txt: self.fmod.setdefault(n, m)
        for m in modules:
            for n, t in m.globals_txt.items():
                if ' external ' in ' ' + t[:60] or t.startswith('external'):
                    continue
                self.gmod.setdefault(n, m)
        for m in modules:
            for n in m.globals_txt: self.gmod.setdefault(n, m)
        self.solver = z3.Solver()
        self.sstack = []
        self.mdls = []
        self.qcache = {}
        self.obs = {}
        self.muted = 0
        self.purelvl = 0
        self.t0 = time.time()
        self.stats = dict(queries=0, qtime=0.0, insts=0, paths=0, unknown=0, summaries=0, unrolled=0)
        self.replace = {}     # mangled -> replacement mangled
        self.used_replace = {}
        self.models = {}
        self.addr = {}
        self.oid = 0
        self.typeids = {}
        self.failures = []
        self.bounded_hit = False
        self.functions = set()
        self.assumptions = set()
        self.summ_fail = {}
        self.summ_ok = set()
        self.loops_done = []
        self.keep = []
        self.loopmode = 0
        self.backends = {}
        self.pathends = {}
        self.cmplog = None
        self.andlog = None
        self.summ_bad = {}
        self.vec_sz = {}
        self.reached = set()
        self.ext_cells = {}
        self.vec_cache = {}
        import models
        models.install(self)

    # ------------------------------------------------------------ solver
    def _align(self, pc):
        chain = []
        x = pc
        while x is not None and x.cond is not None:
            chain.append(x); x = x.parent
        chain.reverse()
        k = 0
        st = self.sstack
        while k < len(st) and k < len(chain) and st[k] is chain[k]: k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k); del st[k:]
        for x in chain[k:]:
            self.solver.push(); self.solver.add(x.cond); st.append(x)

    def check(self, pc, extra, timeout=None):
        """sat check of pc /\\ extra -> 'sat','unsat','unknown'"""
        if time.time() - self.t0 > self.opts['time_limit']: raise Timeout()
        key = (pc.uid, extra.get_id() if extra is not None else 0)
        r = self.qcache.get(key)
        if r is not None: return r[0]
        t = time.time()
        for md in self.mdls:
            if self._holds(md, pc) and (extra is None or z3.is_true(md[0].eval(extra, model_completion=True))):
                self.stats['modelhits'] = self.stats.get('modelhits', 0) + 1
                self.qcache[key] = ('sat', extra)
                return 'sat'
        self._align(pc)
        self.solver.set('timeout', timeout or self.opts['qtimeout'])
        rr = self.solver.check(extra) if extra is not None else self.solver.check()
        r = str(rr)
        if r == 'sat':
            self.mdls.insert(0, (self.solver.model(), {}))
            del self.mdls[5:]
        self.stats['queries'] += 1
        dt = time.time() - t
        self.stats['qtime'] += dt
        if dt > 2 and os.environ.get('PLV_SLOW'): print('SLOW', r, round(dt, 1), str(extra)[:700], self.muted, self.loopmode, ''.join(__import__('traceback').format_stack(limit=5)[:-1]), flush=True)
        if r == 'unknown': self.stats['unknown'] += 1
        self.qcache[key] = (r, extra)
        return r

    def _holds(self, md, pc):
        """does the cached model satisfy every condition of pc?"""
        m, memo = md
        todo = []
        x = pc
        r = True
        while x is not None and x.cond is not None:
            k = memo.get(x.uid)
            if k is not None: r = k; break
            todo.append(x); x = x.parent
        for y in reversed(todo):
            if r: r = z3.is_true(m.eval(y.cond, model_completion=True))
            memo[y.uid] = r
        return r

    def decide(self, st, c, solver=True, timeout=None):
        """1 if pc |= c, 0 if pc |= not c, None otherwise"""
        if type(c) is int: return c
        k = st.known.get(c.get_id())
        if k is not None: return k[0]
        if not solver: return None
        # not-form
        r = self.check(st.pc, c, timeout)
        if r == 'unsat': return 0
        if r == 'unknown' and timeout: return None
        if self.check(st.pc, z3.Not(c), timeout) == 'unsat':
            return 1
        return None

    def assume(self, st, c):
        if type(c) is int:
            if not c: raise PathEnd('infeasible')
            return
        c = simpb(c)
        if type(c) is int:
            if not c: raise PathEnd('infeasible')
            return
        self._know(st, c, 1)
        st.pc = PC(st.pc, c)

    def _know(self, st, c, v):
        st.known = dict(st.known)
        st.known[c.get_id()] = (v, c)
        n = simpb(z3.Not(c))
        if type(n) is not int: st.known[n.get_id()] = (1 - v, n)
        if v == 1 and z3.is_and(c):
            for x in c.children(): st.known[x.get_id()] = (1, x)
        if v == 1 and z3.is_not(c) and z3.is_or(c.children()[0]):
            for x in c.children()[0].children(): st.known[x.get_id()] = (0, x)

    # ------------------------------------------------------------ obligations
    def where(self, st):
        fr = st.fr
        for f in reversed(st.frames):
            if f.f is not None:
                nm = f.f.name
                break
        ins = fr.f.blocks[fr.block][min(fr.idx, len(fr.f.blocks[fr.block]) - 1)]
        ln = fr.f.mod.line_of(ins.dbg)
        return (demangle(nm), ln)

    def oblige(self, st, c, label, detail=''):
        """obligation: pc |= c. Records, and afterwards assumes c."""
        if self.purelvl:
            if (c if type(c) is int else self.decide(st, c)) != 1: raise OutOfReach('loop invariant is not defined everywhere: ' + label + ' ' + detail)
            return
        if self.muted:
            try: self.assume(st, c)
            except PathEnd: raise PathEnd('muted-violation')
            return
        wh = self.where(st)
        key = (label, wh[0]) if not label.startswith('assert') else (label, '')
        ob = self.obs.get(key)
        if ob is None: ob = self.obs[key] = Ob(label, wh)
        ob.n += 1
        if type(c) is int:
            if c:
                ob.trivial += 1
                return
            self._fail(st, ob, z3.BoolVal(False), wh, detail)
            raise PathEnd('violated')
        k = st.known.get(c.get_id())
        if k is not None and k[0] == 1:
            ob.trivial += 1; return
        t = time.time()
        neg = z3.Not(c)
        r = self.check(st.pc, neg, self.opts['obquick'])
        if r != 'unsat':
            inst = self._instances(st)
            if r == 'unknown' or inst:
                r = self._hard(st, neg, inst)
        ob.time += time.time() - t
        if r == 'unsat':
            ob.smt += 1
            self.assume(st, c)
            return
        self._fail(st, ob, c, wh, detail, r)
        self.assume(st, c)

    def _instances(self, st):
        out = []
        if not st.foralls or not st.witness: return out
        for kt, ks, body in st.foralls:
            for w in st.witness:
                out.append(z3.Implies(z3.ULT(w, bv(kt, 64)), z3.substitute(body, (ks, w))))
        return out

    def _hard(self, st, neg, inst):
        import portfolio
        s = z3.Solver()
        for c in st.pc.list(): s.add(c)
        for c in inst: s.add(c)
        s.add(neg)
        t = time.time()
        r, who = portfolio.solve(s, self.opts['obtimeout'] / 1000.0)
        self.stats['queries'] += 1
        self.stats['qtime'] += time.time() - t
        self.backends[who] = self.backends.get(who, 0) + 1
        return r

    def _fail(self, st, ob, c, wh, detail, r='sat'):
        inst = self._instances(st)
        f = dict(label=ob.label, where=wh, detail=detail, status=r, abstract=st.abstract, pc=st.pc.list() + inst, neg=z3.Not(c) if not (type(c) is int) else z3.BoolVal(True), inputs=st.inputs,
                 stack=[demangle(f.f.name) for f in st.frames if f.f])
        ob.fails.append(f)
        self.failures.append(f)
        if len(self.failures) >= self.opts.get('max_failures', 6):
            raise StopProof()

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, kind, node, name=''):
        self.oid += 1
        o = Obj(self.oid, size, kind, node, name)
        st.objs[self.oid] = o
        return o

    def addr_of(self, st, oid):
        a = self.addr.get(oid)
        if a is None:
            a = z3.BitVec(f'addr!{oid}', 64)
            self.addr[oid] = a
        k = ('addr', oid)
        if k not in st.gl:
            st.gl = st.gl | {k}
            self.assume(st, z3.And(z3.ULT(a, z3.BitVecVal(1 << 46, 64)), z3.UGT(a, z3.BitVecVal(4096, 64)), z3.Extract(3, 0, a) == 0))
        return a

    def disjoint(self, st, i, j):
        """two live objects do not overlap and do not wrap around the address space"""
        oi, oj = st.objs.get(i), st.objs.get(j)
        if oi is None or oj is None or not oi.alive or not oj.alive or oi.fn or oj.fn: return
        k = ('disj', min(i, j), max(i, j))
        if k in st.gl: return
        st.gl = st.gl | {k}
        a, b = self.addr_of(st, i), self.addr_of(st, j)
        sa, sb = bv(oi.size, 64), bv(oj.size, 64)
        top = z3.BitVecVal(1 << 46, 64)
        self.assume(st, z3.And(z3.ULE(sa, top), z3.ULE(sb, top), z3.Or(z3.ULE(a + sa, b), z3.ULE(b + sb, a))))

    def pure(self, st, fn, arg):
        """value of the boolean contract function fn(arg) in st, as a formula; st is unchanged"""
        s = st.copy()
        s.wlog = None
        s.pending = None
        base = s.pc
        f = self.func(fn)
        d = len(s.frames) + 1
        self.push_call(s, f, [arg]); s.frames[-1].tag = 'pure'
        self.muted += 1; self.purelvl += 1
        try: rs = self.explore(s, ('depth', d, None, None))
        finally: self.muted -= 1; self.purelvl -= 1
        out = []
        extra = []
        for r in rs:
            cs = r.pc.since(base)
            v = r.ghost['pure']
            v = z3.BoolVal(bool(v)) if type(v) is int else (v if z3.is_bool(v) else v != 0)
            out.append(z3.Implies(z3.And(*cs), v) if cs else v)
        return z3.And(*out) if len(out) != 1 else out[0]

    def ptr_int(self, st, p):
        if not isinstance(p, Ptr): return p
        if p.o == 0: return p.off
        return add(self.addr_of(st, p.o), p.off)

    def int_ptr(self, st, v):
        if isinstance(v, Ptr): return v
        if type(v) is int:
            return Ptr(0, v) if v else NULL
        v = simp(v)
        if type(v) is int: return Ptr(0, v)
        syms = symbols_of(v)
        for i, s in syms.items():
            nm = s.decl().name()
            if nm.startswith('addr!'):
                off = simp(v - s)
                if not depends(off, {i: s}):
                    return Ptr(int(nm[5:]), off)
        return Ptr(0, v)

    def chk_access(self, st, p, n, what):
        """obligation that [p, p+n) is a live, in-bounds access; returns Obj"""
        if p.o == 0:
            self.oblige(st, 0, 'memory-safety', f'{what} through null/invalid pointer')
            raise PathEnd('null')
        o = st.objs.get(p.o)
        if o is None or not o.alive:
            self.oblige(st, 0, 'memory-safety', f'{what} of dead object {o.name if o else p.o}')
            raise PathEnd('dead')
        if o.fn is not None:
            self.oblige(st, 0, 'memory-safety', f'{what} of function')
            raise PathEnd('fn')
        off = p.off
        if type(off) is int and type(n) is int and type(o.size) is int:
            if off + n <= o.size: 
                return o
            if n == 0: return o
            self.oblige(st, 0, 'memory-safety', f'{what} [{off},{off}+{n}) outside {o.name} of size {o.size}')
            raise PathEnd('oob')
        # n <= size && off <= size - n
        c = band(ule(n, o.size), ule(off, sub(o.size, n)))
        if not (type(n) is int and n > 0):
            c = bor(eq(n, 0), c)
        if type(c) is int and c: return o
        self.oblige(st, c, 'memory-safety', f'{what} of {n} at {off} in {o.name} size {o.size}')
        return st.objs[p.o]

    def ctx(self, st): return Ctx(self, st)

    def load(self, st, p, n):
        o = self.chk_access(st, p, n, 'load')
        return obj_read(self.ctx(st), o, p.off, n)

    def store(self, st, p, n, v):
        o = self.chk_access(st, p, n, 'store')
        if o.ro:
            self.oblige(st, 0, 'memory-safety', f'store to constant {o.name}')
            raise PathEnd('ro')
        if st.wlog is not None: st.wlog = st.wlog + ((p.o, 'store', p.off, n, v),)
        st.objs[p.o] = obj_write(self.ctx(st), o, p.off, n, v)

    def memcpy(self, st, d, s, n, what='memcpy'):
        if type(n) is int and n == 0: return
        so = self.chk_access(st, s, n, what + ' source') if not self._zero(st, n) else None
        if so is None: return
        do = self.chk_access(st, d, n, what + ' destination')
        if st.wlog is not None: st.wlog = st.wlog + ((d.o, 'copy', d.off, n, None),)
        st.objs[d.o] = obj_copy(self.ctx(st), do, d.off, st.objs[s.o], s.off, n)

    def _zero(self, st, n):
        return type(n) is int and n == 0

    def memset(self, st, d, v, n):
        if type(n) is int and n == 0: return
        do = self.chk_access(st, d, n, 'memset')
        if st.wlog is not None: st.wlog = st.wlog + ((d.o, 'fill', d.off, n, v),)
        st.objs[d.o] = obj_fill(self.ctx(st), do, d.off, n, v)

    def free(self, st, p, what):
        if p.o == 0:
            if type(p.off) is int and p.off == 0: return
            self.oblige(st, eq(p.off, 0), 'memory-safety', 'free of invalid pointer'); return
        o = st.objs.get(p.o)
        ok = o is not None and o.alive and o.kind == 'heap'
        if not ok:
            self.oblige(st, 0, 'memory-safety', f'{what}: double/invalid free of {o.name if o else p.o}')
            raise PathEnd('free')
        self.oblige(st, eq(p.off, 0), 'memory-safety', f'{what}: free of interior pointer')
        o = o.copy(); o.alive = False
        st.objs[p.o] = o

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, nm):
        key = ('g', nm)
        g = self._gids.get(nm) if hasattr(self, '_gids') else None
        if not hasattr(self, '_gids'): self._gids = {}
        gid = self._gids.get(nm)
        if gid is not None and gid in st.objs: return Ptr(gid, 0)
        # function?
        if nm in self.fmod or self._is_decl_func(nm):
            if gid is None:
                self.oid += 1; gid = self.oid; self._gids[nm] = gid
            o = Obj(gid, 1, 'fn', None, nm); o.fn = nm
            st.objs[gid] = o
            return Ptr(gid, 0)
        m = self.gmod.get(nm)
        if m is None:
            raise OutOfReach(f'unknown global {nm}')
        d = m.global_def(nm)
        if d[0] == 'alias':
            v = self.const(st, PTR, d[1], m)
            return v
        _, ty, init, const, tls = d
        if gid is None:
            self.oid += 1; gid = self.oid; self._gids[nm] = gid
        size = size_of(ty)
        if init is None:
            node = Fresh('ext.' + nm)
            if size == 0: size = 1 << 16
        else:
            node = Zero()
        o = Obj(gid, size, 'global', node, nm)
        st.objs[gid] = o
        if init is not None:
            self._init(st, gid, 0, ty, init, m)
            o = st.objs[gid]
        if const and init is not None:
            o = o.copy(); o.ro = True; st.objs[gid] = o
        return Ptr(gid, 0)

    def _is_decl_func(self, nm):
        for m in self.mods:
            if nm in m.decls: return True
        return False

    def _init(self, st, gid, off, ty, v, m):
        k = v[0]
        if k in ('zero', 'undef', 'null'): return
        o = st.objs[gid]
        if k == 'bytes':
            b = v[1]
            if off == 0 and len(b) == o.size:
                o = o.copy(); o.node = Const(b); st.objs[gid] = o
            else:
                for i, x in enumerate(b):
                    o.cells[off + i] = (1, x)
            return
        if k == 'agg':
            if isinstance(ty, StructTy):
                offs = struct_layout(ty)[0]
                for (et, ev), eo in zip(v[1], offs): self._init(st, gid, off + eo, et, ev, m)
            else:
                es = size_of(ty.el)
                if isinstance(ty.el, IntTy) and len(v[1]) > 16 and off == 0 and es * len(v[1]) == o.size:
                    b = b''.join((e[1][1] if e[1][0] == 'i' else 0).to_bytes(es, 'little') for e in v[1])
                    o = o.copy(); o.node = Const(b); st.objs[gid] = o
                    return
                for i, (et, ev) in enumerate(v[1]): self._init(st, gid, off + i * es, et, ev, m)
            return
        val = self.const(st, ty, v, m)
        st.objs[gid].cells[off] = (store_size(ty), val)

    # ------------------------------------------------------------ operands
    def const(self, st, ty, o, m):
        k = o[0]
        if k == 'i': return o[1]
        if k == 'null': return NULL
        if k == 'g': return self.global_ptr(st, o[1])
        if k == 'f': return o[2]
        if k == 'zero':
            if isinstance(ty, (IntTy, FloatTy)): return 0
            if isinstance(ty, PtrTy): return NULL
            if isinstance(ty, StructTy): return [self.const(st, e, o, m) for e in ty.els]
            if isinstance(ty, (ArrTy, VecTy)): return [self.const(st, ty.el, o, m) for _ in range(ty.n)]
        if k == 'undef': return self.undef(ty)
        if k == 'gep':
            return self.gep(st, o[1], [(t, self.const(st, t, x, m)) for t, x in o[2]])
        if k == 'cast':
            v = self.const(st, o[2][0], o[2][1], m)
            return self.cast(st, o[1], o[2][0], v, o[3])
        if k == 'bin':
            return self.binop(st, o[1], o[2][0], self.const(st, o[2][0], o[2][1], m), self.const(st, o[3][0], o[3][1], m))
        if k == 'agg': return [self.const(st, t, x, m) for t, x in o[1]]
        if k == 'bytes': return list(o[1])
        if k == 'meta': return None
        raise OutOfReach(f'const {o}')

    def undef(self, ty):
        if isinstance(ty, IntTy):
            if ty.w == 1: return z3.Bool(f'undef!{fresh_id()}')
            return z3.BitVec(f'undef!{fresh_id()}', ty.w)
        if isinstance(ty, FloatTy): return z3.BitVec(f'undef!{fresh_id()}', ty.w)
        if isinstance(ty, PtrTy): return Ptr(0, 0xdead0000)
        if isinstance(ty, StructTy): return [self.undef(e) for e in ty.els]
        if isinstance(ty, (ArrTy, VecTy)): return [self.undef(ty.el) for _ in range(ty.n)]
        return None

    def ev(self, st, ty, o):
        k = o[0]
        if k == 'r': return st.frames[-1].regs[o[1]]
        if k == 'i': return o[1]
        return self.const(st, ty, o, st.frames[-1].f.mod)

    # ------------------------------------------------------------ ops
    def gep(self, st, sty, ops):
        base = ops[0][1]
        if not isinstance(base, Ptr): base = self.int_ptr(st, base)
        off = base.off
        ty = sty
        first = True
        for t, idx in ops[1:]:
            if first:
                sz = size_of(ty); first = False
                off = self._addidx(off, idx, t, sz)
            elif isinstance(ty, StructTy):
                off = add(off, struct_layout(ty)[0][idx]); ty = ty.els[idx]
            else:
                ty = ty.el
                off = self._addidx(off, idx, t, size_of(ty))
        return Ptr(base.o, off)

    def _addidx(self, off, idx, t, sz):
        if isinstance(idx, Ptr): raise OutOfReach('ptr index')
        if type(idx) is int:
            if idx == 0: return off
            return add(off, (sgn(idx, t.w) * sz) & M64)
        if t.w < 64: idx = z3.SignExt(64 - t.w, idx)
        elif t.w > 64: idx = z3.Extract(63, 0, idx)
        return add(off, mul(idx, sz))

    def cast(self, st, op, t, v, tt):
        if op == 'bitcast':
            if isinstance(t, PtrTy) or isinstance(tt, PtrTy): return v
            return v
        if op in ('ptrtoint',):
            r = self.ptr_int(st, v)
            if tt.w < 64: return simp(z3.Extract(tt.w - 1, 0, bv(r, 64))) if type(r) is not int else r & mask(tt.w)
            return r
        if op == 'inttoptr': return self.int_ptr(st, v)
        if op == 'trunc':
            if isinstance(v, Ptr): v = self.ptr_int(st, v)
            if type(v) is int: return v & mask(tt.w)
            if tt.w == 1: return simpb(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(tt.w - 1, 0, v))
        if op == 'zext':
            if isinstance(v, Ptr): return v
            if type(v) is int: return v
            if t.w == 1: return simp(z3.If(v, z3.BitVecVal(1, tt.w), z3.BitVecVal(0, tt.w)))
            return simp(z3.ZeroExt(tt.w - t.w, v))
        if op == 'sext':
            if type(v) is int: return sgn(v, t.w) & mask(tt.w)
            if t.w == 1: return simp(z3.If(v, z3.BitVecVal(mask(tt.w), tt.w), z3.BitVecVal(0, tt.w)))
            return simp(z3.SignExt(tt.w - t.w, v))
        if op == 'addrspacecast': return v
        # floats
        if op in ('fpext', 'fptrunc'):
            if t.kind not in FPS or tt.kind not in FPS: raise OutOfReach('long double')
            if type(v) is int: return py2f(f2py(v, t.kind), tt.kind)
            r = simp(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), tofp(v, t.kind), FPS[tt.kind])))
            return r
        if op in ('fptosi', 'fptoui'):
            if type(v) is int:
                x = f2py(v, t.kind)
                try: return int(x) & mask(tt.w)
                except (OverflowError, ValueError): return 1 << (tt.w - 1)
            f = tofp(v, t.kind)
            # out-of-range conversions are poison in LLVM; on x86-64 they give the "integer indefinite" value
            if op == 'fptosi':
                return simp(z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(tt.w)))
            return simp(z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(tt.w)))
        if op in ('sitofp', 'uitofp'):
            if type(v) is int:
                return py2f(float(sgn(v, t.w) if op == 'sitofp' else v), tt.kind) if tt.kind == 'double' else self._i2f(sgn(v, t.w) if op == 'sitofp' else v)
            if t.w == 1: v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            f = z3.fpSignedToFP(z3.RNE(), v, FPS[tt.kind]) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), v, FPS[tt.kind])
            return simp(z3.fpToIEEEBV(f))
        raise OutOfReach(f'cast {op}')

    def _i2f(self, v):
        return z3.simplify(z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), z3.BitVecVal(v, 80), FPS['float']))).as_long()

    def binop(self, st, op, t, x, y, flags=()):
        if isinstance(t, FloatTy):
            if t.kind not in FPS: raise OutOfReach('long double')
            if type(x) is int and type(y) is int and t.kind == 'double':
                a, b = f2py(x, t.kind), f2py(y, t.kind)
                try:
                    r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
                    return py2f(r, t.kind)
                except ZeroDivisionError: pass
            a, b = tofp(x, t.kind), tofp(y, t.kind)
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](z3.RNE(), a, b)
            return simp(z3.fpToIEEEBV(r))
        if isinstance(t, VecTy): raise OutOfReach('vector op')
        w = t.w
        if w == 1:
            if op == 'and': return band(x, y)
            if op == 'or': return bor(x, y)
            if op in ('xor', 'add', 'sub'):
                if type(x) is int and type(y) is int: return x ^ y
                if type(x) is int: return bnot(y) if x else y
                if type(y) is int: return bnot(x) if y else x
                return simpb(z3.Xor(x, y))
            raise OutOfReach('i1 ' + op)
        if isinstance(x, Ptr): x = self.ptr_int(st, x)
        if isinstance(y, Ptr): y = self.ptr_int(st, y)
        if type(x) is int and type(y) is int:
            m = mask(w)
            if op == 'add': return (x + y) & m
            if op == 'sub': return (x - y) & m
            if op == 'mul': return (x * y) & m
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op == 'shl': return (x << y) & m if y < w else 0
            if op == 'lshr': return x >> y if y < w else 0
            if op == 'ashr': return (sgn(x, w) >> min(y, w - 1)) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if y == 0:
                    self.oblige(st, 0, 'no-division-by-zero'); raise PathEnd('div0')
                if op == 'udiv': return x // y
                if op == 'urem': return x % y
                a, b = sgn(x, w), sgn(y, w)
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                if op == 'sdiv': return q & m
                return (a - q * b) & m
        X, Y = bv(x, w), bv(y, w)
        if op == 'add': r = X + Y
        elif op == 'sub': r = X - Y
        elif op == 'mul': r = X * Y
        elif op == 'and':
            r = simp(X & Y)
            if type(r) is not int and w == 64:
                ANDMAP[r.get_id()] = (x, y, r)
                if self.andlog is not None: self.andlog[r.get_id()] = (x, y, r)
            return r
        elif op == 'or': r = X | Y
        elif op == 'xor': r = X ^ Y
        elif op == 'shl': r = X << Y
        elif op == 'lshr': r = z3.LShR(X, Y)
        elif op == 'ashr': r = X >> Y
        else:
            self.oblige(st, simpb(Y != 0), 'no-division-by-zero')
            if op == 'udiv': r = z3.UDiv(X, Y)
            elif op == 'urem': r = z3.URem(X, Y)
            elif op == 'sdiv': r = X / Y
            elif op == 'srem': r = z3.SRem(X, Y)
            else: raise OutOfReach('binop ' + op)
        return simp(r)

    def icmp(self, st, c, t, x, y):
        if isinstance(t, PtrTy) or isinstance(x, Ptr) or isinstance(y, Ptr):
            if not isinstance(x, Ptr): x = self.int_ptr(st, x)
            if not isinstance(y, Ptr): y = self.int_ptr(st, y)
            if x.o == y.o:
                a, b = x.off, y.off
                if c[0] == 's' : c = 'u' + c[1:]
                return self._cmp(c, a, b, 64)
            if c == 'eq' or c == 'ne':
                # distinct objects never compare equal (a null/integer pointer never equals an object)
                if (x.o == 0 and type(x.off) is int and x.off < 4096) or (y.o == 0 and type(y.off) is int and y.off < 4096) or (x.o and y.o):
                    return 0 if c == 'eq' else 1
            a, b = self.ptr_int(st, x), self.ptr_int(st, y)
            self.disjoint(st, x.o, y.o)
            return self._cmp(c if c[0] != 's' else 'u' + c[1:], a, b, 64)
        if t.w == 1:
            e = eq(x, y, 1)
            if c == 'eq': return e
            if c == 'ne': return bnot(e)
            xx = ite(x, 1, 0, 8); yy = ite(y, 1, 0, 8)
            return self._cmp(c, xx, yy, 8)
        return self._cmp(c, x, y, t.w)

    def _cmp(self, c, x, y, w):
        if self.cmplog is not None and not (type(x) is int and type(y) is int): self.cmplog.append((x, y, w))
        if type(x) is int and type(y) is int:
            if c == 'eq': return int(x == y)
            if c == 'ne': return int(x != y)
            if c[0] == 's': x = sgn(x, w); y = sgn(y, w)
            return int({'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[c[1:]])
        X, Y = bv(x, w), bv(y, w)
        if c == 'eq': r = X == Y
        elif c == 'ne': r = X != Y
        elif c == 'ugt': r = z3.UGT(X, Y)
        elif c == 'uge': r = z3.UGE(X, Y)
        elif c == 'ult': r = z3.ULT(X, Y)
        elif c == 'ule': r = z3.ULE(X, Y)
        elif c == 'sgt': r = X > Y
        elif c == 'sge': r = X >= Y
        elif c == 'slt': r = X < Y
        else: r = X <= Y
        return simpb(r)

    def fcmp(self, st, c, t, x, y):
        if c == 'true': return 1
        if c == 'false': return 0
        if t.kind not in FPS: raise OutOfReach('long double')
        if type(x) is int and type(y) is int:
            a, b = f2py(x, t.kind), f2py(y, t.kind)
            un = a != a or b != b
            if c == 'ord': return int(not un)
            if c == 'uno': return int(un)
            r = {'eq': a == b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b, 'ne': a != b}[c[1:]]
            if un: return 0 if c[0] == 'o' else 1
            return int(r)
        a, b = tofp(x, t.kind), tofp(y, t.kind)
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if c == 'ord': return simpb(z3.Not(un))
        if c == 'uno': return simpb(un)
        r = {'eq': z3.fpEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b), 'ne': z3.Not(z3.fpEQ(a, b))}[c[1:]]
        if c[0] == 'o': r = z3.And(z3.Not(un), r)
        else: r = z3.Or(un, r)
        return simpb(r)

    def as_typed(self, st, t, v):
        """raw memory value (int/BV of store size or Ptr) -> value of type t"""
        if isinstance(t, PtrTy):
            return v if isinstance(v, Ptr) else self.int_ptr(st, v)
        if isinstance(v, Ptr):
            v = self.ptr_int(st, v)
        if isinstance(t, IntTy):
            if t.w == 1:
                if type(v) is int: return v & 1
                return simpb(z3.Extract(0, 0, v) == 1)
            if t.w % 8:
                if type(v) is int: return v & mask(t.w)
                return simp(z3.Extract(t.w - 1, 0, v))
        return v

    def load_ty(self, st, t, p):
        if isinstance(t, StructTy):
            return [self.load_ty(st, e, Ptr(p.o, add(p.off, o))) for e, o in zip(t.els, struct_layout(t)[0])]
        if isinstance(t, (ArrTy,)):
            return [self.load_ty(st, t.el, Ptr(p.o, add(p.off, i * size_of(t.el)))) for i in range(t.n)]
        if isinstance(t, VecTy): raise OutOfReach('vector load')
        n = store_size(t)
        return self.as_typed(st, t, self.load(st, p, n))

    def to_raw(self, t, v):
        if isinstance(t, IntTy) and type(v) is not int and not isinstance(v, Ptr):
            if t.w == 1: return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if t.w % 8: return z3.ZeroExt(8 - t.w % 8, v)
        return v

    def store_ty(self, st, t, v, p):
        if isinstance(t, StructTy):
            for e, o, x in zip(t.els, struct_layout(t)[0], v): self.store_ty(st, e, x, Ptr(p.o, add(p.off, o)))
            return
        if isinstance(t, ArrTy):
            for i in range(t.n): self.store_ty(st, t.el, v[i], Ptr(p.o, add(p.off, i * size_of(t.el))))
            return
        if isinstance(t, VecTy): raise OutOfReach('vector store')
        self.store(st, p, store_size(t), self.to_raw(t, v))

    # ------------------------------------------------------------ exploration
    def initial(self):
        st = State()
        st.frames = []; st.objs = {}; st.pc = PC(None, None); st.known = {}; st.inputs = (); st.wlog = None
        st.foralls = (); st.witness = (); st.pending = None; st.exc = None; st.caught = (); st.hooks = {}; st.ghost = {}; st.loopdepth = 0; st.trace = (); st.abstract = 0; st.skiphook = False
        st.gl = frozenset()
        return st

    def push_call(self, st, f, args):
        self.functions.add(f.name)
        fr = Frame(f)
        for (t, pn), a in zip(f.params, args): fr.regs[pn] = a
        st.frames.append(fr)
        if len(st.frames) > 200: raise OutOfReach('call depth')

    def run_ctors(self, st, mods):
        """run global constructors of the given modules"""
        for m in mods:
            d = m.global_def('llvm.global_ctors') if 'llvm.global_ctors' in m.globals_txt else None
            if not d or d[2] is None or d[2][0] != 'agg': continue
            for t, el in d[2][1]:
                fn = el[1][1][1]
                if fn[0] != 'g': continue
                nm = fn[1]
                f = m.func(nm)
                base = len(st.frames)
                fr = Frame(None); fr.f = f
                # explicit driver frame
                st2 = st
                self.push_call(st2, f, [])
                self.functions.discard(nm)
                keep = st2.copy(); keep.frames = []
                try:
                    res = self.explore(st2, ('depth', base + 1, None, None))
                    if len(res) != 1: raise OutOfReach('global constructor forks')
                    st = res[0]
                except OutOfReach as x:
                    st = keep
                    self.assumptions.add(f'global constructor {nm} not executed ({x}); its globals are treated as zero-initialised')
        return st

    def run_proof(self, name, ctor_mods=()):
        m = self.fmod.get(name)
        if m is None: raise OutOfReach('no proof ' + name)
        st = self.initial()
        st = self.run_ctors(st, ctor_mods)
        f = m.func(name)
        self.push_call(st, f, [])
        try:
            res = self.explore(st, ('depth', 1, None, None))
        except StopProof:
            res = []
        self.ended = res
        return res

    def explore(self, st, stop):
        """run from st until stop. stop=('depth',d,header,body): stop when frames<d or, at depth d,
        when a jump goes to header or out of body."""
        wl = [st]; out = []
        while wl:
            s = wl.pop()
            r = self.run(s, stop)
            for k, s2 in r:
                if k == 'stop': out.append(s2)
                elif k == 'cont': wl.append(s2)
            if len(wl) + len(out) > self.opts['max_states']: raise OutOfReach('too many paths')
        return out

    def run(self, st, stop):
        d = stop[1]; header = stop[2]; body = stop[3]
        try:
            while True:
                if len(st.frames) < d: 
                    return [('stop', st)]
                if st.pending is not None:
                    lab = st.pending
                    fr = st.frames[-1]
                    if header is not None and len(st.frames) == d and (lab == header or lab not in body):
                        return [('stop', st)]
                    loops = find_loops(fr.f)
                    if lab in loops and fr.block not in loops[lab]:
                        res = self.handle_loop(st, lab, loops[lab])
                        return [('cont', s) for s in res]
                    self.enter(st, lab)
                    continue
                r = self.step(st)
                if r is not None:
                    return r
        except Unsupported as e:
            raise OutOfReach(str(e))
        except PathEnd as e:
            if not self.muted: self.pathends[e.why] = self.pathends.get(e.why, 0) + 1
            return []

    def enter(self, st, lab):
        fr = st.frames[-1]
        vals = self.eval_phis(st, lab)
        fr.prev = fr.block; fr.block = lab; fr.idx = len(vals)
        # nops among phis are not produced by LLVM
        for k, v in vals: fr.regs[k] = v
        st.pending = None

    def eval_phis(self, st, lab):
        fr = st.frames[-1]
        vals = []
        for ins in fr.f.blocks[lab]:
            if ins.op != 'phi': break
            t, inc = ins.a
            for v, l in inc:
                if l == fr.block:
                    vals.append((ins.res, self.ev(st, t, v))); break
            else:
                raise OutOfReach('phi')
        return vals

    def step(self, st):
        """execute one instruction; None to continue or a list of (kind,state)"""
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.block][fr.idx]
        self.stats['insts'] += 1
        if self.stats['insts'] % 2048 == 0 and time.time() - self.t0 > self.opts['time_limit']: raise Timeout()
        try:
            return getattr(self, 'x_' + ins.op)(st, fr, ins)
        except Fork as f:
            return self.fork(st, f.cond)

    def fork(self, st, c):
        out = []
        c = simpb(c)
        if type(c) is int: raise OutOfReach('fork on constant')
        n = simpb(z3.Not(c))
        s1 = self.check(st.pc, c); s2 = self.check(st.pc, n)
        if s1 != 'unsat':
            a = st.copy() if s2 != 'unsat' else st
            if s2 != 'unsat': self.assume(a, c)
            else: self._know(a, c, 1)
            out.append(('cont', a))
        if s2 != 'unsat':
            if s1 != 'unsat': self.assume(st, n)
            else: self._know(st, n, 1)
            out.append(('cont', st))
        return out

    def nxt(self, fr): fr.idx += 1

    def x_nop(self, st, fr, ins): fr.idx += 1
    def x_fence(self, st, fr, ins): fr.idx += 1
    def x_phi(self, st, fr, ins): raise OutOfReach('stray phi')
    def x_unreachable(self, st, fr, ins):
        self.oblige(st, 0, 'no-unreachable', 'reached code the compiler marks unreachable')
        raise PathEnd('unreachable')

    def x_ret(self, st, fr, ins):
        v = None
        if ins.a is not None: v = self.ev(st, ins.a[0], ins.a[1])
        self.do_ret(st, v)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            o = st.objs.get(a)
            if o is not None:
                # keep contents unreachable: mark dead
                st.objs.pop(a)
        if not st.frames: 
            return
        st.frames[-1] = st.frames[-1].copy()
        c = st.frames[-1]
        if fr.tag == 'pure':
            st.ghost = dict(st.ghost); st.ghost['pure'] = v
            return
        if fr.tag == 'hook':
            return    # re-execute current instruction of caller
        ins = c.f.blocks[c.block][c.idx]
        if ins.op in ('call', 'invoke'):
            self.finish_call(st, c, ins, v)
        else:
            c.idx += 1

    def finish_call(self, st, fr, ins, v):
        if ins.res is not None: fr.regs[ins.res] = v
        if ins.op == 'invoke': st.pending = ins.a[3]
        else: fr.idx += 1

    def x_br(self, st, fr, ins):
        if ins.a[0] is None:
            st.pending = ins.a[1]; return
        c = self.ev(st, int_ty(1), ins.a[0])
        if type(c) is int:
            st.pending = ins.a[1] if c else ins.a[2]; return
        k = st.known.get(c.get_id())
        if k is not None:
            st.pending = ins.a[1] if k[0] else ins.a[2]; return
        for L in self.loopstack:
            if L[0] == len(st.frames) and (ins.a[1] in L[1]) != (ins.a[2] in L[1]): L[2] += 1
        n = simpb(z3.Not(c))
        s1 = self.check(st.pc, c); s2 = self.check(st.pc, n)
        if s1 == 'unsat' and s2 == 'unsat': raise PathEnd('infeasible')
        if s2 == 'unsat': st.pending = ins.a[1]; return
        if s1 == 'unsat': st.pending = ins.a[2]; return
        a = st.copy()
        self.assume(a, c); a.pending = ins.a[1]
        self.assume(st, n); st.pending = ins.a[2]
        return [('cont', a), ('cont', st)]

    def x_switch(self, st, fr, ins):
        t, c, dflt, cases = ins.a
        v = self.ev(st, t, c)
        if type(v) is int:
            for cv, l in cases:
                if cv == v: st.pending = l; return
            st.pending = dflt; return
        out = []
        rest = st
        for cv, l in cases:
            q = simpb(bv(v, t.w) == cv)
            if type(q) is int:
                if q:
                    s2 = rest.copy(); s2.pending = l; out.append(('cont', s2)); return out
                continue
            if self.check(rest.pc, q) != 'unsat':
                s2 = rest.copy(); self.assume(s2, q); s2.pending = l; out.append(('cont', s2))
                try: self.assume(rest, z3.Not(q))
                except PathEnd: return out
        if self.check(rest.pc, z3.BoolVal(True)) != 'unsat':
            rest.pending = dflt; out.append(('cont', rest))
        return out

    def x_alloca(self, st, fr, ins):
        t, n = ins.a
        sz = size_of(t)
        if n is not None:
            k = self.ev(st, n[0], n[1])
            sz = mul(sz, k)
        o = self.new_obj(st, sz, 'stack', Fresh('stk'), f'{demangle(fr.f.name)}::{ins.res}')
        fr.allocas = fr.allocas + (o.id,)
        fr.regs[ins.res] = Ptr(o.id, 0)
        fr.idx += 1

    def ptr(self, st, o):
        p = self.ev(st, PTR, o)
        if not isinstance(p, Ptr): p = self.int_ptr(st, p)
        return p

    def x_load(self, st, fr, ins):
        t, a, at = ins.a
        p = self.ptr(st, a)
        if at and self.atomic_hook(st, fr, p): return
        fr.regs[ins.res] = self.load_ty(st, t, p)
        fr.idx += 1

    def x_store(self, st, fr, ins):
        t, v, a, at = ins.a
        p = self.ptr(st, a)
        if at and self.atomic_hook(st, fr, p): return
        self.store_ty(st, t, self.ev(st, t, v), p)
        fr.idx += 1

    def atomic_hook(self, st, fr, p):
        """environment step before a shared atomic access"""
        if not st.hooks: return False
        hs = st.hooks.get(('shared', p.o))
        if hs is None or any(x.tag == 'hook' for x in st.frames): return False
        if st.skiphook:
            st.skiphook = False; return False
        for lo, hi, fn, arg in hs:
            if type(p.off) is int and lo <= p.off < hi: break
        else: return False
        f = self.func(fn)
        self.push_call(st, f, [arg]); st.frames[-1].tag = 'hook'
        st.skiphook = True
        return True

    def x_gep(self, st, fr, ins):
        sty, ops = ins.a
        fr.regs[ins.res] = self.gep(st, sty, [(t, self.ev(st, t, o)) for t, o in ops])
        fr.idx += 1

    def x_bin(self, st, fr, ins):
        op, t, x, y, fl = ins.a
        fr.regs[ins.res] = self.binop(st, op, t, self.ev(st, t, x), self.ev(st, t, y), fl)
        fr.idx += 1

    def x_cast(self, st, fr, ins):
        op, t, x, tt = ins.a
        fr.regs[ins.res] = self.cast(st, op, t, self.ev(st, t, x), tt)
        fr.idx += 1

    def x_icmp(self, st, fr, ins):
        c, t, x, y = ins.a
        fr.regs[ins.res] = self.icmp(st, c, t, self.ev(st, t, x), self.ev(st, t, y))
        fr.idx += 1

    def x_fcmp(self, st, fr, ins):
        c, t, x, y = ins.a
        fr.regs[ins.res] = self.fcmp(st, c, t, self.ev(st, t, x), self.ev(st, t, y))
        fr.idx += 1

    def x_fneg(self, st, fr, ins):
        t, x = ins.a
        v = self.ev(st, t, x)
        if type(v) is int: fr.regs[ins.res] = v ^ (1 << (t.w - 1))
        else: fr.regs[ins.res] = simp(v ^ z3.BitVecVal(1 << (t.w - 1), t.w))
        fr.idx += 1

    def x_freeze(self, st, fr, ins):
        fr.regs[ins.res] = self.ev(st, ins.a[0], ins.a[1]); fr.idx += 1

    def x_select(self, st, fr, ins):
        (ct, c), (xt, x), (yt, y) = ins.a
        c = self.ev(st, ct, c); x = self.ev(st, xt, x); y = self.ev(st, yt, y)
        fr.regs[ins.res] = self.sel(st, c, xt, x, y)
        fr.idx += 1

    def sel(self, st, c, t, x, y):
        if type(c) is not int:
            k = st.known.get(c.get_id())
            if k is not None: c = k[0]
        if type(c) is int: return x if c else y
        if isinstance(t, (IntTy, FloatTy)):
            if isinstance(x, Ptr) or isinstance(y, Ptr): raise Fork(c)
            if self.opts.get('forksel') and t.w == 64: raise Fork(c)
            return ite(c, x, y, t.w)
        if isinstance(t, PtrTy):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
                return Ptr(x.o, ite(c, x.off, y.off, 64))
        raise Fork(c)

    def x_extractvalue(self, st, fr, ins):
        t, v, idx = ins.a
        x = self.ev(st, t, v)
        for i in idx: x = x[i]
        fr.regs[ins.res] = x; fr.idx += 1

    def x_insertvalue(self, st, fr, ins):
        t, v, et, evv, idx = ins.a
        x = self.ev(st, t, v); e = self.ev(st, et, evv)
        def put(a, ix):
            a = list(a)
            if len(ix) == 1: a[ix[0]] = e
            else: a[ix[0]] = put(a[ix[0]], ix[1:])
            return a
        fr.regs[ins.res] = put(x, idx); fr.idx += 1

    def x_atomicrmw(self, st, fr, ins):
        op, a, t, v = ins.a
        p = self.ptr(st, a)
        if self.atomic_hook(st, fr, p): return
        old = self.load_ty(st, t, p); v = self.ev(st, t, v)
        if op == 'xchg': n = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'): n = self.binop(st, op, t, old, v)
        elif op == 'nand': n = self.binop(st, 'xor', t, self.binop(st, 'and', t, old, v), mask(t.w))
        elif op in ('max', 'min', 'umax', 'umin'):
            c = self.icmp(st, ('s' if op[0] == 'm' else 'u') + ('gt' if 'max' in op else 'lt'), t, old, v)
            n = ite(c, old, v, t.w)
        else: raise OutOfReach('atomicrmw ' + op)
        self.store_ty(st, t, n, p)
        fr.regs[ins.res] = old; fr.idx += 1

    def x_cmpxchg(self, st, fr, ins):
        a, t, c, n = ins.a
        p = self.ptr(st, a)
        if self.atomic_hook(st, fr, p): return
        old = self.load_ty(st, t, p); c = self.ev(st, t, c); n = self.ev(st, t, n)
        e = self.icmp(st, 'eq', t, old, c)
        if type(e) is not int:
            k = st.known.get(e.get_id())
            if k is None:
                st.skiphook = bool(st.hooks)
                raise Fork(e)
            e = k[0]
        if e: self.store_ty(st, t, n, p)
        fr.regs[ins.res] = [old, e]; fr.idx += 1

    # ---- calls
    def func(self, nm):
        m = self.fmod.get(nm)
        return m.func(nm) if m else None

    def x_call(self, st, fr, ins):
        return self.do_call(st, fr, ins)
    def x_invoke(self, st, fr, ins):
        return self.do_call(st, fr, ins)

    def do_call(self, st, fr, ins):
        rt, callee, args = ins.a[0], ins.a[1], ins.a[2]
        if callee[0] == 'asm':
            fr.idx += 1; return
        if callee[0] == 'g': nm = callee[1]
        else:
            p = self.ptr(st, callee)
            o = st.objs.get(p.o)
            if o is None or o.fn is None:
                self.oblige(st, 0, 'memory-safety', 'call through invalid function pointer')
                raise PathEnd('badcall')
            nm = o.fn
        return self.call_named(st, fr, ins, nm, [self.ev(st, t, a) for t, a in args], rt, args)

    def call_named(self, st, fr, ins, nm, av, rt, args):
        rep = self.replace.get(nm)
        if rep is not None and not any(x.f is not None and x.f.name == rep for x in st.frames):
            self.used_replace[nm] = rep
            nm = rep
        m = self.models.get(nm)
        if m is None and nm.startswith('llvm.'):
            m = self.intrinsic(nm)
        if m is None:
            if nm not in self.vec_cache:
                import models
                self.vec_cache[nm] = models.vec_model(self, nm) or models.str_model(self, nm)
            m = self.vec_cache[nm]
        if m is not None:
            r = m(self, st, fr, ins, av, rt, args)
            if r is CALLED: return
            if isinstance(r, Events): return r.ev
            self.finish_call(st, fr, ins, r)
            return
        f = self.func(nm)
        if f is None:
            # alias?
            g = self.gmod.get(nm)
            if g is not None:
                d = g.global_def(nm)
                if d[0] == 'alias' and d[1][0] == 'g':
                    return self.call_named(st, fr, ins, d[1][1], av, rt, args)
            raise OutOfReach(f'external function without contract: {demangle(nm)}')
        self.push_call(st, f, av)

    def intrinsic(self, nm):
        p = nm.split('.')
        for k in range(len(p), 1, -1):
            m = self.models.get('.'.join(p[:k]))
            if m is not None: return m
        raise OutOfReach('intrinsic ' + nm)

    # ---- exceptions
    def throw(self, st, obj, tinfo):
        """start unwinding from the current frame. returns None (state positioned) """
        st.exc = (obj, tinfo)
        self.unwind(st)

    def unwind(self, st, skip_current=False):
        obj, tinfo = st.exc
        if not self._has_handler(st, tinfo):
            if st.frames and st.frames[-1].f is not None:
                self.oblige(st, 0, 'no-uncaught-exception', f'exception {tinfo} escapes')
            raise PathEnd('uncaught')
        first = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.block][fr.idx] if fr.f else None
            if ins is not None and ins.op == 'invoke' and not (first and skip_current):
                lab = ins.a[4]
                lp = None
                for i2 in fr.f.blocks[lab]:
                    if i2.op == 'landingpad': lp = i2; break
                sel = None
                t, cleanup, cl = lp.a
                for k, cv in cl:
                    if k == 'catch':
                        if cv[0] == 'null': sel = 0x7fff; break
                        if cv[0] == 'g' and self.type_match(tinfo, cv[1]):
                            sel = self.typeid(cv[1]); break
                    else:
                        sel = 0x7ffe; break
                if sel is not None or cleanup:
                    fr2 = st.frames[-1]
                    fr2.regs['%lp'] = [obj, sel if sel is not None else 0]
                    st.ghost = dict(st.ghost); st.ghost['lp'] = [obj, sel if sel is not None else 0]
                    st.pending = lab
                    return
            first = False
            st.frames.pop()
            for a in fr.allocas: st.objs.pop(a, None)
            if st.frames: st.frames[-1] = st.frames[-1].copy()
        raise PathEnd('uncaught')

    def _has_handler(self, st, tinfo):
        for fr in reversed(st.frames):
            if fr.f is None: continue
            ins = fr.f.blocks[fr.block][fr.idx]
            if ins.op != 'invoke': continue
            for i2 in fr.f.blocks[ins.a[4]]:
                if i2.op == 'landingpad':
                    for k, cv in i2.a[2]:
                        if k != 'catch' or cv[0] == 'null' or (cv[0] == 'g' and self.type_match(tinfo, cv[1])): return True
                    break
        return False

    def typeid(self, nm):
        return self.typeids.setdefault(nm, len(self.typeids) + 1)

    STD_BASES = {
        '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
        '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
        '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
        '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    }
    def type_match(self, t, c):
        if t == c: return True
        for b in self.STD_BASES.get(t, []):
            if self.type_match(b, c): return True
        m = self.gmod.get(t)
        if m is not None:
            d = m.global_def(t)
            if d[0] == 'var' and d[2] is not None and d[2][0] == 'agg':
                for et, e in d[2][1][2:]:
                    if e[0] == 'g' and e[1].startswith('_ZTI') and self.type_match(e[1], c): return True
        return False

    def x_landingpad(self, st, fr, ins):
        fr.regs[ins.res] = list(st.ghost['lp']); fr.idx += 1

    def x_resume(self, st, fr, ins):
        v = self.ev(st, ins.a[0], ins.a[1])
        st.frames.pop()
        for a in fr.allocas: st.objs.pop(a, None)
        if st.frames: st.frames[-1] = st.frames[-1].copy()
        else: raise PathEnd('uncaught')
        self.unwind(st)

    # ------------------------------------------------------------ loops
    def loop_opts(self, lid):
        for pat, n in self.opts.get('loops', {}).items():
            if pat in demangle(lid[0]): return n
        return None
    def handle_loop(self, st, H, body):
        import loops
        return loops.handle(self, st, H, body)

class StopProof(Exception): pass

class Events:
    def __init__(s, ev): s.ev = ev
class _Called: pass
CALLED = _Called()

_dm = {}
def demangle_all(names):
    todo = [n for n in names if n not in _dm]
    if todo:
        p = subprocess.run(['c++filt'], input='\n'.join(todo), capture_output=True, text=True)
        for n, d in zip(todo, p.stdout.split('\n')): _dm[n] = d
def demangle(n):
    if n not in _dm: demangle_all([n])
    return _dm[n]
