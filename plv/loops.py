"""Loops: exact unrolling where it terminates, otherwise an inductive summary.

A summary describes the state at the k-th visit of the loop header (k an unbounded symbolic iteration count) by templates that are
*checked* to be inductive: every header phi / memory cell is invariant, v0 + c*k, v0 << c*k or an unconstrained function x(k); every array
write goes to a lane (A + c*k, or (B + k) & M with at most M+1 iterations) whose value is an exact function of the iteration.  Additional
relational invariants (bounds of k taken from the comparisons the loop makes) are kept only if they hold initially and are preserved
(Houdini).  The final pass runs the body once from the arbitrary k-th state with all obligations active; its exits are the loop's exits."""
import z3, re, time
from terms import *
from mem import *
import mem
from irparse import IntTy, FloatTy, PtrTy, find_loops
import engine as E
from engine import PathEnd, OutOfReach, StopProof

KMAX = 1 << 48
DBG = False
def dbg(*a):
    if DBG: print('  [loop]', *a, flush=True)

class SummFail(Exception): pass
class NeedPeel(SummFail): pass
class NoBack(SummFail): pass

_num = re.compile(r'!(\d+)$')
def fresh_names(t, mark, allowed):
    """does t mention symbols/functions created after mark (other than allowed names)?"""
    if type(t) is int or isinstance(t, Ptr): return False
    seen = set(); stk = [t]
    while stk:
        x = stk.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                if nm not in allowed:
                    mt = _num.search(nm)
                    if mt and int(mt.group(1)) > mark: return True
            stk.extend(x.children())
    return False

def mentions(t, names):
    if type(t) is int: return False
    seen = set(); stk = [t]
    while stk:
        x = stk.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in names: return True
            stk.extend(x.children())
    return False

def zext_arg(x):
    """t if x is a zero-extended t"""
    if not z3.is_app(x): return None
    if x.decl().kind() == z3.Z3_OP_ZERO_EXT: return x.arg(0)
    if x.decl().kind() == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0: return x.arg(1)
    return None

def subst(t, k, j):
    if type(t) is int: return t
    if isinstance(t, Ptr): return Ptr(t.o, subst(t.off, k, j))
    r = z3.substitute(t, (k, bv(j, 64)))
    return simpb(r) if z3.is_bool(r) else simp(r)

# ---------------------------------------------------------------------------------------------------------------- entry point
def handle(e, st, H, body):
    L = [len(st.frames), body, 0]
    e.loopstack.append(L)
    n = len(e.loopstack)
    try: return handle2(e, st, H, body, L)
    finally: del e.loopstack[n - 1:]

def handle2(e, st, H, body, L):
    d = len(st.frames)
    f = st.frames[-1].f
    lid = (f.name, H)
    stop = ('depth', d, H, body)
    exits = []
    cur = [st]
    forks = 0
    limit = e.opts['unroll_conc']
    bounded = e.opts['bounded']
    start = None          # state at the point where unrolling stopped being deterministic
    start_exits = None
    maxf = bounded if bounded else e.opts['unroll_fork']
    nloop = e.loop_opts(lid)
    if nloop is not None: maxf = max(maxf, nloop)
    symdet = 0; sym_start = None
    first = st.copy()
    for it in range(limit):
        nxt = []
        nsym = L[2]
        ex_it = []
        before = [s.copy() for s in cur] if len(cur) == 1 else None
        for s in cur:
            e.enter(s, H)
            for r in e.explore(s, stop):
                if len(r.frames) == d and r.pending == H: nxt.append(r)
                else: ex_it.append(r)
        if nxt and (ex_it or len(nxt) > 1 or len(cur) > 1):
            if start is None and before is not None:
                start = before[0]; start_exits = list(exits)
            forks += 1
        exits.extend(ex_it)
        if not nxt:
            e.stats['unrolled'] += 1
            return exits
        cur = nxt
        if it == e.opts['conc_sum'] and not forks and not symdet and len(cur) == 1 and not bounded and not nloop:
            # a long concrete loop: a summary is cheaper, if there is one
            try: res = summarise(e, first, H, body, d)
            except (SummFail, OutOfReach) as x: dbg('long concrete loop not summarised:', x)
            else:
                e.stats['summaries'] += 1
                e.loops_done.append((E.demangle(f.name), H, 0))
                return res
        if L[2] > nsym and not forks and before is not None:
            # the exit test is symbolic, yet decided: a trip count that is not a constant
            symdet += 1
            if symdet == 1: sym_start = (before[0], list(exits))
            if symdet >= (bounded or e.opts['unroll_sym']) and not nloop:
                start, start_exits = sym_start
                break
        if forks >= maxf or len(cur) > 24:
            break
    else:
        raise OutOfReach(f'loop with more than {limit} concrete iterations in {E.demangle(f.name)}')
    if bounded:
        e.bounded_hit = True
        return exits
    if start is None:
        raise OutOfReach(f'loop in {E.demangle(f.name)}: branching entry')
    if lid in e.summ_bad: raise OutOfReach(e.summ_bad[lid])
    t0 = time.time()
    try:
        res = summarise(e, start, H, body, d)
    except SummFail as x:
        msg = f'loop at {H} of {E.demangle(f.name)}: {x}'
        e.summ_bad[lid] = msg
        raise OutOfReach(msg)
    e.stats['summaries'] += 1
    e.loops_done.append((E.demangle(f.name), H, round(time.time() - t0, 2)))
    return start_exits + res

# ---------------------------------------------------------------------------------------------------------------- variables
class Var:
    __slots__ = ('kind', 'key', 'w', 'v0', 'form', 'c', 'uf', 'name', 'ptr')
    def __init__(s, kind, key, w, v0):
        s.kind = kind; s.key = key; s.w = w; s.v0 = v0; s.form = 'inv'; s.c = None; s.uf = None; s.name = None; s.ptr = isinstance(v0, Ptr)
    def base(s): return s.v0.off if s.ptr else s.v0
    def wrap(s, t): return Ptr(s.v0.o, t) if s.ptr else t
    def at(s, k):
        if s.form == 'inv': return s.v0
        if s.form == 'junk': return Ptr(0, 0xdead0000)
        if s.form == 'rel':
            u = s.c.at(k)
            return s.wrap(add(u.off if s.c.ptr else u, sub(s.base(), s.c.base(), s.w), s.w))
        w = s.w
        if s.form == 'aff':
            kk = k if type(k) is int else (k if w == 64 else (z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k)))
            if type(kk) is int: kk &= mask(w)
            return s.wrap(add(s.base(), mul(kk, s.c, w), w))
        if s.form == 'geo':
            kk = bv(k, 64)
            sh = simp(kk * s.c)
            big = simpb(z3.UGE(bv(sh, 64), w))
            kk = sh if w == 64 else (simp(z3.Extract(w - 1, 0, bv(sh, 64))) if w < 64 else simp(z3.ZeroExt(w - 64, bv(sh, 64))))
            return s.wrap(simp(z3.If(zb(big), z3.BitVecVal(0, w), bv(s.base(), w) << bv(kk, w))))
        if s.uf is None:
            s.name = f'x!{fresh_id()}'
            s.uf = z3.Function(s.name, z3.BitVecSort(64), z3.BitVecSort(max(w, 1)))
        t = s.uf(bv(k, 64))
        if w == 1: return simpb(t == 1)
        return s.wrap(t)

class Lane:
    """writes of n bytes at off(k)"""
    __slots__ = ('oid', 'n', 'off', 'kind', 'c', 'A', 'M', 'g', 'V', 'word')
    def __init__(s, oid, n): s.oid = oid; s.n = n; s.g = None; s.V = None; s.kind = None

def width_of(e, t):
    if isinstance(t, PtrTy): return 64
    if isinstance(t, (IntTy, FloatTy)): return t.w
    raise SummFail('aggregate phi')

class Summary:
    def __init__(self, e, st, H, body, d, m):
        self.e = e; self.st = st; self.H = H; self.body = body; self.d = d; self.m = m
        self.k = z3.BitVec(f'k!{fresh_id()}', 64)
        self.stop = ('depth', d, H, body)
        self.vars = {}
        self.order = []
        self.lanes = {}      # oid -> [Lane]
        self.region = set()  # oids havocked
        self.modified = set()
        self.invs = []       # list of z3 Bool over k
        self.back = None
        self.inexact = False
        nm = E.demangle(st.frames[-1].f.name)
        self.cinv = [(fn, arg) for sub, fn, arg in st.ghost.get('loopinv', ()) if sub in nm]
        for fn, arg in self.cinv:
            if e.check(st.pc, z3.Not(e.pure(st, fn, arg))) != 'unsat': raise SummFail('stated loop invariant does not hold on entry')
        self.phis()

    def phis(self):
        st = self.st
        fr = st.frames[-1]
        vals = self.e.eval_phis(st, self.H)
        self.phi_names = []
        for (nm, v), ins in zip(vals, fr.f.blocks[self.H]):
            self.phi_names.append(nm)
            w = width_of(self.e, ins.a[0])
            self.addvar('phi', nm, w, v)

    def addvar(self, kind, key, w, v0):
        if isinstance(v0, list): raise SummFail('aggregate')
        v = Var(kind, key, w, v0)
        self.vars[(kind, key)] = v
        self.order.append(v)
        return v

    # ---------- building the k-th state
    def generic(self, with_back=False):
        e = self.e
        G = self.st.copy()
        G.wlog = ()
        G.pending = None
        fr = G.frames[-1]
        k = self.k
        e.assume(G, z3.ULE(k, z3.BitVecVal(KMAX, 64)))
        for v in self.order:
            if v.form == 'free':
                at0 = v.at(0); v0 = v.v0
                if v.w == 1: e.assume(G, zb(at0) == zb(v0))
                else:
                    a = at0.off if v.ptr else at0
                    e.assume(G, bv(a, v.w) == bv(v.base(), v.w))
        for nm in self.phi_names: fr.regs[nm] = self.vars[('phi', nm)].at(k)
        fr.prev = None; fr.block = self.H; fr.idx = len(self.phi_names)
        for oid in self.modified:
            o = self.st.objs[oid]
            n = o.copy()
            node = o.sealed()
            if oid in self.region:
                node = Fresh('havoc')
                self.inexact = True
            elif oid in self.lanes:
                node = LaneNode(node, k, k, self.lanes[oid])
            elif oid in self.unknown:
                node = Fresh('unknown')
            n.node = node; n.cells = {}
            for v in self.order:
                if v.kind == 'cell' and v.key[0] == oid:
                    if oid in self.region and v.form != 'inv': pass
                    n.cells[v.key[1]] = (v.key[2], v.at(k))
                if v.kind == 'size' and v.key == oid: n.size = v.at(k)
            G.objs[oid] = n
        for c in self.invs: e.assume(G, c)
        for fn, arg in self.cinv: e.assume(G, e.pure(G, fn, arg))
        if with_back and self.back is not None:
            km1 = simp(k - 1)
            e.assume(G, z3.Or(k == 0, z3.substitute(self.back, (k, km1))))
            G.foralls = G.foralls + ((k, k_placeholder(self), z3.substitute(self.back, (k, k_placeholder(self)))),)
        return G

    def one_pass(self, G):
        """m trips through the body from G: (exits, backs)"""
        e = self.e
        exits, cur = [], [G]
        for t in range(self.m):
            nxt = []
            for s in cur:
                if t: e.enter(s, self.H)
                for r in e.explore(s, self.stop):
                    if len(r.frames) == self.d and r.pending == self.H: nxt.append(r)
                    else: exits.append(r)
            cur = nxt
            if len(cur) > 40: raise SummFail('too many paths in body')
        return exits, cur

    def backval(self, b, v):
        e = self.e
        if v.kind == 'phi':
            for nm, x in self.bphis(b):
                if nm == v.key: return x
        if v.kind == 'size': return b.objs[v.key].size
        oid, off, n = v.key
        o = b.objs.get(oid)
        if o is None: raise SummFail('object vanished')
        x = obj_read(e.ctx(b), o, off, n)
        if v.ptr and not isinstance(x, Ptr): x = e.int_ptr(b, x)
        return x

    def bphis(self, b):
        r = getattr(self, '_bp', {}).get(id(b))
        if r is None:
            r = self.e.eval_phis(b, self.H)
            if not hasattr(self, '_bp'): self._bp = {}
            self._bp[id(b)] = r
            self._keep = getattr(self, '_keep', []); self._keep.append(b)
        return r

    # ---------- discovery
    def note_writes(self, b):
        """add cell variables / lanes / regions for the writes of b's iteration. returns True if something is new"""
        new = False
        e = self.e
        for ent in b.wlog:
            oid, kind, off, n, val = ent
            if oid not in self.st.objs or oid in self.region: continue
            if kind == 'store' and type(off) is int:
                new |= self.cellvar(oid, off, n)
            elif kind in ('copy', 'fill') and type(off) is int and type(n) is int and n <= 160:
                bo = b.objs[oid]
                o = off
                while o < off + n:
                    c = bo.cells.get(o)
                    k = c[0] if c is not None and o + c[0] <= off + n else 1
                    new |= self.cellvar(oid, o, k)
                    o += k
            elif kind == 'store':
                if oid not in self.modified: self.modified.add(oid); new = True
                if oid not in self.lanes and oid not in self.unknown:
                    self.unknown.add(oid); new = True
                    # cells found while the position was still fixed: stores at a moving position took their place
                    seen = {(x[2], x[3]) for x in b.wlog if x[0] == oid and type(x[2]) is int}
                    drop = [v for v in self.order if v.kind == 'cell' and v.key[0] == oid and (v.key[1], v.key[2]) not in seen]
                    if drop:
                        self.order = [v for v in self.order if v not in drop]
                        self.vars = {(v.kind, v.key): v for v in self.order}
            else:
                self.modified.add(oid); self.to_region(oid); new = True
        for oid in list(self.st.objs):
            bo = b.objs.get(oid); so = self.st.objs[oid]
            if bo is None: continue
            if bo.alive != so.alive:
                raise NeedPeel('object freed in loop')
            if not same(bo.size, so.size if ('size', oid) not in self.vars else bo.size):
                self.first_guess(self.addvar('size', oid, 64, so.size)); self.modified.add(oid); new = True
        if len(b.ghost) != len(self.st.ghost) or b.hooks is not self.st.hooks:
            # input counters only
            for kk, vv in b.ghost.items():
                if isinstance(kk, tuple) and kk[0] == 'n': continue
                if kk in ('lp', 'pure'): continue
                if self.st.ghost.get(kk) != vv: raise SummFail('ghost state changes in loop')
        if b.caught != self.st.caught: raise SummFail('catch state')
        return new

    def to_region(self, oid):
        self.region.add(oid); self.modified.add(oid)
        self.lanes.pop(oid, None); self.unknown.discard(oid)
        self.order = [v for v in self.order if not (v.kind == 'cell' and v.key[0] == oid)]
        self.vars = {(v.kind, v.key): v for v in self.order}

    def cellvar(self, oid, off, n):
        if ('cell', (oid, off, n)) in self.vars: return False
        if oid in self.region: return False
        # overlap with different granularity -> bytes
        for v in list(self.order):
            if v.kind == 'cell' and v.key[0] == oid:
                o2, n2 = v.key[1], v.key[2]
                if o2 < off + n and off < o2 + n2:
                    if o2 <= off and off + n <= o2 + n2 and n2 == 1: return False
                    if all(('cell', (oid, off + i, 1)) in self.vars for i in range(n)): return False
                    lo, hi = min(o2, off), max(o2 + n2, off + n)
                    drop = [x for x in self.order if x.kind == 'cell' and x.key[0] == oid and x.key[1] < hi and lo < x.key[1] + x.key[2]]
                    for x in drop:
                        lo = min(lo, x.key[1]); hi = max(hi, x.key[1] + x.key[2])
                    self.order = [x for x in self.order if x not in drop]
                    for x in drop: del self.vars[(x.kind, x.key)]
                    for i in range(lo, hi): self.cellvar(oid, i, 1)
                    return True
        o = self.st.objs[oid]
        v0 = obj_read(self.e.ctx(self.st), o, off, n)
        v = self.addvar('cell', (oid, off, n), 8 * n, v0)
        self.modified.add(oid)
        self.first_guess(v)
        return True

    def guess(self, v, b, x):
        """initial template from the first iteration's value x (from k=0)"""
        if isinstance(x, Ptr) != v.ptr:
            if isinstance(x, Ptr) and not v.ptr:
                raise NeedPeel('pointer appears in loop')
            raise NeedPeel('pointer disappears')
        if v.ptr:
            if x.o != v.v0.o:
                raise NeedPeel('pointer changes object')
            x = x.off
        base = v.base()
        if same(x, base): return
        if v.w == 1: v.form = 'free'; return
        dlt = const_delta(x, base, v.w)
        if dlt is not None: v.form = 'aff'; v.c = dlt; return
        for c in (1, 2, 3, 4, 8):
            if same(simp(bv(base, v.w) << c), x): v.form = 'geo'; v.c = c; return
        v.form = 'free'

    def first_guess(self, v):
        for b in self.backs0:
            x = self.backval(b, v)
            if isinstance(x, Ptr) and x.o not in self.st.objs:
                o = b.objs.get(x.o)
                if o is not None and o.alive: raise NeedPeel('new object escapes iteration')
                v.form = 'junk'; continue
            if v.form == 'junk': continue
            if v.form == 'inv': self.guess(v, b, x)
            else:
                if isinstance(x, Ptr) != v.ptr or (v.ptr and x.o != v.v0.o): raise NeedPeel('pointer')
                if v.form in ('aff', 'geo'):
                    want = v.at(1)
                    xx = x.off if isinstance(x, Ptr) else x
                    ww = want.off if isinstance(want, Ptr) else want
                    if not same(xx, ww): v.form = 'free'

    def relate(self):
        """free variables that keep a constant distance from a templated one"""
        for v in self.order:
            if v.form != 'free' or v.w < 8 or v.uf is not None: continue
            for u in self.order:
                if u is v or u.w != v.w or u.form not in ('aff', 'geo'): continue
                ok = True
                for b in self.backs0:
                    x, y = self.backval(b, v), self.backval(b, u)
                    if isinstance(x, Ptr): x = x.off
                    if isinstance(y, Ptr): y = y.off
                    if const_delta(sub(x, y, v.w), sub(v.base(), u.base(), v.w), v.w) != 0: ok = False; break
                if ok: v.form = 'rel'; v.c = u; break

    def run(self):
        e = self.e
        self.unknown = set()
        # trip 0 from the real entry: discovers variables
        e.muted += 1; e.loopmode += 1
        try:
            mark0 = fresh_id()
            S0 = self.st.copy()
            S0.wlog = ()
            e.enter(S0, self.H)
            ex, backs = self.one_pass(S0)
            if not backs: raise NoBack('no back edge reachable')
            self.backs0 = backs
            for v in list(self.order):
                self.first_guess(v)
            self.relate()
            cand_done = False
            for rnd in range(14):
                if rnd == 13: raise SummFail('no fixpoint')
                mark = fresh_id()
                G = self.generic()
                allowed = {self.k.decl().name()} | {v.name for v in self.order if v.name} | {l.g_name for ls in self.lanes.values() for l in ls if getattr(l, 'g_name', None)}
                saved = (e.cmplog, e.andlog)
                e.cmplog, e.andlog = [], {}
                try:
                    gpc = G.pc
                    ex, backs = self.one_pass(G)
                finally:
                    cl, al = e.cmplog, e.andlog
                    e.cmplog, e.andlog = saved
                    if e.cmplog is not None: e.cmplog.extend(cl)
                    if e.andlog is not None: e.andlog.update(al)
                changed = False
                for b in backs: changed |= self.note_writes(b)
                if changed:
                    self.relate()
                    dbg('round', rnd, 'new writes'); continue
                # variables
                for v in list(self.order):
                    if v.form == 'free':
                        for b in backs:
                            x = self.backval(b, v)
                            if isinstance(x, Ptr) != v.ptr or (v.ptr and x.o != v.v0.o): raise NeedPeel('pointer changes object')
                        continue
                    want = v.at(simp(self.k + 1))
                    for b in backs:
                        x = self.backval(b, v)
                        if v.form == 'junk':
                            continue
                        if isinstance(x, Ptr) != isinstance(want, Ptr): raise NeedPeel('pointer kind')
                        if isinstance(x, Ptr):
                            if x.o != want.o:
                                o = b.objs.get(x.o)
                                if x.o not in self.st.objs and (o is None or not o.alive):
                                    v.form = 'junk'; changed = True; break
                                raise NeedPeel('pointer changes object')
                            q = eq(x.off, want.off)
                        else: q = eq(x, want, v.w)
                        if e.decide(b, q) != 1:
                            dbg('round', rnd, 'var', v.kind, v.key, v.form, v.c, 'not inductive:', x, 'want', want)
                            v.form = 'free'; v.uf = None; changed = True
                            for u in self.order:
                                if u.form == 'rel' and u.c is v: u.form = 'free'; u.uf = None
                            break
                if changed: continue
                # bounds / relational candidates
                if not cand_done:
                    cand_done = True
                    if self.candidates(cl, backs): changed = True
                    dbg('round', rnd, 'candidates', len(self.invs))
                else:
                    n0 = len(self.invs)
                    for b in backs: self.houdini(b)
                    changed = len(self.invs) != n0
                if changed: continue
                # lanes
                for oid in list(self.unknown):
                    ls = self.find_lanes(oid, backs, al)
                    self.unknown.discard(oid)
                    changed = True
                    if ls is None: self.to_region(oid)
                    else: self.lanes[oid] = ls
                if changed: continue
                for oid, ls in list(self.lanes.items()):
                    r = self.check_lanes(oid, ls, backs, al, mark, allowed, gpc)
                    if r == 'region': self.to_region(oid); changed = True
                    elif r: changed = True
                if changed: continue
                for b in backs:
                    for fn, arg in self.cinv:
                        if e.check(b.pc, z3.Not(e.pure(b, fn, arg))) != 'unsat': raise SummFail('stated loop invariant is not preserved')
                break
            self.make_back(backs, mark, allowed, gpc)
        finally:
            e.muted -= 1; e.loopmode -= 1
        self.inexact = bool(self.region) or any(v.form == 'free' for v in self.order) or any(l.V is None for ls in self.lanes.values() for l in ls)
        dbg('summary of', E.demangle(self.st.frames[-1].f.name)[:80], self.H, 'm', self.m, [(v.kind, v.key, v.form, v.c) for v in self.order if v.form != 'inv'], 'lanes', {o: [(l.kind, l.c, l.n, l.V is not None) for l in ls] for o, ls in self.lanes.items()}, 'region', self.region, 'invs', len(self.invs), 'inexact', self.inexact)

    def houdini(self, b):
        """drop the candidates that back path b does not preserve"""
        e = self.e
        cur = [(c, z3.substitute(c, (self.k, self.k + 1))) for c in self.invs]
        lk = self.links(b)
        while cur:
            q = z3.And(z3.Or(*[z3.Not(c1) for _, c1 in cur]) if len(cur) > 1 else z3.Not(cur[0][1]), *lk)
            e._align(b.pc)
            e.solver.set('timeout', 5000)
            t = time.time()
            r = e.solver.check(q)
            e.stats['queries'] += 1; e.stats['qtime'] += time.time() - t
            if r == z3.unsat: break
            if r == z3.sat:
                m = e.solver.model()
                n = len(cur)
                cur = [x for x in cur if not z3.is_false(m.eval(x[1], model_completion=True))]
                if len(cur) < n: continue
            # undecided together: one by one
            cur = [x for x in cur if e.check(b.pc, z3.And(z3.Not(x[1]), *lk), 1500) == 'unsat']
            break
        self.invs = [c for c, _ in cur]

    def links(self, b):
        """the free variables at k+1 are what this back path computed"""
        cs = []
        for v in self.order:
            if v.form != 'free': continue
            x = self.backval(b, v)
            t = v.at(simp(self.k + 1))
            if v.w == 1: cs.append(zb(t) == zb(x)); continue
            if isinstance(x, Ptr): x = x.off
            cs.append(bv(t.off if v.ptr else t, v.w) == bv(x, v.w))
        return cs

    def candidates(self, cl, backs):
        e = self.e; k = self.k
        kn = {k.decl().name()}
        out = []
        seen = set()
        def put(c):
            c = simpb(c)
            if type(c) is int: return
            if c.get_id() in seen: return
            seen.add(c.get_id()); out.append(c)
        def ext64(t, w, s):
            if type(t) is int: return z3.BitVecVal((sgn(t, w) if s else t) & M64, 64)
            if w == 64: return t
            if w > 64: return z3.Extract(63, 0, t)
            return z3.SignExt(64 - w, t) if s else z3.ZeroExt(64 - w, t)
        mk = lambda t: (type(t) is not int) and mentions(t, kn)
        lim = 0
        for x, y, w in cl:
            if w < 8: continue
            if mk(x) == mk(y): continue
            if mk(y): x, y = y, x
            if fresh_names(y, self.mark_entry, set()): continue
            # x depends on k, y does not
            x1 = subst(x, k, simp(k + 1))
            c = const_delta(x1, x, w)
            if c is not None and c != 0:
                x0 = subst(x, k, 0)
                cs = sgn(c, w)
                for s in (False, True) if w < 64 else (False,):
                    dlt = (ext64(y, w, s) - ext64(x0, w, s)) if cs > 0 else (ext64(x0, w, s) - ext64(y, w, s))
                    put(z3.ULE(k * abs(cs), dlt))
                    put(z3.ULE(k * abs(cs), dlt + abs(cs)))
                    put(z3.ULT(k * abs(cs), dlt + 1))
            else:
                X, Y = bv(x, w), bv(y, w)
                put(z3.ULE(X, Y)); put(z3.UGE(X, Y)); put(X <= Y); put(X >= Y); put(z3.ULT(X, Y))
                t = zext_arg(X)
                if t is not None and w == 64:
                    # a narrow counter compared as a wide number: it does not wrap before it reaches the bound
                    c = const_delta(subst(t, k, simp(k + 1)), t, t.size())
                    if c is not None and 0 < sgn(c, t.size()):
                        cs = sgn(c, t.size())
                        dlt = Y - z3.ZeroExt(64 - t.size(), bv(subst(t, k, 0), t.size()))
                        put(z3.ULE(k * cs, dlt)); put(z3.ULE(k * cs, dlt + cs))
        for v in self.order:
            if v.form == 'geo':
                t = bv(v.at(k).off if v.ptr else v.at(k), v.w)
                kk = k * v.c
                kw = kk if v.w == 64 else (z3.Extract(v.w - 1, 0, kk) if v.w < 64 else z3.ZeroExt(v.w - 64, kk))
                put(z3.And(z3.ULT(kk, v.w), z3.LShR(t, kw) == bv(v.base(), v.w)))
        fv = [v for v in self.order if v.form == 'free' and v.w > 1]
        for v in fv:
            t = v.at(k); t = t.off if v.ptr else t
            b0 = bv(v.base(), v.w)
            put(z3.UGE(t, b0)); put(t >= b0); put(z3.ULE(t, b0)); put(t <= b0)
            if v.w == 64: put(z3.ULE(t - b0, k))
            else: put(z3.ULE(z3.ZeroExt(64 - v.w, t) - z3.ZeroExt(64 - v.w, b0), k)) if v.w < 64 else None
            for u in self.order:
                if u is v or u.w != v.w or u.form in ('inv', 'junk'): continue
                s = u.at(k); s = s.off if u.ptr else s
                put(bv(t, v.w) - bv(s, v.w) == b0 - bv(u.base(), v.w))
            if v.ptr and v.v0.o in self.st.objs:
                put(z3.ULE(t, bv(self.st.objs[v.v0.o].size, 64)))
        # for variables of pointer type: stay inside the object
        for v in self.order:
            if v.ptr and v.form == 'aff' and v.v0.o in self.st.objs:
                so = self.vars.get(('size', v.v0.o))
                size = so.at(k) if so else self.st.objs[v.v0.o].size
                put(z3.ULE(bv(v.at(k).off, 64), bv(size, 64)))
        # base case
        res = []
        for c in out:
            c0 = z3.substitute(c, (k, z3.BitVecVal(0, 64)))
            pc = self.generic0().pc
            if e.check(pc, z3.Not(c0), 1500) == 'unsat': res.append(c)
        self.invs = res
        return bool(res)

    def generic0(self):
        if getattr(self, '_g0', None) is None:
            G = self.st.copy()
            for v in self.order:
                if v.form == 'free':
                    at0 = v.at(0)
                    if v.w == 1: self.e.assume(G, zb(at0) == zb(v.v0))
                    else: self.e.assume(G, bv(at0.off if v.ptr else at0, v.w) == bv(v.base(), v.w))
            self._g0 = G
        return self._g0

    def sym_writes(self, b, oid):
        return [x for x in b.wlog if x[0] == oid and x[1] == 'store' and type(x[2]) is not int]

    def find_lanes(self, oid, backs, al):
        k = self.k; e = self.e
        ws = [self.sym_writes(b, oid) for b in backs]
        if any(len(w) != len(ws[0]) for w in ws): 
            dbg('lanes differ across paths'); return None
        if not ws: return None
        ls = []
        for i in range(len(ws[0])):
            off, n = ws[0][i][2], ws[0][i][3]
            for w in ws[1:]:
                if w[i][3] != n or not same(w[i][2], off): dbg('lane offsets differ'); return None
            l = Lane2(oid, n)
            l.off = off
            c = const_delta(subst(off, k, simp(k + 1)), off)
            if c is not None:
                if c == 0: dbg('stride 0 store'); return None
                l.kind = 'lin'; l.c = sgn(c, 64); l.A = subst(off, k, 0)
            else:
                mm = self.match_mask(off, al)
                if mm is None: dbg('lane offset not understood', off); return None
                l.kind = 'mask'; l.A, l.M, l.c = mm
                if n != 1: return None
            l.g_name = f'g!{fresh_id()}'
            l.g = z3.Function(l.g_name, z3.BitVecSort(64), z3.BitVecSort(8 * n))
            ls.append(l)
        if any(l.kind == 'mask' for l in ls):
            if len(ls) != 1: return None
            l = ls[0]
            # power-of-two mask, at most M+1 iterations
            M = bv(l.M, 64)
            for b in backs:
                if e.check(b.pc, z3.Not(z3.And(M & (M + 1) == 0, z3.ULE(k, M)))) != 'unsat':
                    dbg('mask lane: bound not provable'); return None
        else:
            if len({l.c for l in ls}) > 1: return None
            # byte lanes, sorted by start offset; need constant distances
            for l in ls[1:]:
                if const_delta(l.A, ls[0].A) is None: dbg('lane distance'); return None
        return ls

    def match_mask(self, off, al):
        k = self.k
        ent = al.get(off.get_id())
        if ent is None:
            # the offset may be zext/scaled of a logged term; try every logged term
            for i, (x, y, r) in al.items():
                if same(r, off): ent = (x, y, r); break
        if ent is None: return None
        x, y, r = ent
        for B, M in ((x, y), (y, x)):
            if type(M) is not int and mentions(M, {k.decl().name()}): continue
            if type(B) is int: continue
            w = B.size()
            if w != 64: continue
            c = const_delta(subst(B, k, simp(k + 1)), B)
            if c == 1: return subst(B, k, 0), M, 1
        return None

    def check_lanes(self, oid, ls, backs, al, mark, allowed, gpc):
        """fix lane values from the back states; True if something changed"""
        e = self.e; k = self.k
        ws = [self.sym_writes(b, oid) for b in backs]
        changed = False
        for i, l in enumerate(ls):
            vals = []
            for b, w in zip(backs, ws):
                if len(w) != len(ls) or w[i][3] != l.n: return 'region'
                if not same(w[i][2], l.off) and e.decide(b, eq(w[i][2], l.off)) != 1: return 'region'
                v = w[i][4]
                if isinstance(v, Ptr): return 'region'
                vals.append(v)
            if l.kind == 'mask':
                M = bv(l.M, 64)
                for b in backs:
                    if e.check(b.pc, z3.Not(z3.And(M & (M + 1) == 0, z3.ULE(k, M)))) != 'unsat': return 'region'
            V = vals[-1]
            if any(not same(V, x) for x in vals[:-1]):
                for b, x in zip(backs[:-1], vals[:-1]):
                    pcs = b.pc.since(gpc)
                    cond = z3.And(*pcs) if pcs else z3.BoolVal(True)
                    if fresh_names(cond, mark, allowed): V = None; break
                    V = simp(z3.If(cond, bv(x, 8 * l.n), bv(V, 8 * l.n)))
            if V is not None and type(V) is not int and (fresh_names(V, mark, allowed) or mentions(V, {x.g_name for x in ls if x.V is None})):
                V = None
            if l.V is not None:
                if V is None: return 'region'
                if not same(l.V, V) and e.check(backs[0].pc, bv(l.V, 8 * l.n) != bv(V, 8 * l.n)) != 'unsat': return 'region'
            elif V is not None:
                l.V = V; changed = True
                if fresh_names(V, self.mark_entry, allowed | {k.decl().name()}) and False: pass
        return changed

    def make_back(self, backs, mark, allowed, gpc):
        """Back(k): disjunction over back paths of (path condition /\\ update of free variables)"""
        e = self.e; k = self.k
        dis = []
        for b in backs:
            cs = [c for c in b.pc.since(gpc) if not fresh_names(c, mark, allowed)]
            for v in self.order:
                if v.form == 'free':
                    x = self.backval(b, v)
                    if isinstance(x, Ptr): x = x.off
                    if fresh_names(x, mark, allowed) if type(x) is not int else False: continue
                    t = v.at(simp(k + 1))
                    if v.w == 1: cs.append(zb(t) == zb(x))
                    else: cs.append(bv(t.off if v.ptr else t, v.w) == bv(x, v.w))
            dis.append(z3.And(*cs) if cs else z3.BoolVal(True))
        self.back = z3.Or(*dis) if len(dis) > 1 else dis[0]
        cs = list(self.invs)
        if cs: self.back = z3.And(self.back, *cs)

    def final(self):
        e = self.e
        self._bp = {}
        e.loopmode += 1
        try:
            G = self.generic(with_back=True)
            G.abstract = max(G.abstract, 2 if self.inexact else 1)
            if e.check(G.pc, z3.BoolVal(True)) == 'unsat': raise SummFail('generic state infeasible')
            outer = self.st.wlog
            ex, backs = self.one_pass(G)
        finally:
            e.loopmode -= 1
        # enclosing loop's write log: report everything this loop may have written
        for x in ex:
            if outer is None: x.wlog = None
            else:
                add_ = []
                for v in self.order:
                    if v.kind == 'cell' and v.form != 'inv': add_.append((v.key[0], 'store', v.key[1], v.key[2], None))
                for oid in self.modified:
                    if oid in self.region or oid in self.lanes: add_.append((oid, 'region', None, None, None))
                x.wlog = outer + tuple(add_) + (x.wlog or ())
        return ex

def k_placeholder(s):
    if getattr(s, '_kp', None) is None: s._kp = z3.BitVec(f'q!{fresh_id()}', 64)
    return s._kp

class Lane2(Lane):
    __slots__ = ('g_name',)

class LaneNode(mem.Node):
    """memory content after k iterations; prev = content at loop entry; ksym the symbol in lane terms"""
    __slots__ = ('prev', 'k', 'ksym', 'lanes')
    def __init__(s, prev, k, ksym, lanes):
        s.prev = prev; s.k = k; s.ksym = ksym; s.lanes = [x for x in lanes]
    def val(s, l, j):
        if l.V is None: return l.g(bv(j, 64))
        return subst(l.V, s.ksym, j)
    def byte_lanes(s):
        """[(start, byte, lane)] in priority order (last writer first)"""
        r = []
        for idx, l in enumerate(s.lanes):
            for b in range(l.n): r.append((idx, b, l))
        base = s.lanes[0].A
        def key(x):
            dl = sgn(const_delta(add(x[2].A, x[1]), base), 64)
            return (dl if x[2].c > 0 else -dl, -x[0])
        r.sort(key=key)
        return r
    def rb(s, ctx, off):
        l0 = s.lanes[0]
        if l0.kind == 'mask':
            x = unmask(off, l0.M)
            # (x & M) - A == x - A modulo M+1 (M+1 is a proved power of two)
            j = simp((bv(off if x is None else x, 64) - bv(l0.A, 64)) & bv(l0.M, 64))
            c = ult(j, s.k)
            if x is None: c = band(ule(off, l0.M), c)
            d = ctx.decide(c)
            if d == 0: return s.prev.rb(ctx, off)
            v = s.val(l0, j)
            if d == 1: return v
            return ite(c, v, s.prev.rb(ctx, off), 8)
        conds = []
        final = None
        for idx, b, l in s.byte_lanes():
            c, j = s.match(l, off, b)
            d = ctx.decide(c)
            if d == 0: continue
            v = s.val(l, j)
            v = extract_byte(v, b, l.n) if l.n > 1 else v
            if d == 1: final = v; break
            conds.append((c, v))
        if final is None: final = s.prev.rb(ctx, off)
        for c, v in reversed(conds): final = ite(c, v, final, 8)
        return final
    def match(s, l, off, b):
        if l.c > 0: df = sub(off, add(l.A, b)); c = l.c
        else: df = sub(add(l.A, b), off); c = -l.c
        if c == 1: return ult(df, s.k), df
        if c & (c - 1) == 0:
            sh = c.bit_length() - 1
            j = df >> sh if type(df) is int else simp(z3.LShR(df, sh))
            z = eq(simp(bv(df, 64) & (c - 1)), 0)
            return band(z, ult(j, s.k)), j
        j = df // c if type(df) is int else simp(z3.UDiv(df, z3.BitVecVal(c, 64)))
        z = eq(simp(bv(df, 64) - bv(j, 64) * c), 0)
        return band(z, ult(j, s.k)), j
    def rn(s, ctx, off, n):
        l0 = s.lanes[0]
        if l0.kind == 'mask': return None
        if len(s.lanes) == 1 and l0.n == n and abs(l0.c) >= n:
            c, j = s.match(l0, off, 0)
            d = ctx.decide(c)
            if d == 1: return s.val(l0, j)
        for idx, b, l in s.byte_lanes():
            for i in range(n):
                c, j = s.match(l, add(off, i), b)
                if ctx.decide(c) != 0: return None
        return ctx_rn(ctx, s.prev, off, n)

def unmask(off, M):
    if type(off) is int: return None
    ent = E.ANDMAP.get(off.get_id())
    if ent is None: return None
    x, y, r = ent
    if same(y, M): return x
    if same(x, M): return y
    return None

def same(a, b):
    if type(a) is int and type(b) is int: return a == b
    if type(a) is int or type(b) is int:
        x, y = (a, b) if type(a) is int else (b, a)
        if isinstance(y, Ptr): return False
        return False
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and same(a.off, b.off)
    return a.eq(b)

def try_summary(e, st, H, body, d, m):
    s = Summary(e, st.copy(), H, body, d, m)
    s.mark_entry = fresh_id()
    s.run()
    return s

def summarise(e, st, H, body, d):
    """returns exit states"""
    exits = []
    pend = [(st, 0)]
    best = None
    while pend:
        s, peeled = pend.pop()
        chosen = None
        first_err = None
        ms = [1]
        per = period(e, s, H, body, d)
        if per and per > 1: ms = [per]
        for m in ms + [x for x in ([] if per else [2, 3, 4]) if False]:
            try:
                c = try_summary(e, s, H, body, d, m)
                if chosen is None or (chosen.inexact and not c.inexact): chosen = c
                if not c.inexact: break
            except NeedPeel as x:
                first_err = x
                dbg('needs peel', x)
            except SummFail as x:
                first_err = x
                dbg('failed', x)
        if chosen is not None and (not chosen.inexact or chosen.cinv or peeled >= e.opts['peel']):
            exits.extend(chosen.final()); continue
        if peeled >= e.opts['peel'] and not (isinstance(first_err, NoBack) and peeled < 40):
            if chosen is None: raise first_err
            exits.extend(chosen.final()); continue
        fallback = chosen
        # peel one iteration (obligations active, storage growth in loop mode)
        e.loopmode += 1
        try:
            p = s.copy()
            e.enter(p, H)
            rs = e.explore(p, ('depth', d, H, body))
        finally:
            e.loopmode -= 1
        nb = []
        for r in rs:
            if len(r.frames) == d and r.pending == H: nb.append(r)
            else: exits.append(r)
        if len(nb) + len(pend) > 8: raise SummFail('peeling branches')
        for r in nb: pend.append((r, peeled + 1))
    return exits

def period(e, st, H, body, d):
    """smallest m such that header phis with concrete values repeat with period m (unrolled trace from the entry)"""
    e.muted += 1; e.loopmode += 1
    try:
        s = st.copy(); s.wlog = None
        trace = []
        for i in range(13):
            vals = e.eval_phis(s, H)
            trace.append({n: v for n, v in vals if type(v) is int})
            s2 = s.copy()
            e.enter(s2, H)
            rs = [r for r in e.explore(s2, ('depth', d, H, body)) if len(r.frames) == d and r.pending == H]
            if len(rs) != 1: break
            s = rs[0]
        names = [n for n in trace[0] if all(n in t for t in trace)]
        if len(trace) < 5: return None
        for m in (1, 2, 3, 4, 5, 6):
            if len(trace) < 2 * m + 1: break
            ok = True
            for n in names:
                if len({(trace[i + m][n] - trace[i][n]) for i in range(len(trace) - m)}) != 1: ok = False; break
            if ok: return m
        return None
    except (OutOfReach, PathEnd):
        return None
    finally:
        e.muted -= 1; e.loopmode -= 1
