"""Contracts (trusted) of external library functions and intrinsics, and the plv_* specification vocabulary."""
import z3
from terms import *
from mem import *
from irparse import *
from engine import CALLED, Events, PathEnd, OutOfReach, Fork, demangle, Frame
import engine as E

MAXALLOC = 1 << 46

def install(e):
    m = e.models
    ign = lambda e, st, fr, ins, a, rt, args: None
    for n in ('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch', 'llvm.donothing',
              '__cxa_atexit', '__cxa_thread_atexit', 'pthread_mutex_destroy', '_ZNSt6thread5yieldEv', 'sched_yield',
              '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '_ZSt21ios_base_library_initv', 'llvm.stackrestore', 'llvm.va_end',
              '_ZNSt18condition_variable10notify_oneEv', '_ZNSt18condition_variable10notify_allEv',
              '_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev'):
        m[n] = ign
    m['__cxa_atexit'] = lambda *a: 0
    m['pthread_mutex_destroy'] = lambda *a: 0
    m['sched_yield'] = lambda *a: 0
    m['llvm.stacksave'] = lambda *a: NULL
    m['llvm.assume'] = m_assume_llvm
    m['llvm.expect'] = lambda e, st, fr, ins, a, rt, args: a[0]
    m['llvm.launder.invariant.group'] = m['llvm.strip.invariant.group'] = m['llvm.threadlocal.address'] = lambda e, st, fr, ins, a, rt, args: a[0]
    m['llvm.is.constant'] = lambda *a: 0
    m['llvm.objectsize'] = lambda e, st, fr, ins, a, rt, args: mask(rt.w)
    m['llvm.memcpy'] = m['llvm.memmove'] = m_memcpy
    m['llvm.memset'] = m_memset
    m['llvm.trap'] = m_abort
    m['llvm.bswap'] = m_bswap
    for n in ('umax', 'umin', 'smax', 'smin'):
        m['llvm.' + n] = mk_minmax(n)
    m['llvm.abs'] = m_abs
    m['llvm.ctpop'] = m_ctpop
    m['llvm.ctlz'] = m_ctlz
    m['llvm.cttz'] = m_cttz
    m['llvm.fshl'] = mk_fsh(True); m['llvm.fshr'] = mk_fsh(False)
    for o in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
        m[f'llvm.{o}.with.overflow'] = mk_ovf(o)
    m['llvm.usub.sat'] = lambda e, st, fr, ins, a, rt, args: ite(ult(a[0], a[1], rt.w), 0, sub(a[0], a[1], rt.w), rt.w)
    m['llvm.fabs'] = lambda e, st, fr, ins, a, rt, args: (a[0] & mask(rt.w - 1)) if isc(a[0]) else simp(a[0] & z3.BitVecVal(mask(rt.w - 1), rt.w))
    m['llvm.copysign'] = lambda e, st, fr, ins, a, rt, args: simp((bv(a[0], rt.w) & mask(rt.w - 1)) | (bv(a[1], rt.w) & (1 << (rt.w - 1))))
    m['fabs'] = m['fabsf'] = m['llvm.fabs']
    for n, rm in (('trunc', z3.RTZ), ('floor', z3.RTN), ('ceil', z3.RTP)):
        m['llvm.' + n] = mk_round(rm); m[n] = m[n + 'f'] = mk_round(rm)
    m['modf'] = mk_modf('double'); m['modff'] = mk_modf('float')
    m['llvm.eh.typeid.for'] = m_typeid
    # allocation
    for n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'): m[n] = m_new
    m['calloc'] = m_calloc
    for n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'): m[n] = m_free
    # memory functions
    m['memcpy'] = m['memmove'] = m_memcpy_r
    m['memset'] = m_memset_r
    m['memcmp'] = m['bcmp'] = m_memcmp
    m['memchr'] = m_memchr
    m['strlen'] = m_strlen
    m['isalnum'] = m_isalnum
    m['isspace'] = m_isspace
    m['isdigit'] = lambda e, st, fr, ins, a, rt, args: ite(ult(sub(a[0], 48, 32), 10, 32), 1, 0, 32)
    m['abs'] = m_abs
    m['labs'] = m['llabs'] = m_abs
    # exceptions
    m['__cxa_allocate_exception'] = m_cxa_alloc
    m['__cxa_free_exception'] = ign
    m['__cxa_throw'] = m_cxa_throw
    m['__cxa_begin_catch'] = m_begin_catch
    for c in ('13runtime_error', '11logic_error', '16invalid_argument', '12out_of_range', '12length_error', '12domain_error', '11range_error', '14overflow_error'):
        for v in ('C1EPKc', 'C2EPKc', 'C1ERKS_', 'C2ERKS_', 'C1EOS_', 'D1Ev', 'D2Ev', 'D0Ev',
                  'C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'): m[f'_ZNSt{c}{v}'] = ign
    m['__cxa_init_primary_exception'] = m_init_primary
    m['_ZNSt15__exception_ptr13exception_ptrC1EPv'] = m_exptr
    m['_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv'] = m['_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv'] = ign
    m['_ZSt17current_exceptionv'] = m_current_exc
    m['_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE'] = m_rethrow_exc
    m['__cxa_end_catch'] = m_end_catch
    m['__cxa_rethrow'] = m_rethrow
    m['__clang_call_terminate'] = m['_ZSt9terminatev'] = m_terminate
    m['abort'] = m['__assert_fail'] = m['_ZSt17__glibcxx_assert_failPKciS0_S0_'] = m_abort
    m['__cxa_pure_virtual'] = m_abort
    m['exit'] = m['_exit'] = m_exit
    m['__cxa_guard_acquire'] = m_guard_acq
    m['__cxa_guard_release'] = m_guard_rel
    for n, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
                  ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                  ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
                  ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'), ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
                  ('_ZSt20__throw_system_errori', '_ZTISt12system_error'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
                  ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error'), ('_ZSt20__throw_future_errori', '_ZTISt12future_error'),
                  ('_ZSt21__throw_bad_exceptionv', '_ZTISt13bad_exception'),
                  ('_ZSt26__throw_bad_variant_accessPKc', '_ZTISt18bad_variant_access'),
                  ('_ZSt21__throw_bad_weak_ptrv', '_ZTISt12bad_weak_ptr')):
        m[n] = mk_throw(ti)
    # threads
    m['pthread_mutex_lock'] = m_lock
    m['pthread_mutex_unlock'] = m_unlock
    m['pthread_mutex_trylock'] = m_trylock
    m['pthread_self'] = lambda *a: 1
    m['__errno_location'] = m_errno
    m['_ZNSt3_V215system_categoryEv'] = m['_ZNSt3_V216generic_categoryEv'] = m_errno
    # vocabulary
    m['plv_u64'] = mk_in(64); m['plv_u32'] = mk_in(32); m['plv_u16'] = mk_in(16); m['plv_u8'] = mk_in(8)
    m['plv_bool'] = m_bool
    m['plv_range'] = m_range
    m['plv_bytes'] = m_bytes
    m['plv_witness'] = m_witness
    m['plv_index'] = m_index
    m['plv_assume'] = m_assume
    m['plv_assert'] = m_assert
    m['plv_reach'] = m_reach
    m['plv_havoc'] = m_havoc
    m['plv_symbolic'] = lambda *a: 1
    m['plv_bounded'] = lambda e, st, fr, ins, a, rt, args: e.opts['bounded']
    m['plv_shared'] = m_shared
    m['plv_mutex'] = m_mutexhook
    m['plv_contracts'] = lambda e, *a: int(bool(e.replace))
    m['plv_loop_invariant'] = m_loopinv
    m['plv_held'] = m_held
    m['plv_objsize'] = m_objsize
    m['plv_alive'] = m_alive
    m['plv_forall_eq'] = m_forall_eq
    m['plv_uf'] = m_uf
    m['plv_vec_grow'] = m_vec_grow
    m['plv_elastic'] = lambda *a: None
    for t, sz in (('h', 1), ('c', 1), ('a', 1), ('t', 2), ('s', 2), ('j', 4), ('i', 4), ('l', 8), ('m', 8), ('St4byte', 1), ('d', 8), ('f', 4)):
        sub_ = 'S0_' if len(t) > 1 else t
        vp = f'_ZNSt6vectorI{t}SaI{sub_ if len(t)>1 else t}EE'
        e.vec_sz[vp] = sz
    e.models_vec = True

def string_arg(e, st, p):
    o = st.objs[p.o]
    out = []
    off = p.off
    for i in range(200):
        b = obj_read(e.ctx(st), o, off + i, 1)
        if type(b) is not int: return '?'
        if b == 0: break
        out.append(b)
    return bytes(out).decode('latin1')

# ---------------------------------------------------------------- spec vocabulary
def in_name(e, st, base):
    n = st.ghost.get(('n', base), 0)
    st.ghost = dict(st.ghost); st.ghost[('n', base)] = n + 1
    return base if n == 0 else f'{base}#{n}'

def add_input(st, rec): st.inputs = st.inputs + (rec,)

def mk_in(w):
    def f(e, st, fr, ins, a, rt, args):
        nm = in_name(e, st, string_arg(e, st, a[0]))
        v = z3.BitVec(f'in.{nm}!{fresh_id()}', w)
        add_input(st, ('u', nm, v, w))
        return v
    return f

def m_bool(e, st, fr, ins, a, rt, args):
    nm = in_name(e, st, string_arg(e, st, a[0]))
    v = z3.BitVec(f'in.{nm}!{fresh_id()}', 8)
    e.assume(st, z3.ULE(v, 1))
    add_input(st, ('u', nm, v, 8))
    if isinstance(rt, IntTy) and rt.w == 1: return simpb(v == 1)
    return v

def m_range(e, st, fr, ins, a, rt, args):
    nm = in_name(e, st, string_arg(e, st, a[0]))
    lo, hi = a[1], a[2]
    if isc(lo) and isc(hi) and lo == hi:
        add_input(st, ('u', nm, z3.BitVecVal(lo, 64), 64))
        return lo
    v = z3.BitVec(f'in.{nm}!{fresh_id()}', 64)
    e.assume(st, ule(lo, v)); e.assume(st, ule(v, hi))
    add_input(st, ('u', nm, v, 64))
    return v

def m_bytes(e, st, fr, ins, a, rt, args):
    nm = in_name(e, st, string_arg(e, st, a[0]))
    n = a[1]
    arr = z3.Array(f'in.{nm}!{fresh_id()}', z3.BitVecSort(64), z3.BitVecSort(8))
    o = e.new_obj(st, n, 'heap', Fresh(nm, arr), 'input ' + nm)
    add_input(st, ('b', nm, arr, n))
    return Ptr(o.id, 0)

def m_witness(e, st, fr, ins, a, rt, args):
    v = mk_in(64)(e, st, fr, ins, a, rt, args)
    st.witness = st.witness + (v,)
    return v

def m_index(e, st, fr, ins, a, rt, args):
    v = m_witness(e, st, fr, ins, a, rt, args)
    e.assume(st, ult(v, a[1]))
    if e.check(st.pc, z3.BoolVal(True)) == 'unsat': raise PathEnd('assume')
    return v

def as_bool(v, w):
    if type(v) is int: return 1 if v else 0
    if w == 1: return v
    return simpb(v != 0)

def m_assume(e, st, fr, ins, a, rt, args):
    c = as_bool(a[0], args[0][0].w)
    e.assume(st, c)
    if type(c) is not int and e.check(st.pc, z3.BoolVal(True)) == 'unsat':
        raise PathEnd('assume')

def m_assume_llvm(e, st, fr, ins, a, rt, args):
    return None

def m_assert(e, st, fr, ins, a, rt, args):
    lab = string_arg(e, st, a[1])
    e.oblige(st, as_bool(a[0], args[0][0].w), 'assert:' + lab)

def m_reach(e, st, fr, ins, a, rt, args):
    lab = string_arg(e, st, a[0])
    if not e.muted:
        e.reached.add(lab)

def m_havoc(e, st, fr, ins, a, rt, args):
    """havoc n bytes at p with a fresh symbolic (an environment step / callee frame)"""
    nm = in_name(e, st, string_arg(e, st, a[0]))
    p, n = a[1], a[2]
    o = e.chk_access(st, p, n, 'havoc')
    if type(n) is int and n in (1, 2, 4, 8):
        v = z3.BitVec(f'in.{nm}!{fresh_id()}', 8 * n)
        add_input(st, ('u', nm, v, 8 * n))
        e.store(st, p, n, v)
        return
    arr = z3.Array(f'in.{nm}!{fresh_id()}', z3.BitVecSort(64), z3.BitVecSort(8))
    add_input(st, ('b', nm, arr, n))
    r = o.copy(); r.node = Copy(o.sealed(), p.off, n, Fresh(nm, arr), 0); r.cells = {}
    if st.wlog is not None: st.wlog = st.wlog + ((p.o, 'copy', p.off, n, None),)
    st.objs[p.o] = r

def m_uf(e, st, fr, ins, a, rt, args):
    """uninterpreted function of up to 3 u64 args: plv_uf(name, a, b, c)"""
    nm = string_arg(e, st, a[0])
    f = z3.Function('uf.' + nm, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    return f(bv(a[1], 64), bv(a[2], 64), bv(a[3], 64))

def m_shared(e, st, fr, ins, a, rt, args):
    """plv_shared(ptr, size, fn, arg)"""
    p, n, f, arg = a
    st.hooks = dict(st.hooks)
    fo = st.objs[f.o]
    st.hooks[('shared', p.o, p.off)] = (p.off, p.off + n, fo.fn, arg)
    st.hooks[('shared', p.o)] = st.hooks.get(('shared', p.o), ()) + ((p.off, p.off + n, fo.fn, arg),)

def m_loopinv(e, st, fr, ins, a, rt, args):
    st.ghost = dict(st.ghost)
    st.ghost['loopinv'] = st.ghost.get('loopinv', ()) + ((string_arg(e, st, a[0]), st.objs[a[1].o].fn, a[2]),)

def m_mutexhook(e, st, fr, ins, a, rt, args):
    """plv_mutex(mutex, acquire_fn, release_fn, arg)"""
    p, f, g, arg = a
    st.hooks = dict(st.hooks)
    st.hooks[('mutex', p.o, p.off)] = (st.objs[f.o].fn if f.o else None, st.objs[g.o].fn if g.o else None, arg)

def m_held(e, st, fr, ins, a, rt, args):
    return 1 if (a[0].o, a[0].off) in st.ghost.get('locks', ()) else 0

def m_objsize(e, st, fr, ins, a, rt, args):
    p = a[0]
    if p.o == 0 or p.o not in st.objs: return 0
    return sub(st.objs[p.o].size, p.off)

def m_alive(e, st, fr, ins, a, rt, args):
    p = a[0]
    o = st.objs.get(p.o)
    return 1 if o is not None and o.alive and p.o else 0

def m_forall_eq(e, st, fr, ins, a, rt, args):
    """plv_forall_eq(p, q, n): assume bytes equal on [0,n) (only usable in callee contracts)"""
    raise OutOfReach('forall_eq')

# ---------------------------------------------------------------- memory
def asptr(e, st, v): return v if isinstance(v, Ptr) else e.int_ptr(st, v)

def m_new(e, st, fr, ins, a, rt, args):
    n = a[0]
    if type(n) is int:
        if n > MAXALLOC: raise PathEnd('alloc')
    else:
        e.assume(st, ule(n, MAXALLOC))
        if e.check(st.pc, z3.BoolVal(True)) == 'unsat': raise PathEnd('alloc')
    o = e.new_obj(st, n, 'heap', Fresh('heap'), 'heap object from ' + demangle(fr.f.name)[:80])
    return Ptr(o.id, 0)

def m_calloc(e, st, fr, ins, a, rt, args):
    n = mul(a[0], a[1])
    o = e.new_obj(st, n, 'heap', Zero(), 'calloc')
    return Ptr(o.id, 0)

def m_free(e, st, fr, ins, a, rt, args):
    e.free(st, asptr(e, st, a[0]), 'free')

def m_memcpy(e, st, fr, ins, a, rt, args):
    e.memcpy(st, asptr(e, st, a[0]), asptr(e, st, a[1]), a[2])
def m_memcpy_r(e, st, fr, ins, a, rt, args):
    e.memcpy(st, asptr(e, st, a[0]), asptr(e, st, a[1]), a[2]); return a[0]
def m_memset(e, st, fr, ins, a, rt, args):
    v = a[1]
    if type(v) is int: v &= 255
    elif v.size() > 8: v = simp(z3.Extract(7, 0, v))
    e.memset(st, asptr(e, st, a[0]), v, a[2])
def m_memset_r(e, st, fr, ins, a, rt, args):
    m_memset(e, st, fr, ins, a, rt, args); return a[0]

def rd(e, st, p, i): return obj_read(e.ctx(st), st.objs[p.o], add(p.off, i), 1)

def m_memcmp(e, st, fr, ins, a, rt, args):
    p, q, n = asptr(e, st, a[0]), asptr(e, st, a[1]), a[2]
    if type(n) is not int:
        # bounded by a small constant?  otherwise a quantified contract
        if e.decide(st, eq(n, 0)) == 1: n = 0
    if type(n) is int:
        if n == 0: return 0
        e.chk_access(st, p, n, 'memcmp'); e.chk_access(st, q, n, 'memcmp')
        if n <= 256:
            r = 0
            for i in range(n - 1, -1, -1):
                x, y = rd(e, st, p, i), rd(e, st, q, i)
                r = ite(eq(x, y, 8), r, ite(ult(x, y, 8), mask(32), 1, 32), 32)
            return r
    if e.decide(st, eq(n, 0)) is None:
        raise Fork(eq(n, 0))
    e.chk_access(st, p, n, 'memcmp'); e.chk_access(st, q, n, 'memcmp')
    key = ('memcmp', fr.f.name, fr.block, fr.idx, st.pc.uid)
    d = z3.Bool(f'memcmp_eq!{fresh_id()}')
    out = []
    s2 = st.copy()
    for s, same in ((st, True), (s2, False)):
        j = z3.BitVec(f'q!{fresh_id()}', 64)
        eqb = zb(eq(obj_read(e.ctx(s), s.objs[p.o], add(p.off, j), 1), obj_read(e.ctx(s), s.objs[q.o], add(q.off, j), 1), 8))
        if same:
            s.foralls = s.foralls + ((n, j, eqb),)
            e.assume(s, z3.Implies(z3.UGT(bv(n, 64), 0), zb(eq(rd(e, s, p, 0), rd(e, s, q, 0), 8))))
            for w in s.witness: e.assume(s, z3.Implies(z3.ULT(w, bv(n, 64)), z3.substitute(eqb, (j, w))))
            res = 0
        else:
            r = z3.BitVec(f'diff!{fresh_id()}', 64)
            e.assume(s, ult(r, n))
            x, y = rd(e, s, p, r), rd(e, s, q, r)
            e.assume(s, bnot(eq(x, y, 8)))
            s.foralls = s.foralls + ((r, j, eqb),)
            s.witness = s.witness + (r,)
            res = ite(ult(x, y, 8), mask(32), 1, 32)
        fr2 = s.frames[-1]
        e.finish_call(s, fr2, ins, res)
        if e.check(s.pc, z3.BoolVal(True)) != 'unsat': out.append(('cont', s))
    return Events(out)

def m_memchr(e, st, fr, ins, a, rt, args):
    p, c, n = asptr(e, st, a[0]), a[1], a[2]
    c = c & 255 if isc(c) else simp(z3.Extract(7, 0, c))
    if isc(n) and n == 0: return NULL
    if e.decide(st, eq(n, 0)) is None: raise Fork(eq(n, 0))
    if e.decide(st, eq(n, 0)) == 1: return NULL
    e.chk_access(st, p, n, 'memchr')
    if isc(n) and n <= 80:
        # first match, merged: position term
        pos = n
        for i in range(n - 1, -1, -1):
            pos = ite(eq(rd(e, st, p, i), c, 8), i, pos, 64)
        if isc(pos): return NULL if pos == n else Ptr(p.o, add(p.off, pos))
        f = eq(pos, n)
        k = e.decide(st, f)
        if k is None: raise Fork(f)
        return NULL if k == 1 else Ptr(p.o, add(p.off, pos))
    out = []
    s2 = st.copy()
    for s, found in ((st, True), (s2, False)):
        j = z3.BitVec(f'q!{fresh_id()}', 64)
        neq = zb(bnot(eq(obj_read(e.ctx(s), s.objs[p.o], add(p.off, j), 1), c, 8)))
        if found:
            r = z3.BitVec(f'pos!{fresh_id()}', 64)
            e.assume(s, ult(r, n))
            e.assume(s, eq(rd(e, s, p, r), c, 8))
            s.foralls = s.foralls + ((r, j, neq),)
            s.witness = s.witness + (r,)
            for w in s.witness[:-1]: e.assume(s, z3.Implies(z3.ULT(w, r), z3.substitute(neq, (j, w))))
            res = Ptr(p.o, add(p.off, r))
        else:
            s.foralls = s.foralls + ((n, j, neq),)
            for w in s.witness: e.assume(s, z3.Implies(z3.ULT(w, bv(n, 64)), z3.substitute(neq, (j, w))))
            res = NULL
        e.finish_call(s, s.frames[-1], ins, res)
        if e.check(s.pc, z3.BoolVal(True)) != 'unsat': out.append(('cont', s))
    return Events(out)

def m_strlen(e, st, fr, ins, a, rt, args):
    p = asptr(e, st, a[0])
    o = e.chk_access(st, p, 1, 'strlen')
    if isc(p.off) and isc(o.size):
        n = 0
        while p.off + n < o.size and n < 4096:
            b = obj_read(e.ctx(st), o, p.off + n, 1)
            if type(b) is not int: break
            if b == 0: return n
            n += 1
    r = z3.BitVec(f'strlen!{fresh_id()}', 64)
    # contract: requires a terminator inside the object; the last byte is the one we can name
    last = obj_read(e.ctx(st), o, sub(o.size, 1), 1)
    e.oblige(st, eq(last, 0, 8), 'memory-safety', 'strlen of a string without terminator')
    e.assume(st, ult(r, sub(o.size, p.off)))
    e.assume(st, eq(rd(e, st, p, r), 0, 8))
    j = z3.BitVec(f'q!{fresh_id()}', 64)
    nz = zb(bnot(eq(obj_read(e.ctx(st), o, add(p.off, j), 1), 0, 8)))
    st.foralls = st.foralls + ((r, j, nz),)
    for w in st.witness: e.assume(st, z3.Implies(z3.ULT(w, r), z3.substitute(nz, (j, w))))
    return r

# ---------------------------------------------------------------- arithmetic
def m_bswap(e, st, fr, ins, a, rt, args):
    n = rt.w // 8
    return concat_bytes([extract_byte(a[0], n - 1 - i, n) for i in range(n)])

def mk_minmax(n):
    def f(e, st, fr, ins, a, rt, args):
        c = e._cmp(('s' if n[0] == 's' else 'u') + ('gt' if n.endswith('max') else 'lt'), a[0], a[1], rt.w)
        return ite(c, a[0], a[1], rt.w)
    return f

def m_abs(e, st, fr, ins, a, rt, args):
    w = rt.w
    c = e._cmp('slt', a[0], 0, w)
    return ite(c, sub(0, a[0], w), a[0], w)

def m_ctpop(e, st, fr, ins, a, rt, args):
    w = rt.w
    if isc(a[0]): return bin(a[0]).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a[0]))
    return simp(r)

def m_ctlz(e, st, fr, ins, a, rt, args):
    w = rt.w
    if isc(a[0]): return w - a[0].bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return simp(r)

def m_cttz(e, st, fr, ins, a, rt, args):
    w = rt.w
    if isc(a[0]): return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    r = z3.BitVecVal(w, w)
    for i in range(w - 1, -1, -1): r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(i, w), r)
    return simp(r)

def mk_fsh(left):
    def f(e, st, fr, ins, a, rt, args):
        w = rt.w
        hi, lo, s = a
        if isc(s):
            s %= w
            if not left: s = (w - s) % w if s else 0
            if s == 0 and left: return hi
            if s == 0 and not left: return lo
            if isc(hi) and isc(lo): return ((hi << s) | (lo >> (w - s))) & mask(w)
            if not isc(hi) and not isc(lo) and hi.eq(lo): return simp(z3.RotateLeft(hi, s))
            return simp((bv(hi, w) << s) | z3.LShR(bv(lo, w), w - s))
        S = z3.URem(bv(s, w), z3.BitVecVal(w, w))
        if left: return simp(z3.If(S == 0, bv(hi, w), (bv(hi, w) << S) | z3.LShR(bv(lo, w), w - S)))
        return simp(z3.If(S == 0, bv(lo, w), (bv(hi, w) << (w - S)) | z3.LShR(bv(lo, w), S)))
    return f

def mk_ovf(o):
    def f(e, st, fr, ins, a, rt, args):
        w = rt.els[0].w
        op = o[1:]
        W = 2 * w + 2
        ex = (lambda v: sgn(v, w) & mask(W) if isc(v) else z3.SignExt(W - w, v)) if o[0] == 's' else (lambda v: v if isc(v) else z3.ZeroExt(W - w, v))
        x, y = bv(ex(a[0]), W), bv(ex(a[1]), W)
        full = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
        r = simp(z3.Extract(w - 1, 0, full))
        rx = bv(ex(r), W)
        return [r, simpb(rx != full)]
    return f

def mk_round(rm):
    def f(e, st, fr, ins, a, rt, args):
        return simp(z3.fpToIEEEBV(z3.fpRoundToIntegral(rm(), tofp(a[0], rt.kind))))
    return f

def mk_modf(kind):
    def f(e, st, fr, ins, a, rt, args):
        w = 64 if kind == 'double' else 32
        x = tofp(a[0], kind)
        ip = z3.fpRoundToIntegral(z3.RTZ(), x)
        ipb = simp(z3.fpToIEEEBV(ip))
        e.store(st, asptr(e, st, a[1]), w // 8, ipb)
        frac = z3.If(z3.fpIsInf(x), z3.fpZero(FPS[kind], False), z3.fpSub(z3.RNE(), x, ip))
        return simp(z3.fpToIEEEBV(frac))
    return f

def m_isalnum(e, st, fr, ins, a, rt, args):
    c = a[0]
    r = bor(bor(ult(sub(c, 48, 32), 10, 32), ult(sub(c, 65, 32), 26, 32)), ult(sub(c, 97, 32), 26, 32))
    return ite(r, 8, 0, 32)

def m_isspace(e, st, fr, ins, a, rt, args):
    c = a[0]
    r = bor(eq(c, 32, 32), ult(sub(c, 9, 32), 5, 32))
    return ite(r, 8192, 0, 32)

# ---------------------------------------------------------------- exceptions
def m_typeid(e, st, fr, ins, a, rt, args):
    o = st.objs[a[0].o]
    return e.typeid(o.name)

def m_cxa_alloc(e, st, fr, ins, a, rt, args):
    o = e.new_obj(st, a[0], 'exc', Fresh('exc'), 'exception object')
    return Ptr(o.id, 0)

def m_cxa_throw(e, st, fr, ins, a, rt, args):
    ti = st.objs[a[1].o].name
    e.throw(st, a[0], ti)
    return CALLED

def mk_throw(ti):
    def f(e, st, fr, ins, a, rt, args):
        o = e.new_obj(st, 64, 'exc', Fresh('exc'), 'exception object')
        e.throw(st, Ptr(o.id, 0), ti)
        return CALLED
    return f

def m_begin_catch(e, st, fr, ins, a, rt, args):
    st.caught = st.caught + (st.exc,)
    return a[0]
# std::exception_ptr: a pointer to the exception object (its reference count is not modelled)
def m_init_primary(e, st, fr, ins, a, rt, args):
    st.ghost = dict(st.ghost); st.ghost[('exctype', a[0].o)] = st.objs[a[1].o].name
    e.assumptions.add('std::exception_ptr: the exception object lives as long as a pointer to it (reference counts are not modelled)')
    return a[0]
def m_exptr(e, st, fr, ins, a, rt, args): e.store(st, a[0], 8, a[1])
def m_current_exc(e, st, fr, ins, a, rt, args):
    v = 0
    if st.caught:
        obj, ti = st.caught[-1]
        st.ghost = dict(st.ghost); st.ghost[('exctype', obj.o)] = ti
        v = obj
    e.store(st, a[0], 8, v)
def m_rethrow_exc(e, st, fr, ins, a, rt, args):
    p = e.load(st, a[0], 8)
    if not isinstance(p, Ptr): p = e.int_ptr(st, p)
    ti = st.ghost.get(('exctype', p.o))
    if ti is None:
        e.oblige(st, 0, 'rethrow', 'std::rethrow_exception of a pointer that holds no exception'); raise PathEnd('rethrow')
    e.throw(st, p, ti)
    return CALLED
def m_end_catch(e, st, fr, ins, a, rt, args):
    if st.caught: st.caught = st.caught[:-1]
def m_rethrow(e, st, fr, ins, a, rt, args):
    if not st.caught: raise PathEnd('rethrow')
    st.exc = st.caught[-1]
    e.unwind(st)
    return CALLED
def m_terminate(e, st, fr, ins, a, rt, args):
    e.oblige(st, 0, 'no-terminate', 'std::terminate reached (exception escapes a noexcept function)')
    raise PathEnd('terminate')
def m_abort(e, st, fr, ins, a, rt, args):
    e.oblige(st, 0, 'no-abort', 'abort/assertion failure reached')
    raise PathEnd('abort')
def m_exit(e, st, fr, ins, a, rt, args):
    raise PathEnd('exit')
def m_guard_acq(e, st, fr, ins, a, rt, args):
    v = e.load(st, a[0], 1)
    if isc(v): return 0 if v else 1
    return ite(eq(v, 0, 8), 1, 0, 32)
def m_guard_rel(e, st, fr, ins, a, rt, args):
    e.store(st, a[0], 1, 1)

def m_errno(e, st, fr, ins, a, rt, args):
    g = e.ext_cells.get(ins.a[1][1] if ins.a[1][0] == 'g' else 'errno')
    if g is None or g not in st.objs:
        o = e.new_obj(st, 16, 'global', Fresh('errno'), 'errno')
        return Ptr(o.id, 0)
    return Ptr(g, 0)

# ---------------------------------------------------------------- locks
def run_hook(e, st, fn, arg):
    f = e.func(fn)
    e.push_call(st, f, [arg])

def m_lock(e, st, fr, ins, a, rt, args):
    p = a[0]
    key = (p.o, p.off)
    if st.ghost.get('lockphase') == key:
        st.ghost = dict(st.ghost); del st.ghost['lockphase']
        return 0
    locks = st.ghost.get('locks', ())
    if key in locks:
        e.oblige(st, 0, 'no-self-deadlock', 'mutex locked twice by the same thread')
        raise PathEnd('deadlock')
    e.chk_access(st, p, 1, 'mutex lock')
    st.ghost = dict(st.ghost); st.ghost['locks'] = locks + (key,)
    h = st.hooks.get(('mutex',) + key)
    if h and h[0]:
        st.ghost['lockphase'] = key
        run_hook(e, st, h[0], h[2]); st.frames[-1].tag = 'hook'
        return CALLED
    return 0

def m_unlock(e, st, fr, ins, a, rt, args):
    p = a[0]
    key = (p.o, p.off)
    locks = st.ghost.get('locks', ())
    if st.ghost.get('unlockphase') == key:
        st.ghost = dict(st.ghost); del st.ghost['unlockphase']
        return 0
    if key not in locks:
        e.oblige(st, 0, 'lock-discipline', 'unlock of a mutex that is not held')
        raise PathEnd('unlock')
    st.ghost = dict(st.ghost); st.ghost['locks'] = tuple(k for k in locks if k != key)
    h = st.hooks.get(('mutex',) + key)
    if h and h[1]:
        st.ghost['unlockphase'] = key
        run_hook(e, st, h[1], h[2]); st.frames[-1].tag = 'hook'
        return CALLED
    return 0

def m_trylock(e, st, fr, ins, a, rt, args):
    return m_lock(e, st, fr, ins, a, rt, args)

# ---------------------------------------------------------------- vector<trivial>::emplace_back / push_back
def vec_model(e, nm):
    """returns a model for std::vector<T>::emplace_back/push_back of trivially copyable T, or None"""
    if not nm.startswith('_ZNSt6vectorI'): return None
    for vp, sz in e.vec_sz.items():
        if nm.startswith(vp):
            rest = nm[len(vp):]
            if rest.startswith('12emplace_backIJ') or rest.startswith('9push_backE'):
                return lambda e, st, fr, ins, a, rt, args, sz=sz: m_vec_push(e, st, fr, ins, a, rt, sz)
    return None

def m_vec_push(e, st, fr, ins, a, rt, sz):
    """std::vector growth contract: size grows by one, the new last element equals the argument, all others keep their
    value; the storage is re-allocated (iterators are invalidated) except inside a summarised loop."""
    v, arg = a[0], a[1]
    start = e.load_ty(st, PTR, v); fin = e.load_ty(st, PTR, Ptr(v.o, add(v.off, 8)))
    val = e.load(st, arg, sz)
    if start.o == 0:
        ln = 0
    else:
        if fin.o != start.o: raise OutOfReach('vector shape')
        ln = sub(fin.off, start.off)
    newlen = add(ln, sz)
    o = st.objs.get(start.o) if start.o else None
    if e.loopmode and o is not None and o.gen == 1:
        o2 = o.copy(); o2.size = newlen
        st.objs[o.id] = o2
        e.store(st, Ptr(o.id, ln), sz, val)
        no = o.id
    else:
        n = e.new_obj(st, newlen, 'heap', Fresh('vec'), 'vector storage')
        n.gen = 1
        no = n.id
        if o is not None:
            if not isc(ln) or ln > 0:
                if isc(ln) or e.decide(st, eq(ln, 0)) != 1:
                    st.objs[no] = obj_copy(e.ctx(st), st.objs[no], 0, st.objs[start.o], start.off, ln)
            e.free(st, start, 'vector growth')
        e.store(st, Ptr(no, ln), sz, val)
    e.store(st, v, 8, Ptr(no, 0))
    e.store(st, Ptr(v.o, add(v.off, 8)), 8, Ptr(no, newlen))
    e.store(st, Ptr(v.o, add(v.off, 16)), 8, Ptr(no, newlen))
    if rt is not None and isinstance(rt, PtrTy): return Ptr(no, ln)
    return None

def m_vec_grow(e, st, fr, ins, a, rt, args):
    """plv_vec_grow(vec, n): a vector<1-byte> grows by n unspecified elements; the others keep their value (frame of an abstracted append)"""
    v, n = a[0], a[1]
    start = e.load_ty(st, PTR, v); fin = e.load_ty(st, PTR, Ptr(v.o, add(v.off, 8)))
    if start.o == 0: ln = 0
    else:
        if fin.o != start.o: raise OutOfReach('vector shape')
        ln = sub(fin.off, start.off)
    newlen = add(ln, n)
    o = st.objs.get(start.o) if start.o else None
    if e.loopmode and o is not None and o.gen == 1:
        o2 = o.copy(); o2.size = newlen
        st.objs[o.id] = o2
        no = o.id
    else:
        nn = e.new_obj(st, newlen, 'heap', Fresh('vec'), 'vector storage')
        nn.gen = 1; no = nn.id
        if o is not None:
            if isc(ln) and ln > 0 or not isc(ln) and e.decide(st, eq(ln, 0)) != 1:
                st.objs[no] = obj_copy(e.ctx(st), st.objs[no], 0, st.objs[start.o], start.off, ln)
            e.free(st, start, 'vector growth')
    e.store(st, v, 8, Ptr(no, 0))
    e.store(st, Ptr(v.o, add(v.off, 8)), 8, Ptr(no, newlen))
    e.store(st, Ptr(v.o, add(v.off, 16)), 8, Ptr(no, newlen))

# ---------------------------------------------------------------- basic_string<1-byte char>::push_back
def str_model(e, nm):
    if nm.startswith('_ZNSt7__cxx1112basic_stringI') and ('9push_backE' in nm) and (nm.startswith('_ZNSt7__cxx1112basic_stringIc') or nm.startswith('_ZNSt7__cxx1112basic_stringISt4byte')):
        return m_str_push
    return None

def m_str_push(e, st, fr, ins, a, rt, args):
    """std::basic_string::push_back contract: length grows by one, old characters kept, new last character, terminator."""
    s, ch = a[0], a[1]
    p = e.load_ty(st, PTR, s)
    ln = e.load(st, Ptr(s.o, add(s.off, 8)), 8)
    if isinstance(ln, Ptr): raise OutOfReach('string shape')
    local = p.o == s.o
    new = add(ln, 1)
    o = st.objs.get(p.o)
    if e.loopmode and o is not None and o.gen == 1 and not local:
        o2 = o.copy(); o2.size = add(new, 1)
        st.objs[o.id] = o2
        no = o.id
    else:
        n = e.new_obj(st, add(new, 1), 'heap', Fresh('str'), 'string storage')
        n.gen = 1; no = n.id
        if not (isc(ln) and ln == 0):
            e.chk_access(st, p, ln, 'string content')
            st.objs[no] = obj_copy(e.ctx(st), st.objs[no], 0, st.objs[p.o], p.off, ln)
        if not local: e.free(st, p, 'string growth')
        e.store(st, s, 8, Ptr(no, 0))
    e.store(st, Ptr(s.o, add(s.off, 16)), 8, new)
    e.store(st, Ptr(no, ln), 1, ch)
    e.store(st, Ptr(no, new), 1, 0)
    e.store(st, Ptr(s.o, add(s.off, 8)), 8, new)
    return None
