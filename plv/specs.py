"""Which contracts decide which property, and what they assume."""
TRUSTED = [
    'clang++ 18 translates the C++ source to LLVM IR faithfully (the verified text is that IR, produced from /repo on every run at -O0 and passed through opt sroa, simplifycfg, instsimplify); the shipped build uses gcc',
    'plv itself: the IR parser, the symbolic executor, the memory model and the inductive loop summaries (/verif/plv)',
    'the SMT solvers z3 and cvc5',
    'memory allocation succeeds (operator new / malloc never return null or throw)',
    'contracts of the C library functions and of the libstdc++ growth operations (string/vector push_back of trivial elements) as listed in plv/models.py',
]
RPC = ['net/rpc/packer.cc', 'net/rpc/unpacker.cc']
PUB = dict(fallback=dict(defs=['-DPLV_PUBLIC']))
_R = '_ZN5plain4RingISt4byteLb0EE'
RINGC = {_R + '4readEPS1_mb': 'c_read', _R + '6removeEm': 'c_remove', _R + '5writeEPKS1_mb': 'c_write', '_ZNK5plain4RingISt4byteLb0EE10read_availEv': 'c_read_avail'}
RING_ASSUMED = 'the ring operations read/remove/write/read_avail obey the queue contract c_* of contracts/ring_contract.inc, which P01 (ring.cc) proves for the real ring'
_PK = '_ZN5plain3net3rpc6Packer4pack'
_UN = '_ZN5plain3net3rpc8Unpacker6unpack'
CODEC = ['net/stream/codec.cc', 'net/packet/basic.cc']
CODEC_UNREACHED = ['push: nothing empty is sent', 'invariant: the capacity is a power of two', 'invariant: the buffer backs the capacity', 'invariant: no more elements than capacity']
RESULT = ['concurrency/result/detail/state.cc', 'concurrency/result/detail/consumer_context.cc', 'concurrency/result/detail/shared_state.cc']
RESULT_ASSUMED = ['the other side takes its step as a whole, at an atomic access of this side to the state both share (sequential consistency; memory orders weaker than that are not examined)',
                  'the kernel wait (atomic_wait_native, atomic_wait_for_native) may return at any time; the clock may tell any time',
                  'coroutine handles: a suspended coroutine is a frame whose resume and destroy functions are called through its handle']
PROPS = {
    'P01': dict(units=[
        dict(contract='ring.cc', sources=[], **PUB, proofs=['proof_init', 'proof_read', 'proof_peek', 'proof_remove_n', 'proof_write', ('proof_write_grow', dict(weight=30)),
             'proof_insert', ('proof_insert_grow', dict(weight=9)), 'proof_remove_one', 'proof_queries', 'proof_clear', 'proof_fixed', ('proof_fixed_write', dict(weight=30, unroll_fork=18))]),
        dict(contract='stream.cc', sources=[], proofs=['proof_stream_new', 'proof_stream_read', 'proof_stream_peek', 'proof_stream_remove', ('proof_stream_write', dict(weight=8)), 'proof_stream_clear',
             'proof_stream_put_u16', 'proof_stream_put_u32', 'proof_stream_put_i64', 'proof_stream_put_u8'],
             unreached=['push: nothing empty is sent'])]),
    'P02': dict(units=[
        dict(contract='stream_io.cc', sources=[], replace=RINGC, opts=dict(unroll_fork=1, forksel=1),
             proofs=[('proof_push_small', dict(weight=20)), ('proof_push_mid', dict(weight=30)), ('proof_push_mid_counts', dict(weight=10)), ('proof_push_large', dict(weight=10)), 'proof_pull'],
             unreached=['invariant: the capacity is a power of two', 'invariant: the buffer backs the capacity', 'invariant: no more elements than capacity'])],
        assumptions=['socket::Basic::send/recv/avail/valid behave as the stand-in in contracts/stream_env.inc says (send takes 1..n bytes, or answers would-block, 0 or -1; recv likewise)',
                     RING_ASSUMED]),
    'P03': dict(units=[dict(contract='packet.cc', sources=['net/packet/basic.cc'], proofs=[
        'proof_new', 'proof_write_raw', 'proof_read_raw', 'proof_remove', ('proof_string_short', dict(weight=4)), ('proof_string_long', dict(weight=30)), ('proof_bytes_short', dict(weight=6)), ('proof_bytes_long', dict(weight=30)),
        'proof_string_off', ('proof_read_string_any', dict(weight=9)), ('proof_read_bytes_any', dict(weight=9)), 'proof_u8', 'proof_i8', 'proof_u16', 'proof_i16', 'proof_u32', 'proof_i32', 'proof_u64', 'proof_i64',
        'proof_bool', 'proof_float', 'proof_double', 'proof_flags'])]),
    'P04': dict(units=[dict(contract='endian.cc', sources=[], proofs=['proof_u8', 'proof_i8', 'proof_u16', 'proof_i16', 'proof_u32', 'proof_i32', 'proof_u64', 'proof_i64', 'proof_float', 'proof_double'])]),
    'P05': dict(units=[dict(contract='codec.cc', sources=CODEC, replace=RINGC, opts=dict(forksel=1), unreached=CODEC_UNREACHED, proofs=[
        'proof_decode_null', 'proof_decode_head', ('proof_decode', dict(weight=9)), 'proof_encode_short', 'proof_encode', ('proof_roundtrip_short', dict(weight=9)), ('proof_roundtrip_mid', dict(weight=7)), ('proof_roundtrip', dict(weight=8)), ('proof_roundtrip_rest', dict(weight=9))])],
        assumptions=[RING_ASSUMED]),
    'P06': dict(units=[dict(contract='line_codec.cc', sources=CODEC, replace=RINGC, unreached=CODEC_UNREACHED, proofs=
        ['proof_decode_null', 'proof_encode_short', 'proof_encode', 'proof_encode_rpc_short', 'proof_encode_rpc'] +
        [(f'proof_decode_{a}_{b}', dict(weight={'small': 10, 'mid': 20, 'large': 40}[b])) for a in ('plain', 'request', 'response', 'notify', 'other') for b in ('small', 'mid', 'large')])],
        assumptions=[RING_ASSUMED]),
    'P07': dict(units=[dict(contract='rpc_int.cc', sources=RPC, proofs=[
        'proof_u8', 'proof_u16', 'proof_u32', 'proof_u64', 'proof_i8', 'proof_i16', 'proof_i32', 'proof_i64', 'proof_bool', 'proof_null',
        'proof_widen_u8', 'proof_widen_u16', 'proof_widen_u32', 'proof_widen_i8', 'proof_widen_i16', 'proof_widen_i32',
        ('proof_seq1', dict(weight=9)), ('proof_seq2', dict(weight=5)), ('proof_seq3', dict(weight=7))])]),
    'P08': dict(units=[dict(contract='rpc_str.cc', sources=RPC, opts=dict(unroll_fork=18), proofs=[
        ('proof_str_15', dict(weight=9)), 'proof_str_31', 'proof_str_8', 'proof_str_16', ('proof_str_32', dict(weight=5)), 'proof_bin_8', 'proof_bin_16', 'proof_bin_32', ('proof_view', dict(weight=6)), 'proof_cut_str', 'proof_cut_bin'])]),
    'P09': dict(units=[dict(contract='rpc_float.cc', sources=RPC, opts=dict(unroll_fork=18), proofs=['proof_float', 'proof_double'])]),
    'P10': dict(units=[
        dict(contract='rpc_seq.cc', sources=RPC, opts=dict(unroll_fork=18), replace={_PK + 'Ei': 'c_pack', _UN + 'ERi': 'c_unpack'},
             proofs=[
            'proof_vec_15', ('proof_vec_16', dict(weight=20)), ('proof_vec_32', dict(weight=9)), ('proof_cut_15', dict(weight=12)), ('proof_cut_16', dict(weight=8, unroll_fork=3)), ('proof_cut_32', dict(weight=8)),
            'proof_array_5', 'proof_array_20', 'proof_other_length_15', ('proof_other_length_16', dict(weight=12))]),
        dict(contract='rpc_seq.cc', sources=RPC, opts=dict(unroll_fork=18), replace={_PK + 'Ei': 'm_pack', _UN + 'ERi': 'm_unpack', _PK + 'El': 'm_pack8', _UN + 'ERl': 'm_unpack8'},
             proofs=[('proof_map_15', dict(weight=8)), ('proof_map_16', dict(weight=30)), ('proof_map_32', dict(weight=9))]),
        dict(contract='rpc_elem.cc', sources=RPC, opts=dict(unroll_fork=18), proofs=[('proof_elem_i32', dict(weight=9)), ('proof_elem_i64', dict(weight=12)), 'proof_cut_i32', 'proof_cut_i64', 'proof_err_i32',
             'proof_tuple', 'proof_nested_tuple', 'proof_object', 'proof_nested_object', 'proof_time'])],
        assumptions=['in rpc_seq.cc the element operations pack/unpack of int32_t and int64_t are used under the contract c_* / m_*, which rpc_elem.cc proves for the real operations',
                     'std::map, std::set and std::list are library code: pack_map/unpack_map are proved for a map that hands out its entries in sequence; sets and lists are not covered']),
    'P11': dict(units=[dict(contract='rpc_any.cc', sources=RPC, opts=dict(unroll_fork=18), proofs=[
        'proof_u8', 'proof_i8', 'proof_u16', 'proof_i16', 'proof_u32', 'proof_i32', 'proof_u64', 'proof_i64', 'proof_float', 'proof_double', 'proof_fits_u8', 'proof_fits_u16', 'proof_fits_u32', 'proof_fits_u64',
        'proof_fits_i8', 'proof_fits_i16', 'proof_fits_i32', 'proof_fits_i64', ('proof_str', dict(weight=9)), 'proof_bin', 'proof_empty', 'proof_step']),
        dict(contract='rpc_any_seq.cc', sources=RPC, opts=dict(unroll_fork=18), replace={_UN + 'ERi': 'a_unpack'}, proofs=['proof_any_seq'])],
        assumptions=['in proof_any_seq the elements are unpacked under the contract a_unpack, which proof_step (rpc_any.cc) proves for the real operation']),
    'P14': dict(units=[dict(contract='result.cc', sources=RESULT, proofs=[
        'proof_get', 'proof_wait', 'proof_status', ('proof_wait_for', dict(weight=9)), 'proof_await', 'proof_resolve', 'proof_drop', 'proof_produce_drop', 'proof_produce_await',
        'proof_throw_get', 'proof_break_get', 'proof_call_get', 'proof_throw_await', 'proof_break_await', 'proof_call_await', 'proof_throw_status', 'proof_break_status', 'proof_call_status',
        'proof_promise', 'proof_promise_moves', 'proof_tracked', 'proof_coro', 'proof_coro_throw', 'proof_coro_break'])], assumptions=RESULT_ASSUMED),
    'P15': dict(units=[dict(contract='result_many.cc', sources=RESULT, proofs=[
        'proof_when_all', ('proof_when_any', dict(weight=9)), 'proof_when_any_first', 'proof_when_any_second', 'proof_share', 'proof_share_await', 'proof_share_drop', 'proof_share_coro', 'proof_share_produce'])],
        level='other', note='All obligations are discharged for every value and every interleaving at atomic accesses, but for a fixed number of participants: two results for when_any, up to three consumers of a shared result.',
        explanation='deductive verification of the real code for a bounded number of participants (two results in when_any, up to three consumers of a shared result); all values and all interleavings at atomic accesses are covered',
        assumptions=RESULT_ASSUMED),
    'P16': dict(units=[dict(contract='task.cc', sources=['concurrency/task.cc'] + RESULT, proofs=['proof_task_' + k for k in ('empty', 'plain', 'small', 'large', 'risky', 'bulky', 'coro', 'await')])],
        assumptions=['the callables are representatives of each representation: trivially copyable, moved in place, kept on the heap (too large, or able to throw when moved), coroutine handle, awaiting coroutine; callables that throw when run are not covered']),
}
