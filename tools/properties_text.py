L.append(P('P01', 'Ring and stream buffers are exact FIFO queues',
 'Elements leave a ring (dynamic or fixed) or a network stream buffer in exactly the order they were written, each once and with its value unchanged, whatever the sizes of the writes, reads, peeks and removals, wherever the buffer wraps, and however often it grows. '
 'Every operation reports exactly how many elements it moved; a peek leaves the contents as they are, a removal takes only from the front, a dynamic buffer grows instead of refusing data, a fixed one refuses exactly what does not fit, and the fill and free counts always tell the truth. '
 'No operation reads or writes outside the buffer, and integers written to a stream are laid down in network byte order and read back unchanged.',
 ['inputs', 'histories'], 'every reachable buffer state (capacity, wrap position, fill, contents) and every argument of every single-threaded operation',
 'The tests push a few hundred fixed bytes through a buffer; wrap-around combined with growth, partial reads and every count is an unbounded set of histories.',
 ['include/plain/basic/ring.h', 'include/plain/net/stream/basic.h', 'src/net/stream/basic.cc'],
 [('Ring::write/read/remove/insert/at/peek', 'include/plain/basic/ring.h'), ('DynamicRing::resize, Ring::copy_to', 'include/plain/basic/ring.h'), ('stream::Basic::write/read/peek/remove/clear', 'src/net/stream/basic.cc'), ('stream operator<< / operator>>', 'include/plain/net/stream/basic.h')],
 [('head/tail/size/mask', 'free-running write and read positions over a power-of-two buffer', 'include/plain/basic/ring.h')],
 ['return values of the operations', 'bytes read back']))
L.append(P('P02', 'Streams move bytes to and from the socket without loss',
 'When a stream is flushed to its socket, the bytes the socket accepts are exactly the oldest bytes of the buffer, each handed over once and in order, exactly those leave the buffer, and the rest stays queued in order, for any pattern of short writes, would-block answers and errors. '
 'When a stream pulls from its socket, exactly the bytes received are appended behind what is already buffered, in order, and the reported count is the number of bytes moved; socket failures are reported as negative results.',
 ['inputs', 'histories', 'fault_sequences'], 'every buffer state and every sequence of full, partial, would-block and failing socket answers',
 'The tests run over a healthy loopback socket, where short writes and would-block answers at chosen points do not occur.',
 ['src/net/stream/basic.cc', 'include/plain/basic/ring.h'], [('stream::Basic::push, pull', 'src/net/stream/basic.cc')], (), ['bytes seen by the socket', 'stream size and contents afterwards']))
L.append(P('P03', 'Packets give back exactly what was written, under their flags',
 'Raw bytes, integers of every width, booleans, floats and length-prefixed strings and byte strings of any length (below 4 GiB) and content written to a packet are read back unchanged, in order and each once, numbers lying in the packet in network byte order. '
 'A raw read or a string read (into an empty target) that asks for more than the packet still holds delivers nothing and never touches memory outside the packet; skipping stops at the end; writing never moves the read position and reading never changes the bytes. '
 'A packet that is not writeable takes nothing, one that is not readable gives nothing, and setting or clearing one of its five flags leaves the other four as they were.',
 ['inputs', 'histories'], 'every packet content and read position, every value, length and flag combination',
 'The tests write and read a few short fields; lengths, read positions, flag histories and truncated contents are unbounded.',
 ['include/plain/net/packet/basic.h', 'src/net/packet/basic.cc'],
 [('packet::Basic::write/read/remove, operator<< and operator>>', 'src/net/packet/basic.cc'), ('Impl::set_flag/have_flag', 'src/net/packet/basic.cc')], (), ['values read back', 'packet bytes', 'return counts']))
L.append(P('P04', 'Byte-order conversion is exact and reversible',
 'hton lays an integer (8 to 64 bits, signed or unsigned), float or double out most significant byte first, and ntoh gives back exactly the original bits, for every value. '
 'The buffer forms of hton and ntoh read and write exactly the size of the integer at the given place, in the same order.',
 ['inputs'], 'every bit pattern of every supported type', 'The tests convert a few constants; byte order faults show on particular bytes only.',
 ['include/plain/basic/endian.h'], [('byteswap, hton, ntoh, decimal_convert', 'include/plain/basic/endian.h')], (), ['converted bytes']))
L.append(P('P05', 'The binary codec frames packets exactly',
 'Encoding a packet gives a 6-byte head (id and length in network byte order) followed by exactly the packet bytes, and decoding a stream that starts with such a frame delivers one readable packet with that id and those bytes and takes exactly that frame off the stream, leaving what follows untouched. '
 'Whatever bytes a peer sends, a head that is incomplete, outside the configured id and length limits, or announces more than has arrived gives the matching error and leaves the stream as it was, so decoding again after more bytes arrive yields the same packets. '
 'Packets with a reserved rpc id are marked as that kind of rpc packet and no others are.',
 ['inputs', 'histories'], 'every stream content, packet, id and limit',
 'The tests exchange a few well-formed packets; hostile heads, every split of a frame and every limit are not sampled.',
 ['src/net/stream/codec.cc', 'src/net/packet/basic.cc', 'src/net/stream/basic.cc'], [('stream::encode, stream::decode', 'src/net/stream/codec.cc')], (), ['decoded packet', 'error code', 'stream contents afterwards']))
L.append(P('P06', 'The line codec delivers lines exactly',
 'Decoding a stream delivers exactly its first line, without the line feed and an optional carriage return before it, takes exactly that line off the stream and leaves the rest untouched; without a complete line within the length limit nothing is taken, and the error says whether to wait for more or that the line is too long. '
 'Encoding puts the packet bytes and a line feed on the wire; rpc packets are wrapped in the two-byte marks of their kind, and a line with such marks (and at least the minimal size) is delivered as that kind of rpc packet with exactly the bytes between the marks.',
 ['inputs', 'histories'], 'every stream content, every length limit above zero and every packet',
 'Only a few short lines are sampled by tests; the position of the line end against limits, buffer sizes and marks is unbounded.',
 ['src/net/stream/codec.cc', 'src/net/packet/basic.cc'], [('stream::line_encode, stream::line_decode', 'src/net/stream/codec.cc')], (), ['decoded packet', 'error code', 'stream contents afterwards']))
L.append(P('P07', 'RPC integers, booleans and nil survive pack/unpack exactly',
 'Any signed or unsigned integer of 8, 16, 32 or 64 bits, any boolean and nil that is packed for a remote call unpacks to exactly the same value in the same type or in any wider type of the same signedness, with no error reported, including the extreme values and values that collide with wire type tags. '
 'Several values packed one after another unpack one after another to the same values in the same order, consuming exactly the packed bytes.',
 ['inputs'], 'every value of every integer width, every boolean, and every packing of consecutive values',
 'The tests sample a few values per type; the wire form depends on the magnitude and on collisions with type tags, so 2^64 values per type matter.',
 ['src/net/rpc/packer.cc', 'src/net/rpc/unpacker.cc', 'include/plain/net/rpc/packer.h', 'include/plain/net/rpc/unpacker.h'],
 [('Packer::pack_type for integers', 'src/net/rpc/packer.cc'), ('Unpacker::unpack_type for integers', 'src/net/rpc/unpacker.cc')], (), ['unpacked value', 'unpacker error state']))
R = ['src/net/rpc/packer.cc', 'src/net/rpc/unpacker.cc', 'include/plain/net/rpc/packer.h', 'include/plain/net/rpc/unpacker.h']
L.append(P('P08', 'RPC strings and byte vectors survive pack/unpack exactly',
 'A string or byte vector of any length below 4 GiB - 1 and any content that is packed for a remote call unpacks to exactly the same bytes, with no error, consuming exactly its own part of the message so that the values packed before and after it are intact. '
 'If the message is cut short anywhere inside it, unpacking reports an error.',
 ['inputs'], 'every length across all length encodings, every content, every cut', 'The tests pack two or three short strings; each length class has its own encoding and boundaries.',
 R, [('Packer::pack(string / vector<uint8_t>)', 'src/net/rpc/packer.cc'), ('Unpacker::unpack(string / vector<uint8_t>)', 'src/net/rpc/unpacker.cc')], (), ['unpacked bytes', 'unpacker error state']))
L.append(P('P09', 'RPC floats and doubles survive pack/unpack bit for bit',
 'Every float and double, including zeros of either sign, subnormals, infinities, NaN payloads, integral and very large or small values, unpacks from a packed message with exactly the bits it was packed with and no error, leaving the values around it intact; a value that is cut short is reported.',
 ['inputs'], 'all 2^32 floats and 2^64 doubles', 'The tests try a handful of ordinary values.',
 R, [('Packer::pack(float / double)', 'src/net/rpc/packer.cc'), ('Unpacker::unpack(float / double)', 'src/net/rpc/unpacker.cc')], (), ['bits of the unpacked value', 'unpacker error state']))
L.append(P('P10', 'RPC containers, tuples and objects survive pack/unpack exactly',
 'A sequence, map, fixed array, tuple, time point or object with a pack method, nested or not, that is packed for a remote call unpacks to the same elements in the same order and number, for every length below 2^32 - 1 and across all length encodings, with no error, consuming exactly its own part of the message. '
 'A sequence that is cut short anywhere is reported as an error, and so is one with more elements than the fixed array it is unpacked into, which then takes the elements that fit and no others.',
 ['inputs'], 'every length in every length class, every element value, every cut', 'The tests pack containers of three elements; each length class has its own encoding and boundaries.',
 R, [('Packer::pack_array, pack_map, pack_tuple', 'include/plain/net/rpc/packer.h'), ('Unpacker::unpack_array, unpack_stdarray, unpack_map, unpack_tuple, unpack(object)', 'include/plain/net/rpc/unpacker.h')], (), ['unpacked elements', 'unpacker error state']))
L.append(P('P11', 'Unpacking hostile rpc messages stays inside the message',
 'Whatever bytes a remote peer sends as an rpc message, unpacking integers, booleans, nil, floats, strings, byte vectors and sequences from it never reads outside the message and never crashes. '
 'An integer is reported as an error exactly when the message ends before the bytes its type tag announces; a string or byte vector that announces more bytes than the message holds delivers nothing, and a sequence is never longer than it announces nor, without an error, than the message.',
 ['inputs'], 'every message of every length and content', 'Tests feed messages the packer made; hostile lengths and truncations are unbounded.',
 R, [('Unpacker::data, increment, unpack', 'src/net/rpc/unpacker.cc')], (), ['memory accesses', 'unpacker error state', 'delivered values']))
CR = ['include/plain/concurrency/result/basic.h', 'include/plain/concurrency/result/detail/state.h', 'src/concurrency/result/detail/state.cc', 'src/concurrency/result/detail/consumer_context.cc', 'include/plain/concurrency/result/awaitable.h', 'include/plain/concurrency/result/detail/producer_context.h']
L.append(P('P14', 'A result goes from its producer to its consumer exactly once',
 'Whatever the interleaving of a producer and a consumer of a result, the consumer that gets, waits for (with or without a timeout) or awaits it goes on only when the outcome is there and then sees exactly the value the producer set, the exception it set or threw, or a broken-promise exception if the producer was destroyed without either. '
 'A suspended consumer is resumed exactly once, a consumer that did not suspend is never resumed, and no outcome is lost. '
 'The state both sides share, with the value in it, is freed exactly once, when the last of the two sides has finished with it, including when the consumer drops the result early.',
 ['schedules'], 'every interleaving, at atomic accesses, of one producer and one consumer operation, every value',
 'The windows between the two sides are a few instructions wide and tests hit them by luck.',
 CR, [('StateBasic::wait, wait_for, await', 'src/concurrency/result/detail/state.cc'), ('State::complete_producer, complete_consumer', 'include/plain/concurrency/result/detail/state.h'), ('ResultPromise, Result', 'include/plain/concurrency/result/basic.h')],
 [('process_status_', 'which side has arrived', 'include/plain/concurrency/result/detail/state.h')], ['value or exception obtained', 'resumptions', 'lifetime of the shared state']))
L.append(P('P15', 'when_any, when_all and shared results wake every waiter exactly once',
 'A consumer that waits for any of several results, for all of them, or together with others for a shared result is resumed exactly once if it suspended, as soon as the outcome it waits for is there, and never otherwise, whatever the interleaving with the producers. '
 'when_any names a result that is there, and leaves every result to be taken afterwards; all consumers of a shared result see the same value, which is freed exactly once after the last of them.',
 ['schedules'], 'every interleaving, at atomic accesses, of the consumers with the producers (two results in when_any, up to three consumers of a shared result)',
 'A producer that finishes while a consumer is registering is a matter of a few instructions; tests hit it by luck.',
 CR + ['include/plain/concurrency/result/when.h', 'include/plain/concurrency/result/shared.h', 'src/concurrency/result/detail/shared_state.cc', 'include/plain/concurrency/result/detail/shared_state.h'],
 [('WhenAnyContext::try_resume, resume_inline, finish_processing', 'src/concurrency/result/detail/consumer_context.cc'), ('StateBasic::when_any, share, try_rewind_consumer', 'src/concurrency/result/detail/state.cc'), ('SharedStateBasic::await, SharedState::on_finished', 'include/plain/concurrency/result/detail/shared_state.h')],
 (), ['resumptions', 'named index', 'values obtained']))
L.append(P('P16', 'A task runs its callable at most once and destroys it exactly once',
 'A task that was built from any callable or coroutine, and moved or assigned any number of times, runs it exactly once with what it captured when it is invoked, and does nothing when it is invoked again, moved from or empty. '
 'The callable is destroyed exactly once, after it ran or when the task that holds it is cleared, assigned over or destroyed; a coroutine that is never run is destroyed then, and a coroutine that waits to be resumed by the task is resumed and told that it was interrupted.',
 ['histories'], 'every history of constructions, moves, assignments, invocations and clears over every kind of callable',
 'Each kind of callable has its own representation and its own move and destroy paths; tests walk few of the combinations.',
 ['include/plain/concurrency/task.h', 'src/concurrency/task.cc', 'src/concurrency/result/detail/consumer_context.cc'],
 [('Task::build, clear, operator()', 'src/concurrency/task.cc'), ('CallableVtable', 'include/plain/concurrency/task.h'), ('AwaitViaFunctor', 'src/concurrency/result/detail/consumer_context.cc')], (), ['runs of the callable', 'destructions of the callable']))
NA = {}
