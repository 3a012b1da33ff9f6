// P05: the binary codec frames packets exactly.
#include "codec_state.inc"
extern "C" void proof_decode_null() {
  PK::limit_t lim;
  auto r = S::decode(nullptr, lim);
  plv_assert(plain::get_error(r) != nullptr, "decode: no stream is an error");
}
// any bytes, any limits
static void decode_any(uint64_t lo, uint64_t hi) {
  S::Basic s{nullptr};
  uint64_t n = plv_range("n", lo, hi);
  auto *c = (std::byte *)plv_bytes("content", n);
  fill(s, c, n);
  PK::limit_t lim; lim.max_id = plv_u32("max_id"); lim.max_length = plv_u32("max_length");
  uint64_t w = plv_index("w", n + 1);
  uint32_t id = 0; uint64_t len = 0;
  if (n >= 6) {
    id = uint32_t(c[0]) << 8 | uint32_t(c[1]);
    len = uint64_t(c[2]) << 24 | uint64_t(c[3]) << 16 | uint64_t(c[4]) << 8 | uint64_t(c[5]);
  }
  auto r = S::decode(&s, lim);
  auto e = plain::get_error(r);
  if (n < 6) plv_assert(is(e, plain::ErrorCode::NetPacketCantFill), "decode: an incomplete head is reported");
  else if (id == 0 || id > lim.max_id || len > lim.max_length) plv_assert(is(e, plain::ErrorCode::NetPacketInvalid), "decode: a head outside the limits is refused");
  else if (len > n - 6) plv_assert(is(e, plain::ErrorCode::NetPacketNeedRecv), "decode: an incomplete body waits for more");
  else {
    plv_assert(!e, "decode: a complete packet is delivered");
    auto p = std::get<0>(r);
    plv_assert(p->id() == id, "decode: the packet has its id");
    plv_assert(p->data().size() == len && p->offset() == 0, "decode: the packet has exactly its length, unread");
    uint64_t v = plv_index("v", len + 1);
    if (v < len) plv_assert(p->data().data()[v] == c[6 + v], "decode: the packet has exactly its bytes");
    plv_assert(s.size() == n - 6 - len, "decode: exactly one packet leaves the stream");
    if (w < n && w >= 6 + len) plv_assert(elem(s, w - 6 - len) == c[w], "decode: what follows stays");
    plv_assert(p->is_call_request() == (id == 65534) && p->is_call_response() == (id == 65533) && p->is_call_notify() == (id == 65532), "decode: the rpc ids mark rpc packets");
    std::byte b{};
    plv_assert(p->write(&b, 1) == 0, "decode: the packet is not writeable");
    if (len > 0) plv_assert(p->read(&b, 1) == 1 && b == c[6], "decode: the packet is readable");
    return;
  }
  plv_assert(s.size() == n, "decode: nothing leaves the stream without a packet");
  if (w < n) plv_assert(elem(s, w) == c[w], "decode: the stream stays as it was without a packet");
}
extern "C" void proof_decode_head() { decode_any(0, 5); }
extern "C" void proof_decode() { decode_any(6, 1ull << 40); }
static std::shared_ptr<PB> any_packet(std::byte *in, uint64_t m, uint16_t id) {
  auto p = std::make_shared<PB>();
  p->set_writeable(true); p->set_readable(true); p->set_id(id);
  plv_assume(p->write(in, m) == m);
  return p;
}
static void encode(uint64_t lo, uint64_t hi) {
  uint64_t m = plv_range("m", lo, hi);
  auto *in = (std::byte *)plv_bytes("in", m);
  uint16_t id = plv_u16("id");
  auto p = any_packet(in, m, id);
  uint64_t skip = plv_range("skip", 0, m);
  plv_assume(p->remove(skip) == skip);    // reading a packet does not change what is sent
  uint64_t v = plv_index("v", m + 1);
  auto b = S::encode(p);
  plv_assert(b.size() == 6 + m, "encode: a head of 6 bytes and the packet's bytes");
  plv_assert(b[0] == std::byte(id >> 8) && b[1] == std::byte(id & 255), "encode: the id first, in network order");
  plv_assert(b[2] == std::byte(m >> 24) && b[3] == std::byte(m >> 16) && b[4] == std::byte(m >> 8) && b[5] == std::byte(m), "encode: then the length, in network order");
  if (v < m) plv_assert(b[6 + v] == in[v], "encode: then the bytes in order");
  plv_assert(p->data().size() == m && p->id() == id && p->offset() == skip, "encode: the packet stays as it is");
}
extern "C" void proof_encode_short() { encode(0, 15); }
extern "C" void proof_encode() { encode(16, 0xffffffffull); }
// encode then decode, with anything behind it
static void roundtrip(uint64_t lo, uint64_t hi, int what = 0) {
  uint64_t m = plv_range("m", lo, hi);
  auto *in = (std::byte *)plv_bytes("in", m);
  uint16_t id = plv_u16("id");
  PK::limit_t lim; lim.max_id = plv_u32("max_id"); lim.max_length = plv_u32("max_length");
  plv_assume(id != 0 && id <= lim.max_id && m <= lim.max_length);
  auto b = S::encode(any_packet(in, m, id));
  uint64_t k = plv_range("k", 0, 1ull << 40);
  auto *rest = (std::byte *)plv_bytes("rest", k);
  S::Basic s{nullptr};
  fill(s, nullptr, 0);
  plv_assume(s.write(b) == 6 + m);
  plv_assume(s.write(plain::const_byte_span_t{rest, k}) == k);
  uint64_t v = plv_index("v", m + 1), w = plv_index("w", k + 1);
  if (what == 1) plv_assume(w == k); else if (what == 2) plv_assume(v == m);
  auto r = S::decode(&s, lim);
  plv_assert(!plain::get_error(r), "round trip: an encoded packet is decoded");
  auto p = std::get<0>(r);
  plv_assert(p->id() == id && p->data().size() == m, "round trip: same id and length");
  if (v < m) plv_assert(p->data().data()[v] == in[v], "round trip: same bytes");
  plv_assert(s.size() == k, "round trip: the stream continues behind the packet");
  if (w < k) plv_assert(elem(s, w) == rest[w], "round trip: what follows is untouched");
}
extern "C" void proof_roundtrip_short() { roundtrip(0, 9); }
extern "C" void proof_roundtrip_mid() { roundtrip(10, 15); }
extern "C" void proof_roundtrip() { roundtrip(16, 0xffffffffull, 1); }
extern "C" void proof_roundtrip_rest() { roundtrip(16, 0xffffffffull, 2); }
