// P06: the line codec delivers lines exactly.
#include "codec_state.inc"
// what kind of packet a line is: 0 plain, 1 request, 2 response, 3 notification
static int kind(const std::byte *c, uint64_t line) {
  if (line < 5) return 0;
  char a = char(c[0]), b = char(c[1]), y = char(c[line - 2]), z = char(c[line - 1]);
  if (a != 'c' || z != 'c') return 0;
  if (b == 'r' && y == 'r' && line >= 9) return 1;
  if (b == 'o' && y == 'o' && line >= 13) return 2;
  if (b == 'n' && y == 'n') return 3;
  return 0;
}
extern "C" void proof_decode_null() {
  PK::limit_t lim;
  auto r = S::line_decode(nullptr, lim);
  plv_assert(plain::get_error(r) != nullptr, "line decode: no stream is an error");
}
// split by how the line starts, to keep the single proofs small: 0 not like an rpc line, 1 .. 3 like an rpc line of that kind, 4 a lone or other 'c'
static int begins(const std::byte *c, uint64_t n) {
  if (n == 0 || c[0] != std::byte{'c'}) return 0;
  if (n < 2) return 4;
  return c[1] == std::byte{'r'} ? 1 : c[1] == std::byte{'o'} ? 2 : c[1] == std::byte{'n'} ? 3 : 4;
}
static void decode_any(int how, uint64_t Llo, uint64_t Lhi) {
  S::Basic s{nullptr};
  uint64_t n = plv_range("n", 0, 1ull << 40);
  auto *c = (std::byte *)plv_bytes("content", n);
  plv_assume(begins(c, n) == how);
  fill(s, c, n);
  PK::limit_t lim;
  uint64_t L = plv_range("max_length", Llo, Lhi);
  lim.max_length = uint32_t(L);
  uint64_t k = n < L ? n : L;
  uint64_t w = plv_index("w", n + 1);
  auto r = S::line_decode(&s, lim);
  auto e = plain::get_error(r);
  uint64_t used = n - s.size();
  if (e) {
    plv_assert(used == 0, "line decode: nothing leaves the stream without a line");
    if (w < n) plv_assert(elem(s, w) == c[w], "line decode: the stream stays as it was without a line");
    if (w < k) plv_assert(c[w] != std::byte{'\n'}, "line decode: a complete line within the limit is delivered");
    plv_assert(is(e, plain::ErrorCode::NetPacketNeedRecv) == (k < L), "line decode: waits for more unless the line is too long");
    return;
  }
  plv_assert(used >= 1 && used <= k && c[used - 1] == std::byte{'\n'}, "line decode: takes up to a line end within the limit");
  if (w < used - 1) plv_assert(c[w] != std::byte{'\n'}, "line decode: takes only the first line");
  if (w >= used && w < n) plv_assert(elem(s, w - used) == c[w], "line decode: what follows stays");
  uint64_t line = used - 1;
  if (line > 0 && c[line - 1] == std::byte{'\r'}) --line;
  int kd = kind(c, line);
  uint64_t start = kd ? 2 : 0, len = kd ? line - 4 : line;
  auto p = std::get<0>(r);
  plv_assert(p->is_call_request() == (kd == 1) && p->is_call_response() == (kd == 2) && p->is_call_notify() == (kd == 3), "line decode: rpc lines are marked as what they are");
  plv_assert(p->data().size() == len && p->offset() == 0, "line decode: the packet is the line without its end or marks");
  uint64_t v = plv_index("v", len + 1);
  if (v < len) plv_assert(p->data().data()[v] == c[start + v], "line decode: every character");
  std::byte b{};
  plv_assert(p->write(&b, 1) == 0, "line decode: the packet is not writeable");
  if (len > 0) plv_assert(p->read(&b, 1) == 1 && b == c[start], "line decode: the packet is readable");
}
extern "C" void proof_decode_plain_small() { decode_any(0, 1, 15); }
extern "C" void proof_decode_plain_mid() { decode_any(0, 16, 30); }
extern "C" void proof_decode_plain_large() { decode_any(0, 31, 0xffffffffull); }
extern "C" void proof_decode_request_small() { decode_any(1, 1, 15); }
extern "C" void proof_decode_request_mid() { decode_any(1, 16, 30); }
extern "C" void proof_decode_request_large() { decode_any(1, 31, 0xffffffffull); }
extern "C" void proof_decode_response_small() { decode_any(2, 1, 15); }
extern "C" void proof_decode_response_mid() { decode_any(2, 16, 30); }
extern "C" void proof_decode_response_large() { decode_any(2, 31, 0xffffffffull); }
extern "C" void proof_decode_notify_small() { decode_any(3, 1, 15); }
extern "C" void proof_decode_notify_mid() { decode_any(3, 16, 30); }
extern "C" void proof_decode_notify_large() { decode_any(3, 31, 0xffffffffull); }
extern "C" void proof_decode_other_small() { decode_any(4, 1, 15); }
extern "C" void proof_decode_other_mid() { decode_any(4, 16, 30); }
extern "C" void proof_decode_other_large() { decode_any(4, 31, 0xffffffffull); }
static std::shared_ptr<PB> any_packet(std::byte *in, uint64_t m, uint64_t kd) {
  auto p = std::make_shared<PB>();
  p->set_writeable(true); p->set_readable(true);
  if (kd == 1) p->set_call_request(true); else if (kd == 2) p->set_call_response(true); else if (kd == 3) p->set_call_notify(true);
  plv_assume(p->write(in, m) == m);
  return p;
}
static void encode(uint64_t lo, uint64_t hi, uint64_t klo, uint64_t khi) {
  uint64_t m = plv_range("m", lo, hi);
  auto *in = (std::byte *)plv_bytes("in", m);
  uint64_t kd = plv_range("kind", klo, khi);
  auto p = any_packet(in, m, kd);
  uint64_t v = plv_index("v", m + 1);
  auto b = S::line_encode(p);
  uint64_t x = kd ? 2 : 0;
  char t = kd == 1 ? 'r' : kd == 2 ? 'o' : 'n';
  plv_assert(b.size() == m + 2 * x + 1 && b[m + 2 * x] == std::byte{'\n'}, "line encode: one line");
  if (kd) plv_assert(b[0] == std::byte{'c'} && b[1] == std::byte(t) && b[m + 2] == std::byte(t) && b[m + 3] == std::byte{'c'}, "line encode: rpc packets carry their marks");
  if (v < m) plv_assert(b[x + v] == in[v], "line encode: the bytes in order");
}
extern "C" void proof_encode_short() { encode(0, 15, 0, 0); }
extern "C" void proof_encode() { encode(16, 1ull << 40, 0, 0); }
extern "C" void proof_encode_rpc_short() { encode(0, 15, 1, 3); }
extern "C" void proof_encode_rpc() { encode(16, 1ull << 40, 1, 3); }
