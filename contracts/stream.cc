// P01 (stream part): the stream buffer is an exact FIFO.
#include "stream_env.inc"
extern "C" void proof_stream_new() {
  S::Basic s{nullptr};
  plv_assert(s.size() == 0 && s.empty(), "a new stream is empty");
  check_ring(s.impl_->buffer);
}
extern "C" void proof_stream_read() {
  STREAM(s);
  uint64_t n = s.size(), c = plv_u64("count"), want = c < n ? c : n;
  auto *out = (std::byte *)plv_bytes("out", want);
  uint64_t w = plv_index("w", n + 1);
  std::byte e{};
  if (w < n) e = at(s, w);
  plv_assert(s.read(out, c) == want, "stream read: as many bytes as asked for or available");
  plv_assert(s.size() == n - want && s.empty() == (n == want), "stream read: exactly those leave the stream");
  if (w < want) plv_assert(out[w] == e, "stream read: in order");
  else if (w < n) plv_assert(at(s, w - want) == e, "stream read: the rest keeps its order");
  check_ring(s.impl_->buffer);
}
extern "C" void proof_stream_peek() {
  STREAM(s);
  uint64_t n = s.size(), c = plv_u64("count"), want = c < n ? c : n;
  auto *out = (std::byte *)plv_bytes("out", want);
  uint64_t w = plv_index("w", n + 1);
  std::byte e{};
  if (w < n) e = at(s, w);
  plv_assert(s.peek(out, c) == want, "stream peek: as many bytes as asked for or available");
  plv_assert(s.size() == n, "stream peek: nothing leaves the stream");
  if (w < want) plv_assert(out[w] == e, "stream peek: in order");
  if (w < n) plv_assert(at(s, w) == e, "stream peek: contents unchanged");
}
extern "C" void proof_stream_remove() {
  STREAM(s);
  uint64_t n = s.size(), c = plv_u64("count"), want = c < n ? c : n;
  uint64_t w = plv_index("w", n + 1);
  std::byte e{};
  if (w < n) e = at(s, w);
  plv_assert(s.remove(c) == want, "stream remove: as many as asked for or available");
  plv_assert(s.size() == n - want, "stream remove: exactly those leave the stream");
  if (w >= want && w < n) plv_assert(at(s, w - want) == e, "stream remove: the rest keeps its order");
  plv_assert(s.read(nullptr, 1) == 0 && s.peek(nullptr, 1) == 0 && s.size() == n - want, "stream: a null destination reads nothing");
}
extern "C" void proof_stream_write() {
  STREAM(s);
  uint64_t n = s.size(), c = plv_range("count", 0, 1ull << 40);
  auto *in = (const std::byte *)plv_bytes("in", c);
  uint64_t w = plv_index("w", n + c);
  std::byte e = w < n ? at(s, w) : in[w - n];
  plv_assume(c <= s.impl_->buffer.write_avail());   // growth: ring.cc proof_write_grow
  size_t got;
  if (plv_bool("as_string")) got = s.write(std::string_view{(const char *)in, c});
  else got = s.write(plain::const_byte_span_t{in, c});
  plv_assert(got == c, "stream write: everything is stored");
  plv_assert(s.size() == n + c, "stream write: exactly the written bytes are added");
  plv_assert(at(s, w) == e, "stream write: appended in order");
  check_ring(s.impl_->buffer);
}
extern "C" void proof_stream_clear() {
  STREAM(s);
  s.clear();
  plv_assert(s.size() == 0 && s.empty(), "stream clear: empty");
  check_ring(s.impl_->buffer);
}
template <typename T> static void put_get(T v) {
  S::Basic s{nullptr};
  uint64_t t = plv_range("tail", 0, 1ull << 60);
  s.impl_->buffer.tail_.store(t); s.impl_->buffer.head_.store(t);
  s << v;
  plv_assert(s.size() == sizeof(T), "stream <<: exactly the size of the value");
  for (size_t i = 0; i < sizeof(T); ++i) plv_assert(uint8_t(at(s, i)) == uint8_t(uint64_t(v) >> (8 * (sizeof(T) - 1 - i))), "stream <<: network byte order");
  T r = T(plv_u64("garbage"));
  s >> r;
  plv_assert(r == v && s.empty(), "stream >>: the value that was written");
}
extern "C" void proof_stream_put_u16() { put_get<uint16_t>(plv_u16("v")); }
extern "C" void proof_stream_put_u32() { put_get<uint32_t>(plv_u32("v")); }
extern "C" void proof_stream_put_i64() { put_get<int64_t>(plv_u64("v")); }
extern "C" void proof_stream_put_u8() { put_get<uint8_t>(plv_u8("v")); }
