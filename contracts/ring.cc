// P01: the dynamic ring is an exact FIFO, whatever its capacity, fill, wrap position and history.
#include "plv.h"
#include <mutex>
#include <functional>
#include <vector>
#include "plain/basic/ring.h"
using namespace plain;
using R = DynamicRing<std::byte, 128>;
#include "ring_state.inc"
extern "C" void proof_init() {
  R r;
  check_ring(r);
  plv_assert(r.read_avail() == 0 && r.empty() && r.write_avail() == r.size(), "a new ring is empty");
}
extern "C" void proof_read() {
  R r; arbitrary_ring(r);
  uint64_t c = plv_u64("count");
  uint64_t n = r.read_avail();
  uint64_t want = c < n ? c : n;
  auto *out = (std::byte *)plv_bytes("out", want);
  uint64_t w = plv_index("w", n + 1);
  std::byte e{};
  if (w < n) e = r[w];
  auto got = r.read(out, c);
  plv_assert(got == want, "read: as many elements as asked for or available");
  plv_assert(r.read_avail() == n - want, "read: exactly the elements read leave the ring");
  if (w < want) plv_assert(out[w] == e, "read: elements come out in order");
  else if (w < n) plv_assert(r[w - want] == e, "read: the elements left keep their order");
  check_ring(r);
}
extern "C" void proof_peek() {
  R r; arbitrary_ring(r);
  uint64_t c = plv_u64("count");
  uint64_t n = r.read_avail();
  uint64_t want = c < n ? c : n;
  auto *out = (std::byte *)plv_bytes("out", want);
  uint64_t w = plv_index("w", n + 1);
  std::byte e{};
  if (w < n) e = r[w];
  auto got = r.read(out, c, true);
  plv_assert(got == want, "peek: as many elements as asked for or available");
  plv_assert(r.read_avail() == n, "peek: nothing leaves the ring");
  if (w < want) plv_assert(out[w] == e, "peek: elements in order");
  if (w < n) plv_assert(r[w] == e, "peek: contents unchanged");
  check_ring(r);
}
extern "C" void proof_remove_n() {
  R r; arbitrary_ring(r);
  uint64_t c = plv_u64("count");
  uint64_t n = r.read_avail();
  uint64_t want = c < n ? c : n;
  uint64_t w = plv_index("w", n + 1);
  std::byte e{};
  if (w < n) e = r[w];
  plv_assert(r.remove(size_t(c)) == want, "remove: as many as asked for or available");
  plv_assert(r.read_avail() == n - want, "remove: exactly those leave the ring");
  if (w >= want && w < n) plv_assert(r[w - want] == e, "remove: the rest keeps its order");
  check_ring(r);
}
static void write_body(bool grow) {
  R r; arbitrary_ring(r);
  uint64_t c = plv_range("count", 0, 1ull << 40);
  bool full = plv_bool("full");
  auto *in = (std::byte *)plv_bytes("in", c);
  uint64_t n = r.read_avail();
  uint64_t w = plv_index("w", n + c);
  std::byte e;
  if (w < n) e = r[w]; else e = in[w - n];
  plv_assume((c > r.write_avail()) == grow);
  auto got = r.write(in, c, full);
  plv_assert(got == c, "write: everything is stored");
  plv_assert(r.read_avail() == n + c, "write: exactly the written elements are added");
  plv_assert(r[w] == e, "write: old elements keep their order, new ones follow in order");
  check_ring(r);
}
extern "C" void proof_write() { write_body(false); }
extern "C" void proof_write_grow() { write_body(true); }
static void insert_body(bool grow) {
  R r; arbitrary_ring(r);
  uint64_t n = r.read_avail();
  std::byte x = std::byte(plv_u8("x"));
  uint64_t w = plv_index("w", n + 1);
  std::byte e = w < n ? r[w] : x;
  plv_assume((r.write_avail() == 0) == grow);
  bool ok = plv_bool("byptr") ? r.insert(&x) : r.insert(x);
  plv_assert(ok && r.read_avail() == n + 1, "insert: one element is added");
  plv_assert(r[w] == e, "insert: it goes behind the others");
  check_ring(r);
}
extern "C" void proof_insert() { insert_body(false); }
extern "C" void proof_insert_grow() { insert_body(true); }
extern "C" void proof_remove_one() {
  R r; arbitrary_ring(r);
  uint64_t n = r.read_avail();
  uint64_t w = plv_index("w", n + 1);
  std::byte e{};
  if (w < n) e = r[w];
  std::byte x{0xee};
  bool ok = plv_bool("byptr") ? r.remove(&x) : r.remove(x);
  plv_assert(ok == (n > 0), "remove one: succeeds exactly when there is an element");
  if (n == 0) { plv_assert(x == std::byte{0xee} && r.read_avail() == 0, "remove one: nothing happens to an empty ring"); return; }
  plv_assert(r.read_avail() == n - 1, "remove one: one element leaves");
  if (w == 0) plv_assert(x == e, "remove one: it is the oldest");
  else if (w < n) plv_assert(r[w - 1] == e, "remove one: the rest keeps its order");
  check_ring(r);
}
extern "C" void proof_queries() {
  R r; arbitrary_ring(r);
  uint64_t n = r.read_avail(), i = plv_u64("i");
  plv_assert(r.write_avail() == r.size() - n, "free space is capacity minus contents");
  plv_assert(r.full() == (n == r.size()) && r.empty() == (n == 0), "full and empty tell the truth");
  std::byte *p = r.at(i);
  plv_assert((p != nullptr) == (i < n), "at: only elements that are there");
  if (p) plv_assert(p == &r[i], "at: the i-th element");
  uint64_t c = plv_u64("c");
  std::byte *q = r.peek(c);
  plv_assert((q != nullptr) == (c <= n), "peek(count): null when fewer elements are there");
  if (q && n) plv_assert(q == &r[0], "peek(count): the oldest element");
}
extern "C" void proof_clear() {
  R r; arbitrary_ring(r);
  switch (plv_range("how", 0, 2)) { case 0: r.clear(); break; case 1: r.consumer_clear(); break; default: r.producer_clear(); }
  plv_assert(r.read_avail() == 0 && r.empty(), "clear: the ring is empty");
  check_ring(r);
}
#if defined(PLV_IR) && !defined(PLV_PUBLIC)
template <typename F> static uint64_t arbitrary_fixed(F &r) {
  uint64_t t = plv_range("tail", 0, 1ull << 60), n = plv_range("n", 0, 16);
  plv_havoc("contents", r.buffer_, 16 * 4);
  r.tail_.store(t); r.head_.store(t + n);
  return n;
}
#else
template <typename F> static uint64_t arbitrary_fixed(F &r) {
  uint64_t t = plv_range("tail", 0, 1ull << 60) & 15, n = plv_range("n", 0, 16);
  uint32_t b[16];
  plv_havoc("contents", b, 16 * 4);
  for (uint64_t i = 0; i < t; ++i) { uint32_t x; r.insert(x); r.remove(x); }
  for (uint64_t i = 0; i < n; ++i) r.insert(b[(t + i) & 15]);
  plv_assume(r.read_avail() == n);
  return n;
}
#endif
// a fixed ring never takes more than its capacity and never loses or reorders what it took
extern "C" void proof_fixed() {
  FixedRing<uint32_t, 16> r;
  uint64_t n = arbitrary_fixed(r);
  uint64_t w = plv_index("w", n + 1);
  uint32_t e = w < n ? r[w] : 0, x = plv_u32("x");
  bool ok = r.insert(x);
  plv_assert(ok == (n < 16), "fixed: refuses exactly when full");
  plv_assert(r.read_avail() == n + ok && r.size() == 16, "fixed: one more element");
  if (w < n) plv_assert(r[w] == e, "fixed: the others stay");
  else if (ok) plv_assert(r[w] == x, "fixed: the new one is last");
}
extern "C" void proof_fixed_write() {
  FixedRing<uint32_t, 16> r;
  uint64_t n = arbitrary_fixed(r);
  uint64_t c = plv_range("count", 0, 1ull << 40);
  bool full = plv_bool("full");
  auto *in = (uint32_t *)plv_bytes("in", c * 4);
  uint64_t w = plv_index("w", n + c);
  uint32_t e = w < n ? r[w] : in[w - n];
  uint64_t room = 16 - n, take = c <= room ? c : full ? 0 : room;
  plv_assert(r.write(in, c, full) == take, "fixed write: what fits, or nothing when all was asked for");
  plv_assert(r.read_avail() == n + take, "fixed write: exactly that is added");
  if (w < n + take) plv_assert(r[w] == e, "fixed write: in order");
}
