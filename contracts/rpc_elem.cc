// P10: the element contract used in rpc_seq.cc, proved for the real functions; arrays, tuples and objects made of elements.
#include "plv.h"
#include <array>
#include <cstring>
#include <tuple>
#include "plain/basic/config.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
using plain::net::rpc::Packer; using plain::net::rpc::Unpacker;
template <typename T> static void elem(T v) {
  uint64_t n = plv_range("n", 0, 1ull << 40), s = plv_range("s", 0, 1ull << 40);
  auto *in = (uint8_t *)plv_bytes("in", n); auto *rest = (uint8_t *)plv_bytes("rest", s);
  uint64_t w = plv_index("w", n + 1);
  Packer p;
  p.serialized_object_ = std::vector<uint8_t>{in, in + n};
  p.process(v);
  auto &b = p.vector();
  uint64_t len = b.size() - n;
  plv_assert(b.size() > n && len <= 9, "element: packing appends 1 to 9 bytes");
  if (w < n) plv_assert(b[w] == in[w], "element: what was packed before stays");
  auto *m = new uint8_t[n + len + s];
  std::memcpy(m, b.data(), n + len);
  std::memcpy(m + n + len, rest, s);
  Unpacker u{m, n + len + s};
  u.data_ = m + n;
  T r{};
  u.process(r);
  plv_assert(r == v && !u.error_, "element: unpacking where it was packed gives the value");
  plv_assert(u.data_ == m + n + len && u.data_end_ == m + n + len + s, "element: and moves behind it");
}
extern "C" void proof_elem_i32() { elem<int32_t>(plv_u32("v")); }
extern "C" void proof_elem_i64() { elem<int64_t>(plv_u64("v")); }
template <typename T> static void elem_cut(T v) {
  Packer p; p.process(v);
  auto &b = p.vector();
  uint64_t len = b.size(), k = plv_range("k", 0, len - 1);
  auto *m = new uint8_t[k];
  std::memcpy(m, b.data(), k);
  Unpacker u{m, k};
  T r{};
  u.process(r);
  plv_assert(bool(u.error_), "element: one that does not fit is an error");
  plv_assert(u.data_ >= m && u.data_ <= m + k && u.data_end_ == m + k, "element: the position stays inside the message");
}
extern "C" void proof_cut_i32() { elem_cut<int32_t>(plv_u32("v")); }
extern "C" void proof_cut_i64() { elem_cut<int64_t>(plv_u64("v")); }
extern "C" void proof_err_i32() {                       // once an error is there it stays, and the position stays inside
  uint64_t n = plv_range("n", 0, 1ull << 40), k = plv_range("k", 0, n); auto *in = (uint8_t *)plv_bytes("in", n);
  Unpacker u{in, n};
  u.data_ = in + k; u.error_ = plain::ErrorCode::OutOfRange;
  int32_t r;
  u.process(r);
  plv_assert(bool(u.error_) && u.data_ >= in && u.data_ <= in + n && u.data_end_ == in + n, "element: an error stays");
}
template <typename T, typename F> static void whole(const T &v, F same) {
  uint8_t next = plv_u8("next"), x = 0;
  Packer p; p.process(v, next);
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  T o{};
  u.process(o, x);
  plv_assert(!u.error_, "no error is reported");
  plv_assert(same(o, v), "every part");
  plv_assert(x == next, "the value behind it is intact");
  u.data();
  plv_assert(bool(u.error_), "all packed bytes are consumed");
}
static const auto eq = [](auto &a, auto &b) { return a == b; };
extern "C" void proof_tuple() { whole(std::tuple<uint16_t, int32_t, bool>{plv_u16("a"), plv_u32("b"), plv_bool("c")}, eq); }
extern "C" void proof_nested_tuple() { whole(std::tuple<int8_t, std::tuple<uint32_t, uint8_t>>{int8_t(plv_u8("a")), {plv_u32("b"), plv_u8("c")}}, eq); }
struct Point {
  int32_t x; uint16_t y;
  template <typename P> void pack(P &p) { p(x, y); }
};
extern "C" void proof_object() { whole(Point{int32_t(plv_u32("x")), plv_u16("y")}, [](auto &a, auto &b) { return a.x == b.x && a.y == b.y; }); }
struct Line {
  Point a; uint8_t n;
  template <typename P> void pack(P &p) { p(a, n); }
};
extern "C" void proof_nested_object() {
  Line l{{int32_t(plv_range("x", 0, 300)), uint16_t(plv_range("y", 0, 300))}, plv_u8("n")};
  whole(l, [](auto &a, auto &b) { return a.a.x == b.a.x && a.a.y == b.a.y && a.n == b.n; });
}
extern "C" void proof_time() {
  using C = std::chrono::system_clock;
  C::time_point t{C::duration{int64_t(plv_u64("t"))}}, o;
  Packer p; p.process(t);
  Unpacker u{p.vector().data(), p.vector().size()};
  u.process(o);
  plv_assert(!u.error_ && o == t, "a point in time");
}
