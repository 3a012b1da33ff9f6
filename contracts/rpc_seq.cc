// P10: containers of any length survive an rpc.  The element operations pack(int32_t) / unpack(int32_t &) are used under their contract
// (proved for the real functions in rpc_elem.cc): packing appends 1 to 9 bytes; unpacking at those bytes gives that value back and moves behind them.
#include "plv.h"
#include <array>
#include <list>
#include <map>
#include "plain/basic/config.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
using plain::net::rpc::Packer; using plain::net::rpc::Unpacker;
// the i-th element packed takes the bytes [head + pos(i), head + pos(i + 1)) of the message
static struct { uint64_t k, j, m, head; const int32_t *in; const int64_t *in2; const uint8_t *base; uint64_t cut; uint64_t half; } q;
static uint64_t pos(uint64_t i) { return i == 0 ? 0 : plv_uf("pos", i, 0, 0); }
static void pack_elem(Packer *p, int64_t v, int64_t expected) {
  plv_assert(q.k < q.m && v == expected, "elements are packed once each, in order");
  uint64_t a = pos(q.k), b = pos(q.k + 1);
  plv_assume(b > a && b - a <= 9);
  plv_vec_grow(&p->serialized_object_, b - a);
  ++q.k;
}
static bool unpack_elem(Unpacker *u) {
  if (q.cut) {                                        // anything may follow an error; an element that does not fit is an error
    plv_assert(u->data_ <= u->data_end_, "elements are unpacked inside the message");
    bool fits = !u->error_ && q.j < q.m && uint64_t(u->data_end_ - u->data_) >= pos(q.j + 1) - pos(q.j);
    if (!fits) { u->error_ = plain::ErrorCode::OutOfRange; u->data_ = q.base + plv_range("at", 0, q.cut - 1); ++q.j; return false; }
  } else {
    plv_assert(q.j < q.m && u->data_ == q.base + q.head + pos(q.j), "elements are unpacked once each, where they were packed");
  }
  uint64_t a = pos(q.j), b = pos(q.j + 1);
  plv_assume(b > a && b - a <= 9 && b <= pos(q.m));
  u->data_ = q.base + q.head + b;
  ++q.j;
  return true;
}
// sequences of int32_t
extern "C" void c_pack(Packer *p, int32_t v) { pack_elem(p, v, q.in[q.k]); }
extern "C" void c_unpack(Unpacker *u, int32_t *v) { int32_t x = q.cut ? plv_u32("any") : q.in[q.j]; unpack_elem(u); *v = x; }
// entries of a map: a key, then a value; half is the number of values so far
extern "C" void m_pack(Packer *p, int32_t v) { plv_assert(q.k == 2 * q.half, "the key comes first"); pack_elem(p, v, q.in[q.half]); }
extern "C" void m_pack8(Packer *p, int64_t v) { plv_assert(q.k == 2 * q.half + 1, "the value follows its key"); pack_elem(p, v, q.in2[q.half]); ++q.half; }
extern "C" void m_unpack(Unpacker *u, int32_t *v) { plv_assert(q.j == 2 * q.half, "the key is read first"); *v = q.in[q.half]; unpack_elem(u); }
extern "C" void m_unpack8(Unpacker *u, int64_t *v) { plv_assert(q.j == 2 * q.half + 1, "the value is read after its key"); *v = q.in2[q.half]; unpack_elem(u); ++q.half; }
static bool inv_pack(void *x) {
  auto &b = ((Packer *)x)->serialized_object_;
  return q.k <= q.m && b.size() == q.head + pos(q.k) && pos(q.k) <= 9 * q.k && plv_objsize(b.data()) == b.size();
}
static bool inv_unpack(void *x) { return q.j <= q.m && ((Unpacker *)x)->data_ == q.base + q.head + pos(q.j); }
static bool inv_cut(void *x) {
  auto *u = (Unpacker *)x;
  return u->data_ <= u->data_end_ && (bool(u->error_) || (q.j <= q.m && u->data_ == q.base + q.head + pos(q.j)));
}
static uint64_t head(uint64_t hi) { return hi < 16 ? 1 : hi < 65535 ? 3 : 5; }
static void packed() {
  if (plv_contracts()) plv_assert(q.k == q.m, "all elements are packed");
}
static void unpacked(Unpacker &u) {
  if (plv_contracts()) {
    plv_assert(q.j == q.m && u.data_ == q.base + q.head + pos(q.m), "all elements are unpacked");
    plv_assert(u.data_end_ == q.base + q.head + pos(q.m), "the message ends with the last element");
  }
  plv_assert(!u.error_, "no error is reported");
  u.data();
  plv_assert(bool(u.error_), "all packed bytes are consumed");
}
static void roundtrip(uint64_t lo, uint64_t hi) {
  uint64_t m = plv_range("m", lo, hi); auto *in = (int32_t *)plv_bytes("in", m * 4);
  uint64_t w = plv_index("w", m + 1);
  std::vector<int32_t> c{in, in + m}, o;
  Packer p;
  q = {0, 0, m, head(hi), in, nullptr, nullptr, 0, 0};
  plv_loop_invariant("pack_array", inv_pack, &p);
  p.process(c);
  packed();
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  q.base = b.data();
  plv_loop_invariant("unpack_array", inv_unpack, &u);
  u.process(o);
  plv_assert(o.size() == m, "same length");
  if (w < m) plv_assert(o[w] == in[w], "every element, in order");
  unpacked(u);
}
extern "C" void proof_vec_15() { roundtrip(0, 15); }
extern "C" void proof_vec_16() { roundtrip(16, 65534); }
extern "C" void proof_vec_32() { roundtrip(65535, 0xfffffffeull); }
// a sequence message that is cut short, anywhere, is reported
static void cut(uint64_t lo, uint64_t hi) {
  uint64_t m = plv_range("m", lo, hi); auto *in = (int32_t *)plv_bytes("in", m * 4);
  std::vector<int32_t> c{in, in + m}, o;
  Packer p;
  q = {0, 0, m, head(hi), in, nullptr, nullptr, 1, 0};
  plv_loop_invariant("pack_array", inv_pack, &p);
  p.process(c);
  auto &b = p.vector();
  uint64_t k = plv_range("k", 0, b.size() - 1);
  Unpacker u{b.data(), k};
  q.cut = k + 1;
  q.base = b.data();
  plv_loop_invariant("unpack_array", inv_cut, &u);
  u.process(o);
  plv_assert(bool(u.error_), "a sequence cut short is reported");
}
extern "C" void proof_cut_15() { cut(0, 15); }
extern "C" void proof_cut_16() { cut(16, 65534); }
extern "C" void proof_cut_32() { cut(65535, 0xfffffffeull); }
// fixed arrays: packed like sequences; they take at most their own length from a message, and more elements than that are an error
template <uint64_t N> static void array() {
  auto *in = (int32_t *)plv_bytes("in", N * 4);
  std::array<int32_t, N> c, o{};
  for (uint64_t i = 0; i < N; ++i) c[i] = in[i];
  Packer p;
  q = {0, 0, N, head(N), in, nullptr, nullptr, 0, 0};
  p.process(c);
  packed();
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  q.base = b.data();
  u.process(o);
  for (uint64_t i = 0; i < N; ++i) plv_assert(o[i] == in[i], "array: every element");
  unpacked(u);
}
extern "C" void proof_array_5() { array<5>(); }
extern "C" void proof_array_20() { array<20>(); }
static void other_length(uint64_t lo, uint64_t hi) {
  uint64_t m = plv_range("m", lo, hi); auto *in = (int32_t *)plv_bytes("in", m * 4);
  std::vector<int32_t> c{in, in + m};
  Packer p;
  q = {0, 0, m, head(hi), in, nullptr, nullptr, 0, 0};
  plv_loop_invariant("pack_array", inv_pack, &p);
  p.process(c);
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  q.base = b.data();
  plv_loop_invariant("unpack_array", inv_unpack, &u);
  std::array<int32_t, 5> o{};
  u.process(o);
  plv_assert(bool(u.error_) == (m > 5), "array: more elements than fit are reported");
  for (uint64_t i = 0; i < 5; ++i) plv_assert(o[i] == (i < m ? in[i] : 0), "array: the elements that fit, and no others");
}
extern "C" void proof_other_length_15() { other_length(0, 15); }
extern "C" void proof_other_length_16() { other_length(16, 65534); }
// pack_map / unpack_map for a map that hands out and takes its entries one by one (std::map itself is library code)
struct Entries {
  using key_type = int32_t; using mapped_type = int64_t;
  struct It { const int32_t *k; const int64_t *v; bool operator!=(const It &o) const { return k != o.k; } void operator++() { ++k; ++v; } std::pair<int32_t, int64_t> operator*() const { return {*k, *v}; } };
  int32_t *k; int64_t *v; uint64_t n;
  uint64_t size() const { return n; }
  It begin() const { return {k, v}; }
  It end() const { return {k + n, v + n}; }
  void insert_or_assign(int32_t a, int64_t b) { k[n] = a; v[n] = b; ++n; }
};
template <> struct plain::net::rpc::is_map<Entries> { static constexpr bool value = true; };
static void map(uint64_t lo, uint64_t hi) {
  uint64_t m = plv_range("m", lo, hi); auto *in = (int32_t *)plv_bytes("keys", m * 4); auto *in2 = (int64_t *)plv_bytes("values", m * 8);
  uint64_t w = plv_index("w", m + 1);
  Entries c{in, in2, m}, o{(int32_t *)plv_bytes("okeys", m * 4), (int64_t *)plv_bytes("ovalues", m * 8), 0};
  Packer p;
  q = {0, 0, 2 * m, head(hi), in, in2, nullptr, 0, 0};
  plv_loop_invariant("pack_map", inv_pack, &p);
  p.process(c);
  packed();
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  q.base = b.data();
  q.half = 0;
  plv_loop_invariant("unpack_map", inv_unpack, &u);
  u.process(o);
  plv_assert(o.n == m, "map: same size");
  if (w < m) { plv_assert(o.k[w] == in[w], "map: every key"); plv_assert(o.v[w] == in2[w], "map: the value of every key"); }
  unpacked(u);
}
extern "C" void proof_map_15() { map(0, 15); }
extern "C" void proof_map_16() { map(16, 65534); }
extern "C" void proof_map_32() { map(65535, 0xfffffffeull); }
