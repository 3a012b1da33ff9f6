// P03: what is written to a packet is read back from it, exactly and in order, under the packet's access flags.
#include "plv.h"
#include <cstring>
#include <string_view>
#include <vector>
#include <memory>
#include "plain/net/packet/basic.h"
using plain::bytes_t;
using P = plain::net::packet::Basic;
// an arbitrary packet: any bytes, any number of them already read.  Built with the public operations (their contracts are proved below).
#define PACKET(p) P p; p.set_readable(true); p.set_writeable(true); \
  uint64_t n = plv_range("n", 0, 1ull << 40); auto *content = (std::byte *)plv_bytes("content", n); \
  plv_assume(p.write(content, n) == n); \
  uint64_t o = plv_range("offset", 0, n); plv_assume(p.remove(o) == o && p.data().size() == n && p.offset() == o)
static std::byte at(P &p, uint64_t i) { return p.data().data()[i]; }
extern "C" void proof_new() {
  P p;
  plv_assert(p.data().size() == 0 && p.offset() == 0 && p.id() == 0, "a new packet is empty");
  plv_assert(!p.is_call_request() && !p.is_call_response() && !p.is_call_notify(), "a new packet is no rpc call");
  std::byte b{1};
  plv_assert(p.write(&b, 1) == 0 && p.data().size() == 0, "a new packet takes nothing before it is made writeable");
  auto id = plv_u16("id");
  p.set_id(id);
  plv_assert(p.id() == id, "a packet keeps its id");
}
extern "C" void proof_write_raw() {
  PACKET(p);
  uint64_t m = plv_range("m", 0, 1ull << 40); auto *in = (std::byte *)plv_bytes("in", m);
  bool on = plv_bool("writeable");
  p.set_writeable(on);
  uint64_t w = plv_index("w", n + 1), v = plv_index("v", m + 1);
  bool span = plv_bool("span");
  size_t r = span ? p.write(plain::const_byte_span_t{in, m}) : p.write(in, m);
  plv_assert(r == (on ? m : 0), "write: reports what was written");
  plv_assert(p.data().size() == n + (on ? m : 0), "write: appends exactly the bytes given, or nothing when not writeable");
  plv_assert(p.offset() == o, "write: the read position stays");
  if (w < n) plv_assert(at(p, w) == content[w], "write: earlier bytes stay");
  if (on && v < m) plv_assert(at(p, n + v) == in[v], "write: the bytes follow in order");
}
extern "C" void proof_read_raw() {
  PACKET(p);
  uint64_t m = plv_u64("m");   // any length: a request for more than is left must not touch the target
  uint64_t have = m <= n - o ? m : 1;
  auto *out = (std::byte *)plv_bytes("out", have);
  bool on = plv_bool("readable");
  p.set_readable(on);
  uint64_t v = plv_index("v", have + 1), w = plv_index("w", n + 1);
  std::byte before{};
  if (v < have) before = out[v];
  size_t r = p.read(out, m);
  bool ok = on && m <= n - o;
  plv_assert(r == (ok ? m : 0), "read: all or nothing");
  plv_assert(p.offset() == o + (ok ? m : 0), "read: consumes exactly what it delivers");
  plv_assert(p.data().size() == n, "read: the packet keeps its bytes");
  if (w < n) plv_assert(at(p, w) == content[w], "read: the packet's bytes stay");
  if (v < have) plv_assert(out[v] == (ok ? content[o + v] : before), "read: delivers the next bytes in order");
}
extern "C" void proof_remove() {
  PACKET(p);
  uint64_t m = plv_u64("m");
  uint64_t want = m < n - o ? m : n - o;
  plv_assert(p.remove(m) == want && p.offset() == o + want && p.data().size() == n, "remove: skips what there is, at most");
}
// a length-prefixed string or byte string, then a following field, after arbitrary earlier contents
static void rt_string(uint64_t lo, uint64_t hi) {
  P p; p.set_readable(true); p.set_writeable(true);
  uint64_t n = plv_range("n", 0, 1ull << 40); auto *content = (std::byte *)plv_bytes("content", n);
  plv_assume(p.write(content, n) == n && p.remove(n) == n);
  uint64_t m = plv_range("m", lo, hi); auto *in = (char *)plv_bytes("in", m);
  uint64_t v = plv_index("v", m + 1);
  plv_assert(p.write(std::string_view{in, m}) == m, "write string: reports its length");
  plv_assert(p.data().size() == n + m + 4, "write string: a 4-byte length and the characters");
  plv_assert(at(p, n) == std::byte(m >> 24) && at(p, n + 1) == std::byte(m >> 16) && at(p, n + 2) == std::byte(m >> 8) && at(p, n + 3) == std::byte(m), "write string: the length goes first, in network order");
  auto x = plv_u32("next");
  p << x;
  std::string out;
  size_t r = p.read(out);
  plv_assert(r == m && out.size() == m, "read string: the whole string");
  if (v < m) plv_assert(out[v] == in[v], "read string: every character");
  uint32_t y = 0;
  p >> y;
  plv_assert(y == x && p.offset() == p.data().size(), "read string: the next field follows");
}
extern "C" void proof_string_short() { rt_string(0, 15); }
extern "C" void proof_string_long() { rt_string(16, 0xffffffffull); }
static void rt_bytes(uint64_t lo, uint64_t hi) {
  P p; p.set_readable(true); p.set_writeable(true);
  uint64_t n = plv_range("n", 0, 1ull << 40); auto *content = (std::byte *)plv_bytes("content", n);
  plv_assume(p.write(content, n) == n && p.remove(n) == n);
  uint64_t m = plv_range("m", lo, hi); auto *in = (std::byte *)plv_bytes("in", m);
  uint64_t v = plv_index("v", m + 1);
  bytes_t b; b.append(in, m);
  plv_assert(p.write(b) == m, "write bytes: reports their number");
  plv_assert(p.data().size() == n + m + 4, "write bytes: a 4-byte length and the bytes");
  auto x = plv_u32("next");
  p << x;
  bytes_t out;
  size_t r = p.read(out);
  plv_assert(r == m && out.size() == m, "read bytes: all of them");
  if (v < m) plv_assert(out[v] == in[v], "read bytes: every byte");
  uint32_t y = 0;
  p >> y;
  plv_assert(y == x && p.offset() == p.data().size(), "read bytes: the next field follows");
}
extern "C" void proof_bytes_short() { rt_bytes(0, 15); }
extern "C" void proof_bytes_long() { rt_bytes(16, 0xffffffffull); }
extern "C" void proof_string_off() {
  PACKET(p);
  uint64_t m = plv_range("m", 0, 1ull << 30); auto *in = (char *)plv_bytes("in", m);
  p.set_writeable(false);
  plv_assert(p.write(std::string_view{in, m}) == 0 && p.data().size() == n, "write string: refused when not writeable");
  p.set_readable(false);
  std::string out; bytes_t outb;
  plv_assert(p.read(out) == 0 && out.empty() && p.read(outb) == 0 && outb.empty() && p.offset() == o, "read string: refused when not readable");
}
// a string read from arbitrary packet bytes stays inside the packet
extern "C" void proof_read_string_any() {
  PACKET(p);
  std::string out;
  size_t r = p.read(out);
  uint64_t left = n - o;
  uint64_t len = 0;
  if (left >= 4) len = uint64_t(content[o]) << 24 | uint64_t(content[o + 1]) << 16 | uint64_t(content[o + 2]) << 8 | uint64_t(content[o + 3]);
  bool ok = left >= 4 && len <= left - 4;
  plv_assert(r == (ok ? len : 0) && out.size() == r, "read string: exactly the announced length, or nothing if the packet is shorter");
  uint64_t v = plv_index("v", r + 1);
  if (v < r) plv_assert(out[v] == char(content[o + 4 + v]), "read string: the characters of the packet");
  plv_assert(p.offset() <= n && (!ok || p.offset() == o + 4 + len), "read string: the read position stays inside the packet");
}
extern "C" void proof_read_bytes_any() {
  PACKET(p);
  bytes_t out;
  size_t r = p.read(out);
  uint64_t left = n - o;
  uint64_t len = 0;
  if (left >= 4) len = uint64_t(content[o]) << 24 | uint64_t(content[o + 1]) << 16 | uint64_t(content[o + 2]) << 8 | uint64_t(content[o + 3]);
  bool ok = left >= 4 && len <= left - 4;
  plv_assert(r == (ok ? len : 0) && out.size() == r, "read bytes: exactly the announced length, or nothing if the packet is shorter");
  uint64_t v = plv_index("v", r + 1);
  if (v < r) plv_assert(out[v] == content[o + 4 + v], "read bytes: the bytes of the packet");
  plv_assert(p.offset() <= n && (!ok || p.offset() == o + 4 + len), "read bytes: the read position stays inside the packet");
}
template <typename T> static void number(T x) {
  P p; p.set_readable(true); p.set_writeable(true);
  uint64_t n = plv_range("n", 0, 1ull << 40); auto *content = (std::byte *)plv_bytes("content", n);
  plv_assume(p.write(content, n) == n && p.remove(n) == n);
  p << x;
  plv_assert(p.data().size() == n + sizeof(T), "number: takes exactly its size");
  const unsigned char *raw = (const unsigned char *)&x;
  for (size_t i = 0; i < sizeof(T); ++i) plv_assert(at(p, n + i) == std::byte(raw[sizeof(T) - 1 - i]), "number: in network byte order");
  T y{};
  p >> y;
  plv_assert(std::memcmp(&x, &y, sizeof(T)) == 0, "number: read back unchanged");
  plv_assert(p.offset() == n + sizeof(T), "number: consumes exactly its size");
  p >> y;
  T z{};
  plv_assert(std::memcmp(&z, &y, sizeof(T)) == 0 && p.offset() == n + sizeof(T), "number: zero when the packet is exhausted");
}
extern "C" void proof_u8() { number<uint8_t>(plv_u8("x")); }
extern "C" void proof_i8() { number<int8_t>(int8_t(plv_u8("x"))); }
extern "C" void proof_u16() { number<uint16_t>(plv_u16("x")); }
extern "C" void proof_i16() { number<int16_t>(int16_t(plv_u16("x"))); }
extern "C" void proof_u32() { number<uint32_t>(plv_u32("x")); }
extern "C" void proof_i32() { number<int32_t>(int32_t(plv_u32("x"))); }
extern "C" void proof_u64() { number<uint64_t>(plv_u64("x")); }
extern "C" void proof_i64() { number<int64_t>(int64_t(plv_u64("x"))); }
extern "C" void proof_bool() { number<bool>(plv_bool("x")); }
extern "C" void proof_float() { auto v = plv_u32("x"); float f; std::memcpy(&f, &v, 4); number<float>(f); }
extern "C" void proof_double() { auto v = plv_u64("x"); double f; std::memcpy(&f, &v, 8); number<double>(f); }
static bool readable(P &p) { auto k = p.offset(); std::byte b; return p.read(&b, 1) == 1; }
extern "C" void proof_flags() {
  P p; p.set_writeable(true);
  std::byte four[4] = {};
  p.write(four, 4);
  bool f[5];
  for (int i = 0; i < 5; ++i) f[i] = plv_bool("f");
  // any earlier state of the five flags, then one change
  p.set_readable(f[0]); p.set_writeable(f[1]); p.set_call_request(f[2]); p.set_call_response(f[3]); p.set_call_notify(f[4]);
  uint64_t k = plv_range("k", 0, 4); bool v = plv_bool("v");
  if (k == 0) p.set_readable(v); else if (k == 1) p.set_writeable(v); else if (k == 2) p.set_call_request(v); else if (k == 3) p.set_call_response(v); else p.set_call_notify(v);
  for (int i = 0; i < 5; ++i) if (k == i) f[i] = v;
  plv_assert(p.is_call_request() == f[2] && p.is_call_response() == f[3] && p.is_call_notify() == f[4], "flags: the call flags are what was last set");
  plv_assert(readable(p) == f[0], "flags: readable is what was last set");
  std::byte b{};
  plv_assert((p.write(&b, 1) == 1) == f[1], "flags: writeable is what was last set");
}
