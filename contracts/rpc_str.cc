// P08: strings and byte vectors of any length and content survive an rpc, between other values, and a message cut short is noticed.
#include "plv.h"
#include <cstring>
#include "plain/basic/config.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
using plain::net::rpc::Packer; using plain::net::rpc::Unpacker;
template <typename T> static void roundtrip(const T &s, const uint8_t *in, uint64_t m, uint64_t v, bool any = true) {
  uint16_t first = plv_u16("first"); uint8_t next = plv_u8("next");
  if (!any) plv_assume(first >= 0x40 && first < 0x80 && next >= 0x40 && next < 0x80);   // neighbours of one form only (all forms: shorter lengths)
  Packer p; p.process(first, s, next);
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  uint16_t f = 0; T o; uint8_t x = 0;
  u.process(f, o, x);
  plv_assert(!u.error_, "no error is reported");
  plv_assert(o.size() == m, "same length");
  if (v < m) plv_assert(uint8_t(o[v]) == in[v], "every byte");
  plv_assert(f == first && x == next, "the values around it are intact");
  u.data();
  plv_assert(bool(u.error_), "all packed bytes are consumed");
}
static void str(uint64_t lo, uint64_t hi) {
  uint64_t m = plv_range("m", lo, hi); auto *in = (uint8_t *)plv_bytes("in", m);
  uint64_t v = plv_index("v", m + 1);
  std::string s{(char *)in, m};
  roundtrip(s, in, m, v, hi < 16);
}
extern "C" void proof_str_15() { str(0, 15); }
extern "C" void proof_str_31() { str(16, 31); }
extern "C" void proof_str_8() { str(32, 254); }
extern "C" void proof_str_16() { str(255, 65534); }
extern "C" void proof_str_32() { str(65535, 0xfffffffeull); }
static void bin(uint64_t lo, uint64_t hi) {
  uint64_t m = plv_range("m", lo, hi); auto *in = (uint8_t *)plv_bytes("in", m);
  uint64_t v = plv_index("v", m + 1);
  std::vector<uint8_t> s{in, in + m};
  roundtrip(s, in, m, v, hi < 16);
}
extern "C" void proof_bin_8() { bin(0, 254); }
extern "C" void proof_bin_16() { bin(255, 65534); }
extern "C" void proof_bin_32() { bin(65535, 0xfffffffeull); }
// a string view packs like the string
extern "C" void proof_view() {
  uint64_t m = plv_range("m", 0, 1ull << 20); auto *in = (char *)plv_bytes("in", m);
  uint64_t v = plv_index("v", m + 1);
  Packer p; p.process(std::string_view{in, m});
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  std::string o{"old"};
  u.process(o);
  plv_assert(!u.error_ && o.size() == m, "view: same length");
  if (v < m) plv_assert(o[v] == in[v], "view: every character");
}
// any part of a packed string or byte vector that is cut short gives an error, and nothing outside it is read
template <typename T> static void cut(const T &s) {
  Packer p; p.process(s);
  auto &b = p.vector();
  uint64_t k = plv_range("k", 0, b.size() - 1);
  auto *part = new uint8_t[k];
  std::memcpy(part, b.data(), k);
  Unpacker u{part, k};
  T o;
  u.process(o);
  plv_assert(bool(u.error_), "a message cut short is reported");
}
extern "C" void proof_cut_str() { uint64_t m = plv_range("m", 0, 0xfffffffeull); auto *in = (char *)plv_bytes("in", m); cut(std::string{in, m}); }
extern "C" void proof_cut_bin() { uint64_t m = plv_range("m", 0, 0xfffffffeull); auto *in = (uint8_t *)plv_bytes("in", m); cut(std::vector<uint8_t>{in, in + m}); }
