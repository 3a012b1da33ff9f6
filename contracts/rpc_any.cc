// P11: unpacking arbitrary bytes never reads or writes outside the message or the result.
// The message is an object of exactly n bytes: every access outside it is a failed obligation.
#include "plv.h"
#include <array>
#include <cstring>
#include "plain/basic/config.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
using plain::net::rpc::Packer; using plain::net::rpc::Unpacker;
#define MSG(u) uint64_t n = plv_range("n", 0, 1ull << 40); auto *in = (uint8_t *)plv_bytes("in", n); Unpacker u{in, n}
template <typename A, typename B> static void two() {
  MSG(u);
  A a{}; B b{};
  u.process(a, b);
  if (n < 2) plv_assert(bool(u.error_), "a message without room for the values is reported");
}
extern "C" void proof_u8() { two<uint8_t, uint8_t>(); }
extern "C" void proof_i8() { two<int8_t, bool>(); }
extern "C" void proof_u16() { two<uint16_t, std::nullptr_t>(); }
extern "C" void proof_i16() { two<int16_t, uint8_t>(); }
extern "C" void proof_u32() { two<uint32_t, uint8_t>(); }
extern "C" void proof_i32() { two<int32_t, uint8_t>(); }
extern "C" void proof_u64() { two<uint64_t, uint8_t>(); }
extern "C" void proof_i64() { two<int64_t, uint8_t>(); }
extern "C" void proof_float() { two<float, uint8_t>(); }
extern "C" void proof_double() { two<double, uint8_t>(); }
// a value whose tag announces more bytes than the message has is an error; one that fits is not
template <typename T> static void fits(uint8_t t1, uint8_t t2, uint8_t t4, uint8_t t8) {
  MSG(u);
  T x{};
  u.process(x);
  uint64_t need = 1;
  if (n > 0) {
    uint8_t t = in[0];
    if (t == t1) need = 2; else if (t == t2) need = 3; else if (t == t4) need = 5; else if (t == t8) need = 9;
  }
  plv_assert(bool(u.error_) == (n < need), "an integer is reported exactly if it is cut short");
}
extern "C" void proof_fits_u8() { fits<uint8_t>(2, 2, 2, 2); }
extern "C" void proof_fits_u16() { fits<uint16_t>(2, 4, 4, 4); }
extern "C" void proof_fits_u32() { fits<uint32_t>(2, 4, 6, 6); }
extern "C" void proof_fits_u64() { fits<uint64_t>(2, 4, 6, 8); }
extern "C" void proof_fits_i8() { fits<int8_t>(1, 1, 1, 1); }
extern "C" void proof_fits_i16() { fits<int16_t>(1, 3, 3, 3); }
extern "C" void proof_fits_i32() { fits<int32_t>(1, 3, 5, 5); }
extern "C" void proof_fits_i64() { fits<int64_t>(1, 3, 5, 7); }
extern "C" void proof_str() {
  MSG(u);
  std::string s; uint8_t b;
  u.process(s);
  plv_assert(s.size() <= n, "a string is never longer than the message");
  if (u.error_) plv_assert(s.empty(), "a string that is cut short is not delivered");
  u.process(b);
}
extern "C" void proof_bin() {
  MSG(u);
  std::vector<uint8_t> s; uint8_t b;
  u.process(s);
  plv_assert(s.size() <= n, "a byte vector is never longer than the message");
  if (u.error_) plv_assert(s.empty(), "a byte vector that is cut short is not delivered");
  u.process(b);
}
extern "C" void proof_empty() {
  Unpacker u; uint32_t x = 7; std::string s;
  u.process(x);
  plv_assert(bool(u.error_), "unpacking nothing is reported");
  u.process(s);
  plv_assert(s.empty(), "no string from nothing");
}
// the contract of an element of a sequence (used in rpc_seq.cc): from any position inside the message and any error state
extern "C" void proof_step() {
  uint64_t n = plv_range("n", 0, 1ull << 40), k = plv_range("k", 0, n); auto *in = (uint8_t *)plv_bytes("in", n);
  Unpacker u{in, n};
  u.data_ = in + k;
  bool before = plv_bool("error");
  if (before) u.error_ = plain::ErrorCode::OutOfRange;
  int32_t v = plv_u32("v");
  u.process(v);
  plv_assert(u.data_ >= in && u.data_ <= in + n && u.data_end_ == in + n, "the position stays inside the message");
  if (before) plv_assert(bool(u.error_), "an error stays");
  else plv_assert(bool(u.error_) || u.data_ > in + k, "an element that is there takes at least a byte");
}
