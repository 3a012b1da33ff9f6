// P07: every value of every integral type survives pack -> unpack, whatever the output variable held before, with whatever
// follows it in the message, and the unpacker is left exactly at the next value.  Public interface only.
#include "plv.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
using namespace plain::net::rpc;
template <typename T, typename U> static void roundtrip(T v, U garbage) {
  uint8_t next = plv_u8("next");
  Packer p;
  p.process(v, next);
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  U r = garbage;
  uint8_t n = 0;
  u.process(r);
  plv_assert(r == U(v), "the value is the one packed");
  u.process(n);
  plv_assert(n == next, "the following value is intact");
  plv_assert(!u.error_, "no error is reported");
}
extern "C" void proof_u8() { roundtrip<uint8_t, uint8_t>(plv_u8("v"), plv_u8("g")); }
extern "C" void proof_u16() { roundtrip<uint16_t, uint16_t>(plv_u16("v"), plv_u16("g")); }
extern "C" void proof_u32() { roundtrip<uint32_t, uint32_t>(plv_u32("v"), plv_u32("g")); }
extern "C" void proof_u64() { roundtrip<uint64_t, uint64_t>(plv_u64("v"), plv_u64("g")); }
extern "C" void proof_i8() { roundtrip<int8_t, int8_t>(plv_u8("v"), plv_u8("g")); }
extern "C" void proof_i16() { roundtrip<int16_t, int16_t>(plv_u16("v"), plv_u16("g")); }
extern "C" void proof_i32() { roundtrip<int32_t, int32_t>(plv_u32("v"), plv_u32("g")); }
extern "C" void proof_i64() { roundtrip<int64_t, int64_t>(plv_u64("v"), plv_u64("g")); }
extern "C" void proof_bool() { roundtrip<bool, bool>(plv_bool("v"), plv_bool("g")); }
// a value packed as a narrower integer of the same signedness can be read as a wider one
extern "C" void proof_widen_u8() { uint8_t v = plv_u8("v"); uint64_t g = plv_u64("g"); switch (plv_range("to", 0, 2)) { case 0: roundtrip<uint8_t, uint16_t>(v, g); break; case 1: roundtrip<uint8_t, uint32_t>(v, g); break; default: roundtrip<uint8_t, uint64_t>(v, g); } }
extern "C" void proof_widen_u16() { uint16_t v = plv_u16("v"); uint64_t g = plv_u64("g"); if (plv_bool("to")) roundtrip<uint16_t, uint32_t>(v, g); else roundtrip<uint16_t, uint64_t>(v, g); }
extern "C" void proof_widen_u32() { roundtrip<uint32_t, uint64_t>(plv_u32("v"), plv_u64("g")); }
extern "C" void proof_widen_i8() { int8_t v = plv_u8("v"); int64_t g = plv_u64("g"); switch (plv_range("to", 0, 2)) { case 0: roundtrip<int8_t, int16_t>(v, g); break; case 1: roundtrip<int8_t, int32_t>(v, g); break; default: roundtrip<int8_t, int64_t>(v, g); } }
extern "C" void proof_widen_i16() { int16_t v = plv_u16("v"); int64_t g = plv_u64("g"); if (plv_bool("to")) roundtrip<int16_t, int32_t>(v, g); else roundtrip<int16_t, int64_t>(v, g); }
extern "C" void proof_widen_i32() { roundtrip<int32_t, int64_t>(plv_u32("v"), plv_u64("g")); }
extern "C" void proof_null() {
  Packer p;
  uint8_t next = plv_u8("next"), n = 0;
  p.process(nullptr, next);
  Unpacker u{p.vector().data(), p.vector().size()};
  std::nullptr_t z;
  u.process(z, n);
  plv_assert(n == next && !u.error_, "null takes its own place only");
}
// values that follow one another do not disturb each other, whatever types they have
template <typename A, typename B, typename C> static void seq(A a, B b, C c) {
  Packer p;
  p(a, b, c);
  Unpacker u{p.vector().data(), p.vector().size()};
  A x{}; B y{}; C z{};
  u(x, y, z);
  plv_assert(x == a && y == b && z == c, "sequence of values");
  plv_assert(!u.error_, "sequence: no error");
  Packer q;                       // clear() starts a new message
  q.process(b); q.clear(); q.process(a);
  Unpacker w; w.set_data(q.vector().data(), q.vector().size());
  A s{}; w.process(s);
  plv_assert(s == a && !w.error_, "after clear only the new message is packed");
}
extern "C" void proof_seq1() { seq<int64_t, uint16_t, int8_t>(plv_u64("a"), plv_u16("b"), plv_u8("c")); }
extern "C" void proof_seq2() { seq<uint32_t, bool, int32_t>(plv_u32("a"), plv_bool("b"), plv_u32("c")); }
extern "C" void proof_seq3() { seq<uint8_t, int16_t, uint64_t>(plv_u8("a"), plv_u16("b"), plv_u64("c")); }
