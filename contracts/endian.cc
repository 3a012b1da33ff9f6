// P04: conversions to and from network byte order.
#include "plv.h"
#include <cstring>
#include <array>
#include <vector>
#include <algorithm>
#include <iterator>
#include "plain/basic/endian.h"
using namespace plain;
template <typename T> static void whole(T x) {
  unsigned char raw[sizeof(T)], net[sizeof(T)];
  std::memcpy(raw, &x, sizeof(T));
  T h = hton(x);
  std::memcpy(net, &h, sizeof(T));
  for (size_t i = 0; i < sizeof(T); ++i) plv_assert(net[i] == raw[sizeof(T) - 1 - i], "hton: most significant byte first");
  T b = ntoh(h);
  plv_assert(std::memcmp(&b, &x, sizeof(T)) == 0, "ntoh: undoes hton");
  T c = ntoh(x), d = hton(c);
  plv_assert(std::memcmp(&d, &x, sizeof(T)) == 0, "hton: undoes ntoh");
}
template <typename T> static void buffers(T x) {
  whole<T>(x);
  std::array<uint8_t, sizeof(T) + 2> out{};
  for (auto &b : out) b = 0x5a;
  hton(x, out.begin() + 1);
  for (size_t i = 0; i < sizeof(T); ++i) plv_assert(out[1 + i] == uint8_t(uint64_t(x) >> (8 * (sizeof(T) - 1 - i))), "hton into a buffer: most significant byte first");
  plv_assert(out[0] == 0x5a && out[sizeof(T) + 1] == 0x5a, "hton into a buffer: writes only its bytes");
  plv_assert(ntoh<T>(out.begin() + 1) == x, "ntoh from a buffer: undoes hton");
  plv_assert(hton<T>(out.begin() + 1) == x, "hton from a buffer: reads the bytes in network order");
  std::array<std::byte, sizeof(T)> o2{};
  ntoh(x, o2.begin());
  for (size_t i = 0; i < sizeof(T); ++i) plv_assert(o2[i] == std::byte(uint64_t(x) >> (8 * (sizeof(T) - 1 - i))), "ntoh into a buffer: most significant byte first");
  T s = plain::byteswap(x);
  plv_assert(plain::byteswap(s) == x, "byteswap: an involution");
}
extern "C" void proof_u8() { buffers<uint8_t>(plv_u8("x")); }
extern "C" void proof_i8() { buffers<int8_t>(int8_t(plv_u8("x"))); }
extern "C" void proof_u16() { buffers<uint16_t>(plv_u16("x")); }
extern "C" void proof_i16() { buffers<int16_t>(int16_t(plv_u16("x"))); }
extern "C" void proof_u32() { buffers<uint32_t>(plv_u32("x")); }
extern "C" void proof_i32() { buffers<int32_t>(int32_t(plv_u32("x"))); }
extern "C" void proof_u64() { buffers<uint64_t>(plv_u64("x")); }
extern "C" void proof_i64() { buffers<int64_t>(int64_t(plv_u64("x"))); }
extern "C" void proof_float() { auto v = plv_u32("x"); float f; std::memcpy(&f, &v, 4); whole<float>(f); }
extern "C" void proof_double() { auto v = plv_u64("x"); double f; std::memcpy(&f, &v, 8); whole<double>(f); }
