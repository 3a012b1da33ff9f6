// P09: floats and doubles survive an rpc bit for bit.
#include "plv.h"
#include <cstring>
#include "plain/basic/config.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
using plain::net::rpc::Packer; using plain::net::rpc::Unpacker;
template <typename T> static void rt(T x) {
  uint16_t first = plv_u16("first"); uint8_t next = plv_u8("next");
  Packer p; p.process(first, x, next);
  auto &b = p.vector();
  Unpacker u{b.data(), b.size()};
  uint16_t f = 0; T o{}; uint8_t n = 0;
  u.process(f, o, n);
  plv_assert(!u.error_, "no error is reported");
  plv_assert(std::memcmp(&o, &x, sizeof(T)) == 0, "exactly the same bits");
  plv_assert(f == first && n == next, "the values around it are intact");
  u.data();
  plv_assert(bool(u.error_), "all packed bytes are consumed");
  Packer q; q.process(x);
  auto &c = q.vector();
  uint64_t k = plv_range("k", 0, c.size() - 1);
  auto *part = new uint8_t[k];
  std::memcpy(part, c.data(), k);
  Unpacker w{part, k};
  T z{};
  w.process(z);
  plv_assert(bool(w.error_), "a value cut short is reported");
}
extern "C" void proof_float() { auto v = plv_u32("x"); float f; std::memcpy(&f, &v, 4); rt(f); }
extern "C" void proof_double() { auto v = plv_u64("x"); double f; std::memcpy(&f, &v, 8); rt(f); }
