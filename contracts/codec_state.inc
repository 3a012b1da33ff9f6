// a stream holding exactly the given bytes
#include "stream_env.inc"
#include "ring_contract.inc"
#include "plain/net/stream/codec.h"
#include "plain/net/packet/basic.h"
using PB = plain::net::packet::Basic;
namespace PK = plain::net::packet;
static void fill(S::Basic &s, std::byte *c, uint64_t n) {
  if (plv_contracts()) { g.c = c; g.off = 0; g.n = n; }
  else if (n) plv_assume(n <= (1u << 22) && s.write(plain::const_byte_span_t{c, n}) == n);
}
static bool is(plain::Error *e, plain::ErrorCode c) { return e && e->is_code(c); }
