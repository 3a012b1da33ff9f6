// P11: a sequence in a message of arbitrary bytes; elements under the contract of proof_step in rpc_any.cc.
#include "plv.h"
#include "plain/basic/config.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
using plain::net::rpc::Unpacker;
static struct { const uint8_t *in; uint64_t n, done; } a;
extern "C" void a_unpack(Unpacker *u, int32_t *v) {
  plv_assert(u->data_ >= a.in && u->data_ <= a.in + a.n && u->data_end_ == a.in + a.n, "elements are unpacked inside the message");
  uint64_t at = u->data_ - a.in;
  bool bad = plv_bool("bad");
  uint64_t next = plv_range("next", 0, a.n);
  if (!u->error_ && !bad) plv_assume(next > at);       // an element that is there takes at least a byte
  if (bad) u->error_ = plain::ErrorCode::OutOfRange;
  u->data_ = a.in + next;
  *v = plv_u32("value");
  ++a.done;
}
static bool inv_any(void *x) {
  auto *u = (Unpacker *)x;
  return u->data_ >= a.in && u->data_ <= a.in + a.n && u->data_end_ == a.in + a.n && (bool(u->error_) || a.done < uint64_t(u->data_ - a.in));
}
extern "C" void proof_any_seq() {
  uint64_t n = plv_range("n", 0, 1ull << 40); auto *in = (uint8_t *)plv_bytes("in", n); Unpacker u{in, n};
  a = {in, n, 0};
  plv_loop_invariant("unpack_array", inv_any, &u);
  std::vector<int32_t> o;
  u.process(o);
  if (!u.error_) plv_assert(o.size() < n, "a sequence that is delivered without error has its elements in the message");
  uint64_t said = 0;
  if (n > 0) said = in[0] == 23 ? n < 5 ? 0xffffffffull : uint64_t(in[1]) << 24 | in[2] << 16 | in[3] << 8 | in[4] : in[0] == 22 ? n < 3 ? 0xffff : in[1] << 8 | in[2] : in[0] & 15;
  plv_assert(o.size() <= said, "a sequence is never longer than announced");
}
