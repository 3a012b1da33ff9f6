// The stream over an assumed socket, in an arbitrary buffer state.  stream/basic.cc is included so that the state can be set up.
#include "plv.h"
#include <mutex>
#include <functional>
#include <vector>
#include PLV_SRC(net/stream/basic.cc)
#include "ring_state.inc"
using plain::bytes_t;
namespace S = plain::net::stream;
// ---- the socket, as the stream sees it (assumed contract; socket_api.cc checks the code under it) ----
static struct {
  bool valid;
  uint64_t avail;        // what the socket says is waiting
  uint64_t sent;         // bytes accepted so far
  uint64_t w;            // witness position in the outgoing byte sequence
  int w_seen;            // how often the witness position was transmitted
  std::byte w_val;
  int calls, fatal;
  int32_t recv_n; std::byte recv_w; uint64_t rw; uint64_t recv_cap; uint64_t recv_kind;
} sk;
namespace plain::net::socket {
struct Basic::Impl { int x; };
Basic::Basic(id_t) {}
Basic::~Basic() {}
bool Basic::valid() const noexcept { return sk.valid; }
size_t Basic::avail() const noexcept { return sk.avail; }
// accepts between 1 and size bytes, or would block (-100 or 0), or fails (-1): any sequence of such answers
int32_t Basic::send(const bytes_t &b, uint32_t) {
  uint64_t n = b.size();
  ++sk.calls;
  plv_assert(n > 0, "push: nothing empty is sent");
  uint64_t kind = plv_range("send_kind", 0, 3);
  if (kind == 1) return kErrorWouldBlock;
  if (kind == 2) return 0;
  if (kind == 3) { sk.fatal = 1; return kSocketError; }
  uint32_t k = plv_u32("send_n");
  plv_assume(k >= 1 && k <= n && k < (1u << 31));
  if (sk.w >= sk.sent && sk.w < sk.sent + k) { ++sk.w_seen; sk.w_val = b[sk.w - sk.sent]; }
  sk.sent += k;
  return int32_t(k);
}
int32_t Basic::recv(bytes_t &b, uint32_t) {
  uint64_t kind = sk.recv_kind = plv_range("recv_kind", 0, 3);
  if (kind == 1) return kErrorWouldBlock;
  if (kind == 2) return 0;
  if (kind == 3) return kSocketError;
  sk.recv_cap = b.capacity();
  uint64_t k = plv_range("recv_n", 1, 1ull << 31 > sk.recv_cap ? sk.recv_cap : (1ull << 31) - 1);
  plv_havoc("recv_bytes", b.data(), k);
  sk.recv_n = int32_t(k);
  sk.rw = plv_index("rw", k);
  sk.recv_w = b.data()[sk.rw];
  return sk.recv_n;
}
}
static std::byte at(S::Basic &s, uint64_t i) { return s.impl_->buffer[i]; }
#define STREAM(s) S::Basic s{nullptr}; arbitrary_ring(s.impl_->buffer)
