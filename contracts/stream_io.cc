// P02: the stream moves bytes to and from its socket without losing, duplicating or reordering any.
#include "stream_env.inc"
#include "ring_contract.inc"
static void check(S::Basic &s) { if (!plv_contracts()) check_ring(s.impl_->buffer); }
// before every attempt: what was sent has left the buffer, what was not is still there, and the witness byte was sent exactly if it is among the sent ones
struct PushInv { uint64_t n, w; std::byte e; };
static bool push_inv(void *p) {
  auto &a = *(PushInv *)p;
  return sk.sent <= a.n && g.off == sk.sent && g.n == a.n - sk.sent && (a.w < sk.sent ? sk.w_seen == 1 && sk.w_val == a.e : sk.w_seen == 0) && !sk.fatal;
}
static void push(uint64_t lo, uint64_t hi, int witness = 2) {
  STREAM_ABS(s);
  plv_assume(s.size() >= lo && s.size() <= hi);
  auto so = std::make_shared<plain::net::socket::Basic>(7);
  s.impl_->weak_socket = so;
  sk = {}; sk.valid = plv_bool("valid");
  uint64_t n = s.size();
  uint64_t w = plv_index("w", n + 1);
  if (witness == 0) plv_assume(w == n);
  if (witness == 1) plv_assume(w < n && sk.valid);
  std::byte e{};
  if (w < n) e = elem(s, w);
  sk.w = w;
  PushInv pi{n, w, e};
  if (plv_contracts()) plv_loop_invariant("stream::Basic::push", push_inv, &pi);
  int32_t r = s.push();
  if (!sk.valid || n == 0) plv_assert(r == 0 && sk.calls == 0, "push: nothing is sent without a socket or bytes");
  plv_assert(sk.sent <= n && s.size() == n - sk.sent, "push: exactly the bytes the socket took leave the buffer");
  if (w < n) {
    if (w < sk.sent) plv_assert(sk.w_seen == 1 && sk.w_val == e, "push: every byte is sent once, in order");
    else plv_assert(sk.w_seen == 0 && elem(s, w - sk.sent) == e, "push: what was not sent stays, in order");
  }
  if (!sk.fatal) plv_assert(r == int32_t(sk.sent), "push: the result is the number of bytes sent");
  else plv_assert(r < 0, "push: a socket error is reported");
  check(s);
}
// the three cases of the temporary copies (inside the object, on the heap, limited to what is sent at once)
extern "C" void proof_push_small() { push(0, 15); }
extern "C" void proof_push_mid() { push(16, 1 << 20, 1); }
extern "C" void proof_push_mid_counts() { push(16, 1 << 20, 0); }
extern "C" void proof_push_large() { push((1 << 20) + 1, ~0ull); }
extern "C" void proof_pull() {
  STREAM_ABS(s);
  auto so = std::make_shared<plain::net::socket::Basic>(7);
  s.impl_->weak_socket = so;
  sk = {}; sk.valid = plv_bool("valid"); sk.avail = plv_u64("avail");
  uint64_t n = s.size();
  uint64_t w = plv_index("w", n + 1);
  std::byte e{};
  if (w < n) e = elem(s, w);
  int32_t r = s.pull();
  plv_assert(s.size() == n + sk.recv_n, "pull: exactly the received bytes are added");
  if (w < n) plv_assert(elem(s, w) == e, "pull: earlier bytes stay in place");
  if (sk.valid && (sk.recv_kind == 2 || sk.recv_kind == 3)) plv_assert(r < 0, "pull: a closed or failing socket is reported");
  if (!sk.valid || sk.recv_kind == 1) plv_assert(r == 0, "pull: nothing to receive is not an error");
  if (sk.recv_n > 0) {
    plv_assert(r == sk.recv_n, "pull: the result is the number of bytes received");
    plv_assert(elem(s, n + sk.rw) == sk.recv_w, "pull: received bytes follow in order");
  }
  check(s);
}
