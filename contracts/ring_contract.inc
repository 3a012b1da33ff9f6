// ---- the ring under its contract (proved for the real ring in ring.cc): a queue holding c[off .. off+n) ----
static struct { uint64_t n, off; std::byte *c; } g;
using RingT = plain::Ring<std::byte, false>;
extern "C" size_t c_read(RingT *, std::byte *out, size_t count, bool peek) {
  uint64_t k = count < g.n ? count : g.n;
  std::memcpy(out, g.c + g.off, k);
  if (!peek) { g.off += k; g.n -= k; }
  return k;
}
extern "C" size_t c_remove(RingT *, size_t count) { uint64_t k = count < g.n ? count : g.n; g.off += k; g.n -= k; return k; }
extern "C" size_t c_write(RingT *, const std::byte *in, size_t count, bool) {
  auto *p = (std::byte *)::operator new(g.n + count);
  std::memcpy(p, g.c + g.off, g.n);
  std::memcpy(p + g.n, in, count);
  g.c = p; g.off = 0; g.n += count;
  return count;
}
extern "C" size_t c_read_avail(const RingT *) { return g.n; }
#define STREAM_ABS(s) S::Basic s{nullptr}; if (plv_contracts()) { g.n = plv_range("n", 0, 1ull << 40); g.off = 0; g.c = (std::byte *)plv_bytes("content", g.n); } else arbitrary_ring(s.impl_->buffer)
static std::byte elem(S::Basic &s, uint64_t i) { if (plv_contracts()) return g.c[g.off + i]; return at(s, i); }
