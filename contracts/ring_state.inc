// An arbitrary reachable state of a DynamicRing<std::byte, N>.
// For the proof it is set up directly from the representation invariant of ring.h:
//   size is a power of two >= N, the vector has exactly size elements, mask = size-1, tail <= head, head-tail <= size,
//   logical element i (0 <= i < head-tail) is stored at index (tail+i) & mask.
// proof_init / every proof's last lines show that the invariant is established and preserved, so it covers every history.
// Natively (replay, search) and with PLV_PUBLIC the same state is reached through the public operations only, so a failure
// that is confirmed there does not depend on how the state is represented.
#if defined(PLV_IR) && !defined(PLV_PUBLIC)
template <typename R> static void arbitrary_ring(R &r) {
  uint64_t lg = plv_range("lg", 7, 40);
  uint64_t size = 1ull << lg;
  auto *b = (std::byte *)plv_bytes("buf", size);
  r.buffer_.resize(0);
  ::operator delete(r.buffer_._M_impl._M_start);
  r.buffer_._M_impl._M_start = b; r.buffer_._M_impl._M_finish = b + size; r.buffer_._M_impl._M_end_of_storage = b + size;
  r.set_buffer(b, size);
  uint64_t t = plv_range("tail", 0, 1ull << 60), n = plv_range("n", 0, size);
  r.tail_.store(t); r.head_.store(t + n);
}
template <typename R> static void check_ring(R &r) {
  uint64_t size = r.size_.load();
  plv_assert(size != 0 && (size & (size - 1)) == 0 && r.mask_.load() == size - 1, "invariant: the capacity is a power of two");
  plv_assert(r.buffer_.size() >= size && r.buffer_.data() == static_cast<plain::Ring<std::byte, false> &>(r).buffer_, "invariant: the buffer backs the capacity");
  plv_assert(r.head_.load() - r.tail_.load() <= size && r.tail_.load() <= r.head_.load(), "invariant: no more elements than capacity");
}
#else
template <typename R> static void arbitrary_ring(R &r) {
  uint64_t lg = plv_range("lg", 7, 40);
#if defined(PLV_IR)
  plv_assume(lg == 7);
#endif
  plv_assume(lg <= 18);
  uint64_t size = 1ull << lg;
  auto *b = (std::byte *)plv_bytes("buf", size);
  if (size > r.size()) { r.write(b, size); std::byte x; while (r.remove(x)); }
  plv_assume(r.size() == size);
  uint64_t t = plv_range("tail", 0, 1ull << 60) & (size - 1), n = plv_range("n", 0, size);
#if defined(PLV_IR)
  r.write(b, t); r.remove(size_t(t));
#else
  for (uint64_t i = 0; i < t; ++i) { std::byte x; r.insert(b[i]); r.remove(x); }
#endif
  for (uint64_t i = 0; i < n; ++i) r.insert(b[(t + i) & (size - 1)]);
  plv_assume(r.read_avail() == n && r.size() == size);
}
template <typename R> static void check_ring(R &r) {
  plv_assert(r.read_avail() + r.write_avail() == r.size(), "invariant: no more elements than capacity");
}
#endif
