// P14: a result is handed from its producer to its consumer exactly once, whatever the interleaving.
// The operations of one side run as they are; before every atomic access to the shared state the other side may take its step
// (also a real operation of the public interface).  Both sides are put in the main role, so every atomic access is an interleaving point.
#include "plv.h"
#include "plain/basic/config.h"
#include <climits>
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/shared.h"
#include "plain/concurrency/result/when.h"
namespace std::chrono { inline namespace _V2 {          // the clock tells any time
system_clock::time_point system_clock::now() noexcept { return time_point(duration(int64_t(plv_range("system_clock", 0, uint64_t(1) << 40)))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(int64_t(plv_range("steady_clock", 0, uint64_t(1) << 40)))); }
} }
using namespace plain::concurrency;
namespace D = plain::concurrency::result::detail;
using St = D::State<int>;
struct Handle {                                         // a suspended coroutine, as the compiler lays it out
  void (*resume)(Handle *); void (*destroy)(Handle *);
  uint64_t resumed, destroyed;
  plain::concurrency::coroutine_handle<void> h() { return plain::concurrency::coroutine_handle<void>::from_address(this); }
};
static void on_resume(Handle *h) { ++h->resumed; }
static void on_destroy(Handle *h) { ++h->destroyed; }
static struct { ResultPromise<int> *p; bool produced; int value; uint64_t woken; void (*consume)(); int how; } w;
enum { VALUE, THROWN, BROKEN, CALLED };
struct Oops { int code; };
static void finish() {                                  // the producer finishes, one way or the other
  if (w.produced) return;
  w.produced = true;
  switch (w.how) {
    case VALUE: w.p->set_result(w.value); break;
    case THROWN: w.p->set_exception(std::make_exception_ptr(Oops{w.value})); break;
    case CALLED: { int v = w.value; if (v & 1) w.p->set_from_function([v]() -> int { throw Oops{v}; }); else w.p->set_from_function([v] { return v; }); break; }
    default: { ResultPromise<int> t{std::move(*w.p)}; break; }      // given up without a result
  }
}
static void produce(void *) {                           // the producer's step
  if (w.produced || !plv_bool("produce")) return;
  finish();
}
namespace plain::sys::detail {
void atomic_wait_native(void *, int32_t) noexcept { if (!plv_symbolic()) finish(); }                                   // may return at any time
void atomic_wait_for_native(void *, int32_t, std::chrono::milliseconds) noexcept { if (!plv_symbolic()) produce(nullptr); }
void atomic_notify_all_native(void *) noexcept { ++w.woken; if (w.consume) w.consume(); }
}
#define WORLD() ResultPromise<int> p; w = {&p, false, int(plv_u32("value")), 0, nullptr, VALUE}; St *s = p.producer_state_.get(); Result<int> r = p.get_result(); \
  plv_shared(&s->process_status_, sizeof s->process_status_, produce, nullptr)
