// P16: a task runs its callable at most once and destroys it exactly once, wherever it is moved.
// Every operation is proved from every state a task can be in: empty, or holding a callable of each representation
// (copied bit by bit, moved in place, kept on the heap, a coroutine, an awaiting coroutine).
#include "plv.h"
#include "plain/basic/config.h"
#include <climits>
#include "plain/concurrency/task.h"
#include "plain/concurrency/result/detail/consumer_context.h"
using namespace plain::concurrency;
static struct Log { uint64_t runs, owned, gone; uint32_t value; } g[2];   // of the two callables in play
struct Own {                                             // the right to one callable: moves along, ends once
  int i; bool own;
  explicit Own(int k) noexcept : i(k), own(true) { ++g[i].owned; }
  Own(Own &&o) noexcept : i(o.i), own(std::exchange(o.own, false)) {}
  ~Own() { if (own) ++g[i].gone; }
};
struct Plain { int i; uint32_t v; void operator()() { ++g[i].runs; g[i].value = v; } };                                  // copied bit by bit
struct Small { Own o; uint32_t v; Small(int k, uint32_t x) : o(k), v(x) {} Small(Small &&) noexcept = default; void operator()() { plv_assert(o.own, "runs what it owns"); ++g[o.i].runs; g[o.i].value = v; } };
struct Large { Own o; uint32_t v; uint64_t pad[8]; Large(int k, uint32_t x) : o(k), v(x), pad{} { pad[7] = x; } Large(Large &&) noexcept = default; void operator()() { plv_assert(o.own && pad[7] == v, "runs what it owns"); ++g[o.i].runs; g[o.i].value = v; } };
struct Risky { Own o; uint32_t v; Risky(int k, uint32_t x) : o(k), v(x) {} Risky(Risky &&r) noexcept(false) : o(std::move(r.o)), v(r.v) {} void operator()() { ++g[o.i].runs; g[o.i].value = v; } };   // may throw when moved: kept on the heap
struct Bulky { int i; uint32_t v; uint64_t pad[8]; void operator()() { ++g[i].runs; g[i].value = v; } };                 // trivial, but too large to be kept in place
struct Handle { void (*resume)(Handle *); void (*destroy)(Handle *); int i; uint32_t v; };
static void on_resume(Handle *h) { ++g[h->i].runs; g[h->i].value = h->v; }
static void on_destroy(Handle *h) { ++g[h->i].gone; }
static Handle frames[2]; static bool interrupted[2];
static coroutine_handle<void> frame(int i, uint32_t v) { frames[i] = {on_resume, on_destroy, i, v}; return coroutine_handle<void>::from_address(&frames[i]); }
enum { EMPTY, PLAIN, SMALL, LARGE, RISKY, BULKY, CORO, AWAIT, KINDS };
static void make(Task *at, int kind, int i, uint32_t v) {
  g[i] = {}; interrupted[i] = false;
  switch (kind) {
    case EMPTY: new (at) Task; break;
    case PLAIN: new (at) Task(Plain{i, v}); break;
    case SMALL: new (at) Task(Small{i, v}); break;
    case LARGE: new (at) Task(Large{i, v}); break;
    case RISKY: new (at) Task(Risky{i, v}); break;
    case BULKY: new (at) Task(Bulky{i, v, {}}); break;
    case CORO: new (at) Task(frame(i, v)); break;
    default: new (at) Task(result::detail::AwaitViaFunctor(frame(i, v), &interrupted[i])); break;
  }
}
// what must hold of callable i after its task was run / was given up without a run / is still held
static void check_held(int kind, int i) { plv_assert(g[i].runs == 0 && g[i].gone == 0 && !interrupted[i], "held: neither run nor destroyed"); }
static void check_ran(int kind, int i, uint32_t v) {
  plv_assert(kind == EMPTY ? g[i].runs == 0 : g[i].runs == 1 && g[i].value == v, "run: exactly once, with what it captured");
  plv_assert(!interrupted[i], "run: an awaiting coroutine is not told that it was interrupted");
  plv_assert(g[i].gone == g[i].owned, "run: destroyed exactly once afterwards, and a coroutine not at all");
}
static void check_dropped(int kind, int i, uint32_t v) {
  plv_assert(kind == AWAIT ? g[i].runs == 1 && interrupted[i] && g[i].value == v : g[i].runs == 0, "dropped: not run, but an awaiting coroutine is told");
  plv_assert(g[i].gone == (kind == CORO ? 1 : g[i].owned), "dropped: destroyed exactly once");
}
template <int K> static bool holds(const Task &t) {
  switch (K) {
    case EMPTY: return !t.contains<Small>();
    case PLAIN: return t.contains<Plain>();
    case SMALL: return t.contains<Small>();
    case LARGE: return t.contains<Large>();
    case RISKY: return t.contains<Risky>();
    case BULKY: return t.contains<Bulky>();
    case CORO: return t.contains<coroutine_handle<void>>();
    default: return t.contains<result::detail::AwaitViaFunctor>();
  }
}
union Slot { Task t; Slot() {} ~Slot() {} };
template <int K> static void one() {
  Slot a, b, c; uint32_t v = plv_u32("captured");
  // run
  make(&a.t, K, 0, v);
  plv_assert(bool(a.t) == (K != EMPTY) && holds<K>(a.t), "a task knows what it holds");
  check_held(K, 0);
  a.t();
  check_ran(K, 0, v);
  plv_assert(!a.t, "run: the task is empty afterwards");
  a.t(); a.t.~Task();
  check_ran(K, 0, v);
  // give up
  make(&a.t, K, 0, v); a.t.~Task(); check_dropped(K, 0, v);
  make(&a.t, K, 0, v); a.t.clear(); check_dropped(K, 0, v); plv_assert(!a.t, "cleared"); a.t(); a.t.~Task(); check_dropped(K, 0, v);
  // move, run / give up
  make(&a.t, K, 0, v); new (&b.t) Task(std::move(a.t));
  plv_assert(!a.t && bool(b.t) == (K != EMPTY) && holds<K>(b.t), "moved: the new task holds it");
  a.t(); a.t.~Task(); check_held(K, 0);
  b.t(); check_ran(K, 0, v); b.t.~Task(); check_ran(K, 0, v);
  make(&a.t, K, 0, v); new (&b.t) Task(std::move(a.t)); new (&c.t) Task(std::move(b.t)); a.t.~Task(); b.t.~Task(); check_held(K, 0); c.t.~Task(); check_dropped(K, 0, v);
  // onto itself
  make(&a.t, K, 0, v); { Task &r = a.t; a.t = std::move(r); }
  check_held(K, 0); a.t(); check_ran(K, 0, v); a.t.~Task();
}
template <int K> static void two(int kind) {
  Slot a, b; uint32_t v = plv_u32("captured"), w = plv_u32("other");
  make(&a.t, K, 0, v); make(&b.t, kind, 1, w);
  a.t = std::move(b.t);
  check_dropped(K, 0, v); check_held(kind, 1);
  plv_assert(!b.t && bool(a.t) == (kind != EMPTY), "assigned: the other task is empty");
  b.t.~Task(); check_held(kind, 1);
  if (plv_bool("run")) { a.t(); check_ran(kind, 1, w); a.t.~Task(); check_ran(kind, 1, w); }
  else { a.t.~Task(); check_dropped(kind, 1, w); }
  check_dropped(K, 0, v);
}
template <int K> static void all() { one<K>(); two<K>(int(plv_range("other kind", 0, KINDS - 1))); }
extern "C" void proof_task_empty() { all<EMPTY>(); }
extern "C" void proof_task_plain() { all<PLAIN>(); }
extern "C" void proof_task_small() { all<SMALL>(); }
extern "C" void proof_task_large() { all<LARGE>(); }
extern "C" void proof_task_risky() { all<RISKY>(); }
extern "C" void proof_task_bulky() { all<BULKY>(); }
extern "C" void proof_task_coro() { all<CORO>(); }
extern "C" void proof_task_await() { all<AWAIT>(); }
