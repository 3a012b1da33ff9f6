// P14
#include "result_env.inc"
extern "C" void proof_get() {
  WORLD();
  int v = r.get();
  plv_assert(w.produced && v == w.value, "get: returns after the producer, with its value");
  plv_assert(!r && !plv_alive(s), "get: takes the result, and the shared state is gone");
}
extern "C" void proof_wait() {
  WORLD();
  r.wait();
  plv_assert(w.produced && bool(r) && r.status() == ResultStatus::Value, "wait: returns when the value is there");
  plv_assert(r.get() == w.value, "wait: the value is still to be taken");
  plv_assert(!plv_alive(s), "wait, get: the shared state is gone");
}
extern "C" void proof_status() {
  WORLD();
  auto st = r.status();
  plv_assert(st == (w.produced ? ResultStatus::Value : ResultStatus::Idle) , "status: tells whether the value is there");
  finish();
  plv_assert(r.status() == ResultStatus::Value && r.get() == w.value, "status: changes nothing");
}
extern "C" void proof_wait_for() {
  WORLD();
  auto st = r.wait_for(std::chrono::milliseconds(plv_bool("ms") ? 1000 : 0));
  if (st == ResultStatus::Value) plv_assert(w.produced, "wait_for: a value is reported only if it is there");
  else plv_assert(st == ResultStatus::Idle, "wait_for: a timeout is reported otherwise");
  finish();
  plv_assert(r.status() == ResultStatus::Value && r.get() == w.value, "wait_for: the value is delivered later");
  plv_assert(!plv_alive(s), "wait_for: the shared state is gone");
}
extern "C" void proof_await() {
  WORLD();
  Handle h{on_resume, on_destroy, 0, 0};
  auto a = r.operator co_await();
  plv_assert(!r, "await: takes the result");
  bool suspended = a.await_suspend(h.h());
  if (!suspended) plv_assert(w.produced && h.resumed == 0, "await: goes on at once only when the value is there, and is not resumed as well");
  else plv_assert(h.resumed == (w.produced ? 1 : 0), "await: a suspended consumer is resumed exactly when the value is there");
  finish();
  plv_assert(h.resumed == (suspended ? 1 : 0) && h.destroyed == 0, "await: a suspended consumer is resumed exactly once");
  plv_assert(a.await_resume() == w.value && !plv_alive(s), "await: the value, and the shared state is gone");
}
extern "C" void proof_resolve() {
  WORLD();
  Handle h{on_resume, on_destroy, 0, 0};
  auto a = r.resolve();
  bool suspended = a.await_suspend(h.h());
  finish();
  plv_assert(h.resumed == (suspended ? 1 : 0), "resolve: a suspended consumer is resumed exactly once");
  Result<int> q = a.await_resume();
  plv_assert(q.status() == ResultStatus::Value && q.get() == w.value && !plv_alive(s), "resolve: hands the result on with its value");
}
// the consumer loses interest
extern "C" void proof_drop() {
  WORLD();
  { Result<int> t{std::move(r)}; }
  plv_assert(plv_alive(s) == !w.produced, "drop: the shared state lives as long as the producer needs it");
  finish();
  plv_assert(!plv_alive(s), "drop: the last side frees the shared state, once");
}
// ---- the producer in the main role: the consumer may take its step before every atomic access and before it is woken ----
static struct { Result<int> *r; Handle *h; int mode; bool done, suspended; int got; uint64_t resumes; } c;
static void consume(void *) {
  if (c.done || !plv_bool("consume")) return;
  c.done = true;
  switch (c.mode) {
    case 0: { Result<int> t{std::move(*c.r)}; break; }
    default: { static union U { U() {} ~U() {} result::Awaitable<int> a; } u; new (&u.a) result::Awaitable<int>(std::move(c.r->state_)); c.suspended = u.a.await_suspend(c.h->h()); break; }
  }
}
extern "C" void proof_produce_drop() {
  ResultPromise<int> p; St *s = p.producer_state_.get(); Result<int> r = p.get_result();
  c = {&r, nullptr, 0, false, false, 0, 0};
  plv_shared(&s->process_status_, sizeof s->process_status_, consume, nullptr);
  p.set_result(int(plv_u32("value")));
  plv_assert(!p, "the promise is used up");
  plv_assert(plv_alive(s) == !c.done, "produce: the shared state lives as long as the consumer needs it");
  { Result<int> t{std::move(r)}; }
  plv_assert(!plv_alive(s), "produce, drop: the last side frees the shared state, once");
}
extern "C" void proof_produce_await() {
  ResultPromise<int> p; St *s = p.producer_state_.get(); Result<int> r = p.get_result();
  Handle h{on_resume, on_destroy, 0, 0};
  c = {&r, &h, 1, false, false, 0, 0};
  plv_shared(&s->process_status_, sizeof s->process_status_, consume, nullptr);
  p.set_result(7);
  plv_assert(h.resumed == (c.suspended ? 1 : 0) && (c.done || !c.suspended), "produce: a waiting consumer is resumed exactly once, nobody else is");
  plv_assert(plv_alive(s) && s->process_status_.load() == D::ProcessStatus::ProducerDone && s->status() == ResultStatus::Value, "produce: the value is there");
}

// ---- a producer that fails, or is destroyed: the consumer gets an exception, once ----
template <typename F> static int outcome(F &&f) {       // 0: the value, 1: the producer's own exception, 2: another one
  try { int v = f(); plv_assert(v == w.value, "the value"); return 0; }
  catch (const Oops &o) { plv_assert(o.code == w.value, "the exception is the producer's"); return 1; }
  catch (const std::exception &) { return 2; }
}
static int expected() { return w.how == VALUE ? 0 : w.how == THROWN ? 1 : w.how == BROKEN ? 2 : w.value & 1; }
static void fail_get(int how) {
  WORLD(); w.how = how;
  int o = outcome([&] { return r.get(); });
  plv_assert(w.produced && o == expected(), "failing producer: get returns after it, with its exception");
  plv_assert(!r && !plv_alive(s), "failing producer: the shared state is gone");
}
extern "C" void proof_throw_get() { fail_get(THROWN); }
extern "C" void proof_break_get() { fail_get(BROKEN); }
extern "C" void proof_call_get() { fail_get(CALLED); }
static void fail_await(int how) {
  WORLD(); w.how = how;
  Handle h{on_resume, on_destroy, 0, 0};
  auto a = r.operator co_await();
  bool suspended = a.await_suspend(h.h());
  plv_assert(suspended || w.produced, "failing producer: await goes on at once only when the outcome is there");
  finish();
  plv_assert(h.resumed == (suspended ? 1 : 0), "failing producer: a suspended consumer is resumed exactly once");
  int o = outcome([&] { return a.await_resume(); });
  plv_assert(o == expected() && !plv_alive(s), "failing producer: await gives its exception, and the shared state is gone");
}
extern "C" void proof_throw_await() { fail_await(THROWN); }
extern "C" void proof_break_await() { fail_await(BROKEN); }
extern "C" void proof_call_await() { fail_await(CALLED); }
static void fail_status(int how) {
  WORLD(); w.how = how;
  finish();
  auto st = r.status();
  plv_assert(st == (expected() ? ResultStatus::Exception : ResultStatus::Value), "failing producer: the status tells");
  r.wait();
  { Result<int> t{std::move(r)}; }
  plv_assert(!plv_alive(s), "failing producer: an outcome nobody takes is freed");
}
extern "C" void proof_throw_status() { fail_status(THROWN); }
extern "C" void proof_break_status() { fail_status(BROKEN); }
extern "C" void proof_call_status() { fail_status(CALLED); }
// a suspended coroutine that runs to its end, and takes its frame along, as soon as it is resumed
struct Coro : Handle { result::Awaitable<int> a; static inline uint64_t ended; static inline int got;
  explicit Coro(Result<int> &r) : Handle{run, on_destroy, 0, 0}, a(r.operator co_await()) {}
  static void run(Handle *h) { auto *c = static_cast<Coro *>(h); got = outcome([&] { return c->a.await_resume(); }); ++ended; delete c; } };
static void coro(int how) {
  WORLD(); w.how = how;
  Coro::ended = 0;
  auto *c = new Coro(r);
  bool suspended = c->a.await_suspend(c->h());
  plv_assert(Coro::ended == (suspended && w.produced ? 1 : 0), "coroutine: a suspended one has gone on exactly when the outcome is there");
  if (!suspended) Coro::run(c);
  finish();
  plv_assert(Coro::ended == 1 && Coro::got == expected() && !plv_alive(s), "coroutine: goes on once, with the outcome");
}
extern "C" void proof_coro() { coro(VALUE); }
extern "C" void proof_coro_throw() { coro(THROWN); }
extern "C" void proof_coro_break() { coro(BROKEN); }
// promises that are moved about: the one that is assigned over is broken, the one that moves in keeps its consumer
extern "C" void proof_promise_moves() {
  ResultPromise<int> p, q; St *s = p.producer_state_.get(), *s2 = q.producer_state_.get();
  Result<int> r = p.get_result(), r2;
  bool handed = plv_bool("handed");
  if (handed) r2 = q.get_result();
  p = std::move(q);
  plv_assert(r.status() == ResultStatus::Exception, "promise moved over: its consumer gets an exception");
  bool broken = false;
  try { r.get(); } catch (const std::runtime_error &) { broken = true; }
  plv_assert(broken && !plv_alive(s), "promise moved over: the shared state is gone");
  plv_assert(!q && bool(p), "promise moved: the other one is used up");
  if (!handed) r2 = p.get_result();
  p.set_result(6);
  plv_assert(r2.get() == 6 && !plv_alive(s2), "promise moved: keeps its consumer");
  // results too: assigning over one drops it
  ResultPromise<int> t, u; St *st = t.producer_state_.get();
  Result<int> x = t.get_result(), y = u.get_result();
  x = std::move(y);
  t.set_result(1);
  plv_assert(!plv_alive(st), "result assigned over: is dropped");
  u.set_result(2);
  plv_assert(!y && x.get() == 2, "result moved: the value follows");
}
// a promise whose result was never asked for, and one that is used twice
extern "C" void proof_promise() {
  St *s;
  { ResultPromise<int> p; s = p.producer_state_.get(); if (plv_bool("set")) p.set_result(1); }
  plv_assert(!plv_alive(s), "promise: without a consumer the shared state is freed with it");
  ResultPromise<int> p; Result<int> r = p.get_result();
  bool thrown = false;
  try { p.get_result(); } catch (const std::runtime_error &) { thrown = true; }
  plv_assert(thrown, "promise: the result is handed out once");
  p.set_result(3);
  thrown = false;
  try { p.set_result(4); } catch (const std::runtime_error &) { thrown = true; }
  plv_assert(thrown && r.get() == 3, "promise: the first value counts");
  thrown = false;
  try { r.get(); } catch (const std::runtime_error &) { thrown = true; }
  plv_assert(thrown, "promise: the value is taken once");
}
// the value itself is moved along and destroyed exactly once
struct Tracked {
  static inline int64_t live, dead;
  int v; bool own;
  explicit Tracked(int x) noexcept : v(x), own(true) { ++live; }
  Tracked(Tracked &&o) noexcept : v(o.v), own(std::exchange(o.own, false)) {}
  ~Tracked() { if (own) ++dead; }
};
static struct { ResultPromise<Tracked> *p; bool produced; int value; } wt;
static void produce_tracked(void *) { if (wt.produced || !plv_bool("produce")) return; wt.produced = true; wt.p->set_result(wt.value); }
extern "C" void proof_tracked() {
  Tracked::live = Tracked::dead = 0;
  {
    ResultPromise<Tracked> p; wt = {&p, false, int(plv_u32("value"))};
    auto *s = p.producer_state_.get(); Result<Tracked> r = p.get_result();
    plv_shared(&s->process_status_, sizeof s->process_status_, produce_tracked, nullptr);
    if (plv_bool("drop")) { Result<Tracked> t{std::move(r)}; }
    if (!wt.produced) { wt.produced = true; p.set_result(wt.value); }
    if (r) { Tracked t = r.get(); plv_assert(t.v == wt.value && t.own, "tracked: the value arrives"); }
    plv_assert(!plv_alive(s), "tracked: the shared state is gone");
  }
  plv_assert(Tracked::live == 1 && Tracked::dead == 1, "tracked: the value is destroyed exactly once");
}
