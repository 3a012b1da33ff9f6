// P15: several results, several consumers
#include "result_env.inc"
extern "C" void proof_when_all() {
  WORLD();
  Handle h{on_resume, on_destroy, 0, 0};
  result::detail::WhenHelper::WhenAllAwaitable a{*s};
  bool suspended = a.await_suspend(h.h());
  plv_assert(suspended || w.produced, "when_all: goes on at once only when the value is there");
  plv_assert(h.resumed == (suspended && w.produced ? 1 : 0), "when_all: a suspended consumer is resumed exactly when the value is there");
  finish();
  plv_assert(h.resumed == (suspended ? 1 : 0), "when_all: a suspended consumer is resumed exactly once");
  a.await_resume();
  plv_assert(r.status() == ResultStatus::Value && r.get() == w.value, "when_all: the value is still to be taken");
}
// ---- when_any over two results: both producers may finish at any atomic access, in any order ----
static struct { ResultPromise<int> *p[3]; bool done[3]; int v[3]; } m;
static void put(int i) { if (m.done[i]) return; m.done[i] = true; m.p[i]->set_result(m.v[i]); }
using Two = std::tuple<Result<int>, Result<int>>;
using Any = result::detail::WhenHelper::WhenAnyAwaitable<Two>;
static Any *any_of; static bool any_marked;
static void mark(void (*step)(void *)) {                // the context is shared as soon as it exists
  if (any_of && any_of->promise_ && !any_marked) { any_marked = true; plv_shared(&any_of->promise_->status_, sizeof any_of->promise_->status_, step, nullptr); }
}
static void any(void *) { mark(any); for (int i = 0; i < 2; ++i) if (!m.done[i] && plv_bool(i ? "second" : "first")) put(i); }
// afterwards each result is taken, by one kind of consumer or another, before or after it is there
static void take(Result<int> &r, int i, int kind) {
  switch (kind) {
    case 0: put(i); plv_assert(r.get() == m.v[i], "when_any: every value is still to be taken"); break;
    case 1: {
      Handle g{on_resume, on_destroy, 0, 0};
      auto a = r.operator co_await();
      bool suspended = a.await_suspend(g.h());
      plv_assert(suspended || m.done[i], "when_any: a result that is not there can be awaited afterwards");
      put(i);
      plv_assert(g.resumed == (suspended ? 1 : 0) && a.await_resume() == m.v[i], "when_any: an await afterwards is resumed once, and has the value");
      break;
    }
    default: {
      result::Shared<int> sh{std::move(r)};
      put(i);
      plv_assert(sh.status() == ResultStatus::Value && sh.get() == m.v[i], "when_any: sharing afterwards has the value");
      break;
    }
  }
}
#define MANY(step) ResultPromise<int> p0, p1; m = {{&p0, &p1, nullptr}, {false, false, false}, {int(plv_u32("v0")), int(plv_u32("v1")), 0}}; \
  St *s0 = p0.producer_state_.get(), *s1 = p1.producer_state_.get(); Two t{p0.get_result(), p1.get_result()}; \
  Handle h{on_resume, on_destroy, 0, 0}; \
  plv_shared(&s0->process_status_, sizeof s0->process_status_, step, nullptr); plv_shared(&s1->process_status_, sizeof s1->process_status_, step, nullptr)
extern "C" void proof_when_any() {
  MANY(any);
  Any a{t}; any_of = &a; any_marked = false;
  bool suspended = a.await_suspend(h.h());
  bool some = m.done[0] || m.done[1];
  plv_assert(h.resumed == (suspended && some ? 1 : 0), "when_any: a suspended consumer is resumed exactly when a value is there");
  plv_assert(suspended || some, "when_any: goes on at once only when a value is there");
  if (!some) { if (plv_bool("which")) put(1); else put(0); }
  plv_assert(h.resumed == (suspended ? 1 : 0), "when_any: the first value resumes the consumer");
  size_t i = a.await_resume();
  plv_assert(i < 2 && m.done[i], "when_any: names a result that is there");
  int kind = int(plv_range("kind", 0, 2));
  take(std::get<0>(t), 0, kind); take(std::get<1>(t), 1, kind);
  plv_assert(h.resumed == (suspended ? 1 : 0), "when_any: later values resume nobody");
}
// a producer in the main role: the consumer may start to wait, and the other producer may finish, at any atomic access
static struct { Any *a; Handle *h; int main; bool done, suspended; } ac;
static void any_other(void *) {
  mark(any_other);
  if (!ac.done && plv_bool("consume")) { ac.done = true; ac.suspended = ac.a->await_suspend(ac.h->h()); mark(any_other); }
  int o = 1 - ac.main;
  if (!m.done[o] && plv_bool("other")) put(o);
}
static void when_any_produce(int k) {
  any_of = nullptr;
  MANY(any_other);
  Any a{t}; any_of = &a; any_marked = false;
  ac = {&a, &h, k, false, false};
  if (plv_bool("early")) { ac.done = true; ac.suspended = a.await_suspend(h.h()); mark(any_other); }
  put(k);
  plv_assert(h.resumed == (ac.suspended ? 1 : 0), "when_any: a producer resumes the waiting consumer exactly once");
  put(1 - k);
  plv_assert(h.resumed == (ac.suspended ? 1 : 0), "when_any: later values resume nobody");
  if (std::exchange(ac.done, true)) {                   // from here on nobody else takes a step
    size_t i = a.await_resume();
    plv_assert(i < 2 && m.done[i], "when_any: names a result that is there");
  }
  plv_assert(std::get<0>(t).get() == m.v[0] && std::get<1>(t).get() == m.v[1], "when_any: every value is still to be taken");
}
extern "C" void proof_when_any_first() { when_any_produce(0); }
extern "C" void proof_when_any_second() { when_any_produce(1); }
// ---- a shared result: every consumer sees the value, every suspended consumer is resumed once ----
using SS = D::SharedState<int>;
using SAw = result::SharedAwaitable<int>;
extern "C" void proof_share() {
  WORLD();
  result::Shared<int> a{std::move(r)};
  SS *x = a.state_.get();
  plv_assert(!r, "share: takes the result");
  plv_shared(&x->status_, sizeof x->status_, produce, nullptr);
  plv_shared(&x->awaiters_, sizeof x->awaiters_, produce, nullptr);
  result::Shared<int> b = a;
  int u = a.get();
  plv_assert(w.produced && u == w.value, "shared get: returns after the producer, with its value");
  plv_assert(b.status() == ResultStatus::Value && &b.get() == &a.get(), "shared get: all consumers see the same value");
}
extern "C" void proof_share_await() {
  WORLD();
  result::Shared<int> a{std::move(r)};
  SS *x = a.state_.get();
  plv_shared(&x->status_, sizeof x->status_, produce, nullptr);
  plv_shared(&x->awaiters_, sizeof x->awaiters_, produce, nullptr);
  Handle h[3] = {{on_resume, on_destroy, 0, 0}, {on_resume, on_destroy, 0, 0}, {on_resume, on_destroy, 0, 0}};
  bool sus[3];
  {
    SAw q0(a.state_), q1(a.state_), q2(a.state_);
    sus[0] = q0.await_suspend(h[0].h());
    plv_assert(sus[0] || w.produced, "shared await: goes on at once only when the value is there");
    sus[1] = q1.await_suspend(h[1].h());
    sus[2] = q2.await_suspend(h[2].h());
    for (int i = 0; i < 3; ++i) plv_assert(h[i].resumed == (sus[i] && w.produced ? 1 : 0), "shared await: resumed exactly when the value is there");
    finish();
    for (int i = 0; i < 3; ++i) plv_assert(h[i].resumed == (sus[i] ? 1 : 0), "shared await: every suspended consumer is resumed exactly once");
    plv_assert(q0.await_resume() == w.value && q1.await_resume() == w.value && q2.await_resume() == w.value, "shared await: the value");
  }
  plv_assert(plv_alive(s) && plv_alive(x), "shared await: the value stays while it is shared");
  a = result::Shared<int>();
  plv_assert(!plv_alive(s) && !plv_alive(x), "shared await: freed with the last consumer");
}
extern "C" void proof_share_drop() {
  WORLD();
  { result::Shared<int> a{std::move(r)}; result::Shared<int> b = a; }
  plv_assert(plv_alive(s) == !w.produced, "shared drop: the shared state lives as long as the producer needs it");
  finish();
  plv_assert(!plv_alive(s), "shared drop: the last side frees it, once");
}
// coroutines that run to their end, and take their frames along, as soon as they are resumed
struct Coro : Handle { SAw a; static inline uint64_t ended; static inline bool right;
  explicit Coro(const std::shared_ptr<SS> &x) : Handle{run, on_destroy, 0, 0}, a(x) {}
  static void run(Handle *h) { auto *c = static_cast<Coro *>(h); right = right && c->a.await_resume() == w.value; ++ended; delete c; } };
extern "C" void proof_share_coro() {
  WORLD();
  Coro::ended = 0; Coro::right = true;
  SS *x;
  {
    result::Shared<int> a{std::move(r)};
    x = a.state_.get();
    plv_shared(&x->awaiters_, sizeof x->awaiters_, produce, nullptr);
    for (uint64_t i = 0; i < 3; ++i) {
      auto *c = new Coro(a.state_);
      uint64_t before = Coro::ended;
      bool suspended = c->a.await_suspend(c->h());
      plv_assert(suspended || Coro::ended == before || w.produced, "shared coroutine: goes on at once only when the value is there");
      if (!suspended) Coro::run(c);
      plv_assert(Coro::ended == (w.produced ? i + 1 : 0), "shared coroutines: all that started have gone on exactly when the value is there");
    }
  }
  finish();
  plv_assert(Coro::ended == 3 && Coro::right && !plv_alive(s) && !plv_alive(x), "shared coroutines: each goes on once, with the value, and it is freed after the last");
}
static struct { SAw *q[2]; Handle *h; bool done[2], sus[2]; } sc;
static void share_consume(void *) {
  for (int i = 0; i < 2; ++i) if (!sc.done[i] && plv_bool(i ? "second" : "first")) { sc.done[i] = true; sc.sus[i] = sc.q[i]->await_suspend(sc.h[i].h()); }
}
extern "C" void proof_share_produce() {
  ResultPromise<int> p; St *s = p.producer_state_.get();
  w.consume = nullptr;
  result::Shared<int> a{p.get_result()};
  SS *x = a.state_.get();
  Handle h[2] = {{on_resume, on_destroy, 0, 0}, {on_resume, on_destroy, 0, 0}};
  SAw q0(a.state_), q1(a.state_);
  sc = {{&q0, &q1}, h, {false, false}, {false, false}};
  plv_shared(&s->process_status_, sizeof s->process_status_, share_consume, nullptr);
  plv_shared(&x->status_, sizeof x->status_, share_consume, nullptr);
  plv_shared(&x->awaiters_, sizeof x->awaiters_, share_consume, nullptr);
  int v = int(plv_u32("value"));
  p.set_result(v);
  for (int i = 0; i < 2; ++i) plv_assert(h[i].resumed == (sc.sus[i] ? 1 : 0), "shared produce: every suspended consumer is resumed exactly once");
  plv_assert(a.status() == ResultStatus::Value && a.get() == v, "shared produce: the value is there");
}
