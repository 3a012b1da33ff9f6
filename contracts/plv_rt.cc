// Native runtime for contract files: replays concrete inputs against the real code, or searches for a failing input.
#include "plv.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <chrono>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace {
struct Rec { char kind; std::string name; uint64_t v; std::vector<uint8_t> b; uint64_t n; };
std::vector<Rec> recs;
std::map<std::string, int> counts;
std::map<std::string, Rec> given;
bool replay = false;
uint64_t rng = 1;
jmp_buf skip;
const char *dump_path = nullptr;
uint64_t total = 0, skipped = 0;
int style = 0;
uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
std::string key(const char *n) { int c = counts[n]++; return c ? std::string(n) + "#" + std::to_string(c) : n; }
void dump() {
  if (!dump_path) return;
  FILE *f = fopen(dump_path, "w");
  if (!f) return;
  for (auto &r : recs) {
    if (r.kind == 'u') fprintf(f, "u %s %llu\n", r.name.c_str(), (unsigned long long)r.v);
    else { fprintf(f, "b %s %llu ", r.name.c_str(), (unsigned long long)r.n); for (auto x : r.b) fprintf(f, "%02x", x); fprintf(f, "\n"); }
  }
  fclose(f);
}
bool dumped = false;
void death() { if (!dumped) { dumped = true; dump(); } }
void on_term() { fprintf(stderr, "PLV-FAILED std::terminate\n"); death(); _exit(78); }
void on_sig(int s) { fprintf(stderr, "PLV-FAILED signal %d\n", s); death(); _exit(78); }
uint64_t pick(uint64_t lo, uint64_t hi) {
  if (lo >= hi) return lo;
  uint64_t span = hi - lo;
  uint64_t r = rnd() % 100, v;
  if (r < 45) v = rnd() % 20;
  else if (r < 65) v = rnd() % 400;
  else if (r < 75) v = rnd() % 70000;
  else if (r < 83) { uint64_t p = 1ull << (rnd() % 64); v = p + (rnd() % 3) - 1; }
  else if (r < 90) v = span - rnd() % 4;
  else { uint64_t bits = rnd() % 65; v = bits == 64 ? rnd() : rnd() & ((1ull << bits) - 1); }
  if (v > span) v = span == UINT64_MAX ? v : v % (span + 1);
  return lo + v;
}
uint64_t val(uint64_t m) {
  uint64_t r = rnd() % 10;
  if (r < 3) return rnd() % 40 & m;
  if (r < 4) return (0 - (rnd() % 40)) & m;
  if (r < 7) { uint64_t p = 1ull << (rnd() % 64); return (p + (rnd() % 5) - 2) & m; }
  if (r < 8) return (m / 2 + (rnd() % 5) - 2) & m;
  return rnd() & m;
}
uint64_t in(const char *name, uint64_t m, bool rangeq, uint64_t lo, uint64_t hi) {
  auto k = key(name);
  uint64_t v;
  if (replay) { auto it = given.find(k); v = it == given.end() ? (rangeq ? lo : 0) : it->second.v; }
  else v = rangeq ? pick(lo, hi) : val(m);
  v &= m;
  recs.push_back({'u', k, v, {}, 0});
  return v;
}
void fill(uint8_t *p, uint64_t n) {
  int st = (style + rnd() % 3) % 6;
  static const char sp[] = "\n\r=+/az09AZ,;[]\t #%\0\xff\x7f\x80";
  for (uint64_t i = 0; i < n; ++i) {
    switch (st) {
      case 0: p[i] = rnd(); break;
      case 1: p[i] = 'a' + rnd() % 4; break;
      case 2: p[i] = sp[rnd() % (sizeof(sp) - 1)]; break;
      case 3: p[i] = rnd() % 4 ? 32 + rnd() % 95 : rnd(); break;
      case 4: p[i] = rnd() % 32; break;
      default: p[i] = rnd() % 8 ? rnd() % 8 : rnd(); break;
    }
  }
}
std::vector<void *> bufs;
}
extern "C" {
uint64_t plv_u64(const char *n) { return in(n, ~0ull, false, 0, 0); }
uint32_t plv_u32(const char *n) { return in(n, 0xffffffffu, false, 0, 0); }
uint16_t plv_u16(const char *n) { return in(n, 0xffffu, false, 0, 0); }
uint8_t plv_u8(const char *n) { return in(n, 0xffu, false, 0, 0); }
bool plv_bool(const char *n) { return in(n, 1, false, 0, 0) & 1; }
uint64_t plv_range(const char *n, uint64_t lo, uint64_t hi) {
  if (lo > hi) plv_assume(false);
  uint64_t v = in(n, ~0ull, true, lo, hi);
  plv_assume(lo <= v && v <= hi);
  return v;
}
uint64_t plv_witness(const char *n) { return in(n, ~0ull, true, 0, ~0ull); }
uint64_t plv_index(const char *n, uint64_t c) {
  if (c == 0) plv_assume(false);
  uint64_t v = in(n, ~0ull, true, 0, c - 1);
  plv_assume(v < c);
  return v;
}
static void fillrec(const std::string &k, void *p, uint64_t n) {
  Rec r{'b', k, 0, {}, n};
  if (replay) {
    memset(p, 0, n);
    auto it = given.find(k);
    if (it != given.end()) memcpy(p, it->second.b.data(), it->second.b.size() < n ? it->second.b.size() : n);
  } else fill((uint8_t *)p, n);
  r.b.assign((uint8_t *)p, (uint8_t *)p + (n < 4096 ? n : 4096));
  recs.push_back(r);
}
void *plv_bytes(const char *name, uint64_t n) {
  auto k = key(name);
  if (n > (1ull << 24)) plv_assume(false);
  void *p = operator new(n);
  fillrec(k, p, n);
  return p;
}
void plv_havoc(const char *name, void *p, uint64_t n) { auto k = key(name); if (n <= 8 && (n & (n - 1)) == 0) { uint64_t v = replay ? given[k].v : val(~0ull); memcpy(p, &v, n); recs.push_back({'u', k, v, {}, 0}); } else fillrec(k, p, n); }
void plv_assume(bool c) { if (!c) { ++skipped; longjmp(skip, 1); } }
void plv_assert(bool c, const char *l) {
  if (c) return;
  fprintf(stderr, "PLV-FAILED assert:%s\n", l);
  death();
  _exit(77);
}
void plv_reach(const char *) {}
uint64_t plv_uf(const char *name, uint64_t a, uint64_t b, uint64_t c) { uint64_t h = 1469598103934665603ull; for (const char *p = name; *p; ++p) h = (h ^ *p) * 1099511628211ull; for (uint64_t x : {a, b, c}) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; }
void plv_loop_invariant(const char *, bool (*)(void *), void *) {}
bool plv_contracts() { return false; }
int plv_symbolic() { return 0; }
uint64_t plv_bounded() { return 0; }
void plv_shared(void *, uint64_t, void (*)(void *), void *) {}
void plv_mutex(void *, void (*)(void *), void (*)(void *), void *) {}
bool plv_held(void *) { return true; }
void plv_vec_grow(void *, uint64_t) { __builtin_trap(); }
uint64_t plv_objsize(const void *) { return ~0ull >> 1; }
bool plv_alive(const void *) { return true; }
}
int main(int argc, char **argv) {
  const char *proof = argv[1];
  uint64_t seed = 1, iters = 1; double tlim = 10;
  const char *values = nullptr;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--values") { values = argv[++i]; replay = true; }
    else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--iters") iters = strtoull(argv[++i], 0, 10);
    else if (a == "--time") tlim = atof(argv[++i]);
    else if (a == "--dump") dump_path = argv[++i];
  }
  auto f = (void (*)())dlsym(RTLD_DEFAULT, proof);
  if (!f) { fprintf(stderr, "no proof %s\n", proof); return 2; }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
  std::set_terminate(on_term);
  signal(SIGABRT, on_sig); signal(SIGFPE, on_sig);
  if (values) {
    FILE *fp = fopen(values, "r");
    char *line = nullptr; size_t cap = 0; ssize_t len;
    while (fp && (len = getline(&line, &cap, fp)) > 0) {
      std::string l(line, len);
      while (!l.empty() && (l.back() == '\n')) l.pop_back();
      auto p1 = l.find(' '), p2 = l.find(' ', p1 + 1);
      if (p1 == std::string::npos || p2 == std::string::npos) continue;
      Rec r; r.kind = l[0]; r.name = l.substr(p1 + 1, p2 - p1 - 1);
      if (r.kind == 'u') r.v = strtoull(l.c_str() + p2 + 1, 0, 10);
      else {
        auto p3 = l.find(' ', p2 + 1);
        r.n = strtoull(l.c_str() + p2 + 1, 0, 10);
        if (p3 != std::string::npos) for (size_t i = p3 + 1; i + 1 < l.size(); i += 2) r.b.push_back(strtoul(l.substr(i, 2).c_str(), 0, 16));
      }
      given[r.name] = r;
    }
    if (fp) fclose(fp);
    iters = 1;
  }
  auto t0 = std::chrono::steady_clock::now();
  for (uint64_t i = 0; i < iters; ++i) {
    recs.clear(); counts.clear();
    rng = (seed * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL) | 1;
    for (int q = 0; q < 4; ++q) rnd();
    style = rnd() % 6;
    ++total;
    if (setjmp(skip) == 0) f();
    if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tlim) break;
  }
  printf("PLV-OK total=%llu skipped=%llu\n", (unsigned long long)total, (unsigned long long)skipped);
  fflush(stdout);
  _exit(0);
}
