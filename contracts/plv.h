// Specification vocabulary of the plv verifier.  The same text is compiled to LLVM IR (and proved for all values of the symbolic
// inputs) and natively (plv_rt.cc supplies concrete inputs, for replaying counterexamples against the real code).
#ifndef PLV_H_
#define PLV_H_
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
uint64_t plv_u64(const char *name);                            // an arbitrary value
uint32_t plv_u32(const char *name);
uint16_t plv_u16(const char *name);
uint8_t plv_u8(const char *name);
bool plv_bool(const char *name);
uint64_t plv_range(const char *name, uint64_t lo, uint64_t hi); // an arbitrary value in [lo, hi]
void *plv_bytes(const char *name, uint64_t n);                  // an object of exactly n arbitrary bytes
uint64_t plv_witness(const char *name);                         // an arbitrary index at which quantified facts are instantiated
uint64_t plv_index(const char *name, uint64_t n);               // an arbitrary witness index below n (discards n == 0)
void plv_assume(bool c);                                        // precondition
void plv_assert(bool c, const char *label);                     // postcondition / invariant: a named obligation
void plv_reach(const char *label);                              // must be reachable (vacuity guard)
void plv_havoc(const char *name, void *p, uint64_t n);          // arbitrary contents (frame of an abstracted callee)
uint64_t plv_uf(const char *name, uint64_t a, uint64_t b, uint64_t c); // uninterpreted function
// loop invariant (a pure function of the state) of every loop of the functions whose name contains fn; checked on entry and preserved
void plv_loop_invariant(const char *fn, bool (*inv)(void *), void *arg);
void plv_vec_grow(void *vec, uint64_t n);                       // std::vector of one-byte elements grows by n arbitrary elements (contracts only)
bool plv_contracts();                                           // callees are replaced by their contracts in this run
int plv_symbolic();
uint64_t plv_bounded();
void plv_shared(void *p, uint64_t n, void (*env)(void *), void *arg); // env may run before every atomic access to [p, p+n)
void plv_mutex(void *m, void (*acq)(void *), void (*rel)(void *), void *arg);
bool plv_held(void *m);
uint64_t plv_objsize(const void *p);
bool plv_alive(const void *p);
}
#endif
