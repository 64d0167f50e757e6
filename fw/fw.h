/* Harness API shared by every proof unit.  The same unit is compiled in two ways:
 *  - by goto-cc, where inputs are unconstrained and CHECK/REACH become proof obligations;
 *  - by gcc (-DFW_NATIVE), to replay a verifier counterexample against the real code.   */
#ifndef FW_H
#define FW_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>

#ifdef FW_NATIVE
uint64_t fw_u64(const char *name);
void fw_assume(int c);
void fw_check(int c, const char *id);
#define ASSUME(c) fw_assume(!!(c))
#define CHECK(id, c) fw_check(!!(c), id)
#define REACH(id) ((void)0)
#define FW_ALLOC(n) fw_native_alloc(n)
void *fw_native_alloc(size_t n);
#define IMPLIES(a,b) (!(a) || (b))
#else
static inline uint64_t fw_u64(const char *name){ uint64_t v; __CPROVER_input(name, v); return v; }
#define ASSUME(c) __CPROVER_assume(c)
#ifdef FW_REACH
#define CHECK(id, c) ((void)0)
#define REACH(id) __CPROVER_assert(0, "REACH " id)
#else
#define CHECK(id, c) __CPROVER_assert(c, "CHECK " id)
#ifdef FW_BOTH
#define REACH(id) __CPROVER_assert(0, "REACH " id)
#else
#define REACH(id) ((void)0)
#endif
#endif
#define IMPLIES(a,b) (!(a) || (b))
#define fw_ix(name, i, n) ({ long fw_i = (i); CHECK("index of " name " in range", fw_i >= 0 && fw_i < (n)); fw_i; })
/* a fresh object with unconstrained contents */
#define FW_ALLOC(n) __CPROVER_allocate(n, 0)
#endif

static inline int64_t  fw_i64(const char *n){ return (int64_t)fw_u64(n); }
static inline double   fw_f64(const char *n){ union { uint64_t u; double d; } x; x.u = fw_u64(n); return x.d; }
#ifdef FW_NATIVE
uint64_t fw_pick(const char *name, uint64_t lo, uint64_t hi); /* random search draws inside the range */
#define fw_range fw_pick
#else
static inline uint64_t fw_range(const char *n, uint64_t lo, uint64_t hi){ uint64_t v = fw_u64(n); ASSUME(v >= lo && v <= hi); return v; }
#endif
#endif
