/* Shared vocabulary of the proof units.
 *
 * A unit is one C file: it includes the real ferret source under contract
 * and states the contract as assumptions / assertions around calls of the
 * real functions.  The same text is used three ways:
 *   VP_PROOF    goto-cc + CBMC, unbounded (loop contracts / complete unwinding)
 *   VP_BOUNDED  goto-cc + CBMC, sizes limited to VP_K, everything that is
 *               nondeterministic is drawn through vp_*() so that a trace can
 *               be replayed
 *   VP_NATIVE   gcc -fsanitize=address, the vp_*() values come from the trace
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef VP_BOUNDED
#define VP_K_(d) VP_K
#else
#define VP_K_(d) (d)
#endif

#ifdef VP_NATIVE
#include <stdio.h>
extern long long vp_next_value(int bits);
extern long long vp_next_range(long long lo, long long hi);
extern void vp_native_fail(const char *msg, const char *file, int line);
extern void vp_native_cut(void);
#define VP_ASSERT(c, msg) do { if (!(c)) vp_native_fail(msg, __FILE__, __LINE__); } while (0)
#define VP_ASSUME(c) do { if (!(c)) vp_native_cut(); } while (0)
#define VP_ND(type, name) static inline type vp_##name(void) { return (type)vp_next_value(8 * sizeof(type)); }
#else
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "OBL " msg)
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ND(type, name) type nondet_##name(void); \
    static inline type vp_##name(void) { type vp_nd = nondet_##name(); return vp_nd; }
#endif

VP_ND(int, int)
VP_ND(unsigned int, u32)
VP_ND(unsigned long long, u64)
VP_ND(long long, i64)
VP_ND(unsigned char, byte)
/* an arbitrary value of [lo, hi] */
static inline long long vp_range(long long lo, long long hi)
{
#ifdef VP_NATIVE
    long long vp_nd = vp_next_range(lo, hi);
#else
    long long vp_nd = nondet_i64();
#endif
    VP_ASSUME(vp_nd >= lo && vp_nd <= hi);
    return vp_nd;
}
/* bound used in the proof / in the bounded stand-in and the native search */
#ifdef VP_PROOF
#define VP_SZ(full, small) (full)
#else
#define VP_SZ(full, small) (small)
#endif
static inline int vp_bool(void) { return vp_byte() & 1; }
/* a float drawn through its bit pattern */
static inline float vp_float(void) { union { unsigned int u; float f; } x; x.u = vp_u32(); return x.f; }

/* reachability obligation: must be reachable in proof mode (vacuity guard) */
#if (defined(VP_PROOF) || defined(VP_COVER)) && !defined(VP_NATIVE)
#define VP_REACH(name) __CPROVER_assert(0, "REACH " name)
#else
#define VP_REACH(name) ((void)0)
#endif

/* limit a size in the bounded runs only */
#ifdef VP_PROOF
#define VP_LIMIT(n, k) ((void)0)
#define VP_FILL(p, n) ((void)0)
#else
#define VP_LIMIT(n, k) VP_ASSUME((n) <= (k))
/* give n bytes at p arbitrary contents (malloc'd memory is arbitrary anyway in proof mode) */
static inline void vp_fill_i(void *p, size_t n)
{
    size_t vp_i;
    for (vp_i = 0; vp_i < n; vp_i++) ((unsigned char *)p)[vp_i] = vp_byte();
}
#define VP_FILL(p, n) vp_fill_i((p), (n))
#endif

#define VP_NEW(type) ((type *)malloc(sizeof(type)))
#define VP_NEW_N(type, n) ((type *)malloc(sizeof(type) * (size_t)(n)))
/* arbitrary contents, element by element */
#ifdef VP_PROOF
#define VP_FILL_N(type, p, n, gen) ((void)0)
#else
#define VP_FILL_N(type, p, n, gen) do { int vp_i; for (vp_i = 0; vp_i < (n); vp_i++) (p)[vp_i] = (type)gen(); } while (0)
#endif

/* implication that reads like a contract */
#define VP_IMP(a, b) (!(a) || (b))

#endif
