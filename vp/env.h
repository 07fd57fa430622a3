/* Environment of every unit: the parts of ferret's run-time support that are
 * replaced by a contract.
 *   frt_xraise    raising an exception ends the path (longjmp is outside the
 *                 verifier's reach).  A raise is itself an obligation: it must
 *                 only happen where the contract of the unit allows it.
 *   allocation    the real lang.c wrappers over malloc/calloc/realloc, with
 *                 allocation assumed to succeed.
 */
#ifndef VP_ENV_H
#define VP_ENV_H
#include "vp.h"
#include "global.h"
#include "except.h"
#include "lang.h"

char frt_xmsg_buffer[FRT_XMSG_BUFFER_SIZE];
char frt_xmsg_buffer_final[FRT_XMSG_BUFFER_SIZE];
#ifndef VP_NO_XGLOBALS
bool frt_x_abort_on_exception = 1;
bool frt_x_has_aborted = 0;
bool frt_x_do_logging = 0;
FILE *frt_x_exception_stream = 0;
#endif

/* TRY/XFINALLY: only the normal path is entered; the exceptional path starts
 * at a raise, which ends the path (see above) */
#ifndef VP_NATIVE
#undef setjmp
#define setjmp(b) (0)
#endif
void frt_xpush_context(frt_xcontext_t *c) { (void)c; }
void frt_xpop_context() { }

static int vp_raise_ok;   /* is an exception an allowed outcome right now? */
void frt_xraise(int excode, const char *const msg)
{
    (void)excode; (void)msg;
    VP_ASSERT(vp_raise_ok, "an exception is raised only where the contract allows it");
    VP_ASSUME(0);
}
#ifndef VP_NATIVE
/* message formatting has no bearing on any property */
int snprintf(char *s, size_t n, const char *f, ...) { (void)s; (void)n; (void)f; return 0; }
#endif
/* ---- bulk memory operations -------------------------------------------
 * VP_PROOF: contracts.  memset/memcpy/memmove/realloc of a symbolic number of
 *   bytes havoc the destination; what is known afterwards is known at the
 *   watched byte offsets (vp_watch), which the unit chooses arbitrarily, so a
 *   fact about "the" watched element is a fact about every element.
 * VP_BOUNDED: plain loops.  VP_NATIVE: the C library.
 */
#ifndef VP_NATIVE
#ifndef VP_WATCH_W
#define VP_WATCH_W 4          /* width in bytes of a watched element */
#endif
#if VP_WATCH_W == 1
typedef unsigned char vp_welem;
#elif VP_WATCH_W == 4
typedef unsigned int vp_welem;
#else
typedef void *vp_welem;
#endif
#if defined(VP_PROOF) && !defined(VP_EXACT_MEM)
#ifndef VP_MAXWATCH
#define VP_MAXWATCH 3
#endif
static long long vp_wi[VP_MAXWATCH];   /* watched element indices */
static int vp_nwatch;
static void vp_watch(long long idx) { vp_wi[vp_nwatch++] = idx; }
/* start of the object d points into; objects the unit registers are accessed
 * through their own typed base pointer, which keeps the formulas small */
#ifdef VP_BASES
static vp_welem *vp_base[VP_BASES];
static int vp_nbase;
static void vp_base_add(void *p) { vp_base[vp_nbase++] = p; }
static vp_welem *vp_base_of(const void *d)
{
    int i;
    for (i = 0; i < VP_BASES; i++) if (i < vp_nbase && __CPROVER_same_object(d, vp_base[i])) return vp_base[i];
    return (vp_welem *)((const char *)d - __CPROVER_POINTER_OFFSET(d));
}
#else
#define vp_base_add(p) ((void)0)
#define vp_base_of(d) ((vp_welem *)((const char *)(d) - __CPROVER_POINTER_OFFSET(d)))
#endif
#if VP_MAXWATCH == 1
#define VP_EACH(M) M(0)
#elif VP_MAXWATCH == 2
#define VP_EACH(M) M(0) M(1)
#else
#define VP_EACH(M) M(0) M(1) M(2)
#endif
/* save the watched element K: [LO,HI) is the byte range of the destination
 * that receives new contents from source element (K's index) - SH */
#define VP_W_GET(K) vp_welem e##K; int h##K = 0; \
    if (vp_nwatch > K) { long long o = vp_wi[K] * VP_WATCH_W; \
        if (o >= d0 && o + VP_WATCH_W <= d0 + (long long)n) { if ((s0 - d0) % VP_WATCH_W == 0) { h##K = 1; e##K = sb[vp_wi[K] + (s0 - d0) / VP_WATCH_W]; } } \
        else if (o >= 0 && o + VP_WATCH_W <= dsz && (o + VP_WATCH_W <= d0 || o >= d0 + (long long)n)) { h##K = 1; e##K = db[vp_wi[K]]; } }
#define VP_W_PUT(K) if (h##K) __CPROVER_assume(db[vp_wi[K]] == e##K);
static void *vp_memmove(void *d, const void *s, size_t n)
{
    if (n == 0) return d;
    __CPROVER_assert(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "OBL memory copy stays inside its objects");
    long long d0 = __CPROVER_POINTER_OFFSET(d), dsz = __CPROVER_OBJECT_SIZE(d), s0 = __CPROVER_POINTER_OFFSET(s);
    vp_welem *db = vp_base_of(d), *sb = vp_base_of(s);
    VP_EACH(VP_W_GET)
    __CPROVER_havoc_object(d);
    VP_EACH(VP_W_PUT)
    return d;
}
static vp_welem vp_pattern(int c)
{
#if VP_WATCH_W == 1
    return (unsigned char)c;
#elif VP_WATCH_W == 4
    unsigned int w = (unsigned char)c; w |= w << 8; w |= w << 16; return w;
#else
    unsigned long long w = (unsigned char)c; w |= w << 8; w |= w << 16; w |= w << 32; return (void *)w;
#endif
}
#define VP_W_SET(K) vp_welem e##K; int h##K = 0; \
    if (vp_nwatch > K) { long long o = vp_wi[K] * VP_WATCH_W; \
        if (o >= d0 && o + VP_WATCH_W <= d0 + (long long)n) { h##K = 1; e##K = w; } \
        else if (o >= 0 && o + VP_WATCH_W <= dsz && (o + VP_WATCH_W <= d0 || o >= d0 + (long long)n)) { h##K = 1; e##K = db[vp_wi[K]]; } }
static void *vp_memset(void *d, int c, size_t n)
{
    if (n == 0) return d;
    __CPROVER_assert(__CPROVER_w_ok(d, n), "OBL memset stays inside its object");
    long long d0 = __CPROVER_POINTER_OFFSET(d), dsz = __CPROVER_OBJECT_SIZE(d);
    vp_welem *db = vp_base_of(d), w = vp_pattern(c);
    VP_EACH(VP_W_SET)
    __CPROVER_havoc_object(d);
    VP_EACH(VP_W_PUT)
    return d;
}
#define VP_W_RE(K) if (vp_nwatch > K && vp_wi[K] >= 0 && (vp_wi[K] + 1) * VP_WATCH_W <= m) __CPROVER_assume(db[vp_wi[K]] == qb[vp_wi[K]]);
static void *vp_realloc_i(void *q, void *d, size_t nn)
{
    if (q) {
        long long m = __CPROVER_OBJECT_SIZE(q);
        vp_welem *db = d, *qb = q;
        if ((long long)nn < m) m = nn;
        __CPROVER_assert(__CPROVER_POINTER_OFFSET(q) == 0, "OBL realloc of the start of a block");
        VP_EACH(VP_W_RE)
        free(q);
    }
#ifdef VP_BASES
    { int i; for (i = 0; i < VP_BASES; i++) if (i < vp_nbase && vp_base[i] == q) vp_base[i] = d; }
#endif
    return d;
}
#else
static void vp_watch(long long i) { (void)i; }
#define vp_base_add(p) ((void)0)
static void *vp_memset(void *d, int c, size_t n)
{
    size_t i;
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "OBL memset stays inside its object");
    if (VP_WATCH_W == 4 && n % 4 == 0) {
        unsigned int w = (unsigned char)c; w |= w << 8; w |= w << 16;
        for (i = 0; i < n / 4; i++) ((unsigned int *)d)[i] = w;
    }
    else if (VP_WATCH_W == 8 && n % 8 == 0) {
        unsigned long long w = (unsigned char)c; w |= w << 8; w |= w << 16; w |= w << 32;
        for (i = 0; i < n / 8; i++) ((unsigned long long *)d)[i] = w;
    }
    else for (i = 0; i < n; i++) ((unsigned char *)d)[i] = (unsigned char)c;
    return d;
}
#define VP_MOVE(T) if (!__CPROVER_same_object(d, s) || (char *)d <= (char *)s) for (i = 0; i < n / sizeof(T); i++) ((T *)d)[i] = ((const T *)s)[i]; \
    else for (i = n / sizeof(T); i > 0; i--) ((T *)d)[i - 1] = ((const T *)s)[i - 1];
static void *vp_memmove(void *d, const void *s, size_t n)
{
    size_t i;
    __CPROVER_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "OBL memory copy stays inside its objects");
    if (VP_WATCH_W > 1 && n % VP_WATCH_W == 0) { VP_MOVE(vp_welem) }
    else { VP_MOVE(unsigned char) }
    return d;
}
static void *vp_realloc_i(void *q, void *d, size_t n)
{
    if (q) {
        size_t m = __CPROVER_OBJECT_SIZE(q);
        if (n < m) m = n;
        vp_memmove(d, q, m);
        free(q);
    }
    return d;
}
#endif
static void *vp_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || !__CPROVER_same_object(d, s) || d == s || (char *)d + n <= (char *)s || (char *)s + n <= (char *)d,
                     "OBL memcpy regions do not overlap");
    return vp_memmove(d, s, n);
}
#ifndef VP_LIB_MEM
/* a copy of a constant number of bytes (a struct) is exact */
#define memset(d, c, n) (__builtin_constant_p(n) ? (memset)((d), (c), (n)) : vp_memset((d), (c), (n)))
#define memcpy(d, s, n) (__builtin_constant_p(n) ? (memcpy)((d), (s), (n)) : vp_memcpy((d), (s), (n)))
#define memmove(d, s, n) (__builtin_constant_p(n) ? (memmove)((d), (s), (n)) : vp_memmove((d), (s), (n)))
#define realloc(q, n) vp_realloc_i((q), malloc(n), (n))
#endif
#else
#define vp_watch(o) ((void)0)
#define vp_base_add(p) ((void)0)
#endif

#ifdef VP_FREE_PTR   /* the source takes the address of free */
static void vp_free(void *p) { (free)(p); }
#define free vp_free
#endif
/* contracts of the global.c helpers (proved against global.c by unit glob_helpers) */
#ifndef VP_NO_HELPERS
int frt_min2(int a, int b) { return a < b ? a : b; }
int frt_max2(int a, int b) { return a < b ? b : a; }
int frt_min3(int a, int b, int c) { return frt_min2(a, frt_min2(b, c)); }
int frt_max3(int a, int b, int c) { return frt_max2(a, frt_max2(b, c)); }
#endif

#ifdef VP_ESTRDUP   /* contract of estrdup: a fresh copy */
char *frt_estrdup(const char *s) { size_t n = strlen(s), i; char *d = (char *)malloc(n + 1); for (i = 0; i <= n; i++) d[i] = s[i]; return d; }
#endif
/* every unit: HARNESS { ... }.  Statics start out arbitrary under the
 * contract instrumentation, so the environment's own are set here */
static void vp_unit(void);
void harness(void)
{
    vp_raise_ok = 0;
#if defined(VP_PROOF) && !defined(VP_EXACT_MEM)
    vp_nwatch = 0;
#ifdef VP_BASES
    vp_nbase = 0;
#endif
#endif
    vp_unit();
}
#define HARNESS static void vp_unit(void)

/* the lang.c wrappers, as macros so that the verifier sees the element type
 * in malloc(sizeof(T) * n) */
#ifndef VP_NO_ALLOC
#define frt_emalloc(n) malloc(n)
#define frt_ecalloc(n) calloc(1, n)
#define frt_erealloc(q, n) realloc(q, n)
#endif
#endif
