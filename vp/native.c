/* Native driver of a unit: the real code, compiled by gcc with ASAN/UBSAN.
 *   VP_VALUES=file   replay the recorded choices
 *   VP_SEARCH=seed VP_ITERS=n   draw the choices, looking for a failing input
 * exit 0 nothing failed, 42 a failed obligation, 43 an endless run,
 * 77 replay left the assumptions, anything else: sanitizer */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/time.h>
static FILE *vp_f;
static int vp_searching;
static unsigned long long vp_s;
#define VP_MAXV 200000
static long long vp_v[VP_MAXV];
static long vp_used;
static jmp_buf vp_jb;
static unsigned long long rnd(void)
{
    unsigned long long z = (vp_s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static long long record(long long v)
{
    if (vp_used < VP_MAXV) vp_v[vp_used] = v;
    vp_used++;
    return v;
}
long long vp_next_value(int bits)
{
    long long v = 0;
    if (vp_searching) {
        unsigned long long r = rnd();
        switch (r % 8) {
        case 0: case 1: case 2: v = rnd() % 8; break;
        case 3: v = rnd() % 300; break;
        case 4: { int sh = rnd() % bits; v = (1ull << sh) + (long long)(rnd() % 3) - 1; break; }
        case 5: v = -(long long)(rnd() % 5); break;
        default: v = (long long)(rnd() >> (rnd() % 64)); break;
        }
        return record(v);
    }
    if (!vp_f || fscanf(vp_f, "%lld", &v) != 1) v = 0; /* beyond the trace */
    return record(v);
}
long long vp_next_range(long long lo, long long hi)
{
    long long v = lo;
    if (vp_searching) {
        unsigned long long w = (unsigned long long)hi - (unsigned long long)lo + 1;
        unsigned long long r = rnd();
        if (hi < lo) longjmp(vp_jb, 1);
        if (w == 0) v = (long long)rnd();
        else switch (r % 8) {
        case 0: v = lo + (long long)(rnd() % (w < 3 ? w : 3)); break;
        case 1: v = hi - (long long)(rnd() % (w < 3 ? w : 3)); break;
        case 2: v = lo + (long long)(rnd() % (w < 40 ? w : 40)); break;
        default: v = lo + (long long)(rnd() % w); break;
        }
        return record(v);
    }
    if (!vp_f || fscanf(vp_f, "%lld", &v) != 1) v = lo;
    return record(v);
}
static void dump(void)
{
    long i;
    printf("VP-VALUES");
    for (i = 0; i < vp_used && i < VP_MAXV; i++) printf(" %lld", vp_v[i]);
    printf("\n");
    fflush(stdout);
}
void vp_native_fail(const char *msg, const char *file, int line)
{
    printf("VP-FAIL %s (%s:%d, after %ld choices)\n", msg, file, line, vp_used);
    dump();
    _Exit(42);
}
void vp_native_cut(void)
{
    if (vp_searching) longjmp(vp_jb, 1);
    printf("VP-CUT\n"); fflush(stdout); _Exit(77);
}
static void on_hang(int s) { (void)s; printf("VP-FAIL OBL the operation terminates (10 s of CPU time)\n"); dump(); _Exit(43); }
extern void harness(void);
void __sanitizer_set_death_callback(void (*cb)(void));
int main(void)
{
    const char *fn = getenv("VP_VALUES"), *se = getenv("VP_SEARCH");
    struct itimerval it; memset(&it, 0, sizeof it);
    long i, n = getenv("VP_ITERS") ? atol(getenv("VP_ITERS")) : 1, cut = 0;
    signal(SIGPROF, on_hang);
    __sanitizer_set_death_callback(dump);
    it.it_value.tv_sec = 10;
    if (se) {
        unsigned long long seed = strtoull(se, 0, 10);
        vp_searching = 1;
        for (i = 0; i < n; i++) {
            if (i % 64 == 0) setitimer(ITIMER_PROF, &it, 0);
            vp_used = 0; vp_s = seed * 1000003ull + (unsigned long long)i * 7919ull;
            if (setjmp(vp_jb) == 0) harness(); else cut++;
        }
        printf("VP-DONE %ld runs, %ld outside the assumptions\n", n, cut);
        return 0;
    }
    vp_f = fn ? fopen(fn, "r") : NULL;
    setitimer(ITIMER_PROF, &it, 0);
    harness();
    printf("VP-OK\n");
    return 0;
}
