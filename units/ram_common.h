/* A RAM file of any length: buffers[] has any number of entries; the tracked
 * byte g_o lives in buffer number g_q, object g_Q; every other entry points to
 * some other buffer (one object stands for all of them: nothing is claimed
 * about its contents). */
#define VP_WATCH_W 1
#include "env.h"
#include <sys/types.h>
#include "store.h"
static off_t g_o; static int g_q; static unsigned char *g_Q, *g_O; static unsigned char g_b;
#define RAM_MAXBUF VP_SZ(1 << 20, 6)
#include "ram_store.c"
static RAMFile *rf_any(void)
{
    RAMFile *rf = VP_NEW(RAMFile);
    int n = (int)vp_range(1, RAM_MAXBUF), i;
    rf->bufcnt = n; rf->ref_cnt = (int)vp_range(0, 5); rf->name = VP_NEW_N(char, 8);
    rf->len = vp_range(0, (off_t)n * BUFFER_SIZE);
    g_o = vp_range(0, (off_t)(RAM_MAXBUF + 3) * BUFFER_SIZE); g_q = (int)(g_o / BUFFER_SIZE);
    rf->buffers = VP_NEW_N(uchar *, n);
    g_Q = VP_NEW_N(uchar, BUFFER_SIZE);
    g_O = VP_NEW_N(uchar, BUFFER_SIZE);
#ifdef VP_NATIVE
    for (i = 0; i < n; i++) { rf->buffers[i] = i == g_q ? g_Q : VP_NEW_N(uchar, BUFFER_SIZE); memset(rf->buffers[i], i * 31 + 7, BUFFER_SIZE); }
    if (g_q >= n) memset(g_Q, 99, BUFFER_SIZE);
    g_Q[g_o % BUFFER_SIZE] = vp_byte();
#else
    __CPROVER_array_set(rf->buffers, g_O);
    if (g_q < n) rf->buffers[g_q] = g_Q;
#endif
    g_b = g_Q[g_o % BUFFER_SIZE];
    return rf;
}
/* the byte of the file at the tracked offset */
static int rfa_has(RAMFile *rf) { return g_q < rf->bufcnt; }
static uchar rfa_byte(RAMFile *rf) { return rf->buffers[g_q][g_o % BUFFER_SIZE]; }
