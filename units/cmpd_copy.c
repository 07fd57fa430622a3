/*VP{
"property":"P04",
"title":"a file of any length is copied into the compound file byte for byte",
"functions":["cw_copy_file"],
"loops":[{"file":"src/compound_io.c","func":"cw_copy_file","loop":0,"of":1,
 "text":"__CPROVER_assigns(len, remainder, g_rp, g_wp, g_got, g_hit, __CPROVER_object_whole(buffer)) __CPROVER_loop_invariant(remainder >= 0 && remainder <= length && g_rp == length - remainder && g_wp == start_ptr + g_rp && g_hit == (g_o < g_rp) && (g_hit ==> g_got == g_v)) __CPROVER_decreases(remainder)"}],
"proof":{"unwind":2},
"assume":["stream operations by their contracts (P02)"]
}VP*/
#include <sys/types.h>
static long long g_rp, g_wp, g_o, g_len; static unsigned char g_v, g_got; static int g_hit;
#include "env.h"
#include "index.h"
#include "array.h"
#include "internal.h"
static InStream *g_is; static OutStream *g_os; static int g_closed; static long long g_w0;
static const char *g_name;
off_t frt_os_pos(OutStream *os) { return g_wp; }
off_t frt_is_pos(InStream *is) { return g_rp; }
static off_t len_i(InStream *is) { return g_len; }
static const struct InStreamMethods GIN = { NULL, NULL, len_i, NULL };
uchar *frt_is_read_bytes(InStream *is, uchar *b, int len)
{
    VP_ASSERT(is == g_is && len >= 0 && len <= BUFFER_SIZE, "a block of at most one buffer");
    if (g_rp + len > g_len) { VP_ASSERT(0, "the copy never reads past the end"); }
#ifndef VP_NATIVE
    { uchar fresh[BUFFER_SIZE]; __CPROVER_array_replace(b, fresh); }
#endif
    if (g_o >= g_rp && g_o < g_rp + len) b[g_o - g_rp] = g_v;
    g_rp += len;
    return b;
}
void frt_os_write_bytes(OutStream *os, const uchar *b, int len)
{
    VP_ASSERT(os == g_os && len >= 0 && len <= BUFFER_SIZE, "a block of at most one buffer");
    if (g_w0 + g_o >= g_wp && g_w0 + g_o < g_wp + len) { g_got = b[g_w0 + g_o - g_wp]; g_hit = 1; }
    g_wp += len;
}
void frt_is_close(InStream *is) { g_closed++; }
static InStream *op(Store *st, const char *n) { VP_ASSERT(n == g_name, "the named file is opened"); return g_is; }
#include "compound_io.c"
HARNESS
{
    CompoundWriter cw; CWFileEntry e; Store *st = VP_NEW(Store); char nm[4];
    g_is = VP_NEW(InStream); g_is->m = &GIN; g_os = VP_NEW(OutStream); st->open_input = op; cw.store = st; e.name = nm; g_name = nm;
    g_len = vp_range(0, VP_SZ(1LL << 40, 5000)); g_o = vp_range(0, VP_SZ(1LL << 40, 5000)); g_v = vp_byte(); g_rp = 0; g_wp = g_w0 = vp_range(0, 1LL << 40); g_hit = 0; g_closed = 0; g_got = 0;
    cw_copy_file(&cw, &e, g_os);
    VP_REACH("copied");
    VP_ASSERT(g_wp == g_w0 + g_len, "the whole file is copied, and nothing else");
    VP_ASSERT(g_o >= g_len || (g_hit && g_got == g_v), "every byte arrives at its place");
    VP_ASSERT(g_closed == 1, "the source is closed");
}
