/*VP{
"property":"P03",
"title":"copying a RAM buffer into another stream writes exactly its bytes in order",
"functions":["ramo_write_to"],
"loops":[{"file":"src/ram_store.c","func":"ramo_write_to","loop":0,"of":1,
 "text":"__CPROVER_assigns(i, len, g_out, g_got, g_hit) __CPROVER_loop_invariant(i >= 0 && i <= last_buffer_number + 1 && g_out == (i <= last_buffer_number ? (long long)i * 1024 : rf->len) && g_hit == (g_o < g_out) && (g_hit ==> g_got == g_b)) __CPROVER_decreases(last_buffer_number + 1 - i)"}],
"replace":["frt_os_write_bytes:vp_os_write_bytes","frt_os_flush:vp_os_flush"],
"proof":{"unwind":2},
"assume":["file length below 2^30"]
}VP*/
static long long g_out; static unsigned char g_got; static int g_hit;
#define VP_MAXWATCH 1
#include "ram_common.h"
static OutStream *g_src, *g_dst; static int g_fl;
#ifdef VP_NATIVE
void frt_os_flush(OutStream *os)
#else
void vp_os_flush(OutStream *os)
#endif
{ VP_ASSERT(os == g_src && g_out == 0, "pending bytes are flushed before the copy"); g_fl = 1; }
#ifdef VP_NATIVE
void frt_os_write_bytes(OutStream *os, const uchar *b, int len)
#else
void vp_os_write_bytes(OutStream *os, const uchar *b, int len)
#endif
{
    VP_ASSERT(os == g_dst && len >= 0 && len <= BUFFER_SIZE, "a block of at most one buffer");
    if (g_o >= g_out && g_o < g_out + len) { g_got = b[g_o - g_out]; g_hit = 1; }
#ifdef VP_NATIVE
    { volatile uchar x; int i; for (i = 0; i < len; i++) x = b[i]; }
#endif
    g_out += len;
}
HARNESS
{
    RAMFile *rf = rf_any(); OutStream *os = VP_NEW(OutStream);
    os->file.rf = rf; os->m = &RAM_OUT_STREAM_METHODS;
    g_src = os; g_dst = VP_NEW(OutStream); g_out = 0; g_got = 0; g_hit = 0; g_fl = 0;
    ramo_write_to(os, g_dst);
    VP_REACH("copied");
    VP_ASSERT(g_fl, "pending bytes are flushed first");
    VP_ASSERT(g_out == rf->len, "the whole file is copied, and nothing else");
    VP_ASSERT(g_o >= rf->len || (g_hit && g_got == g_b), "every byte arrives at its place");
}
