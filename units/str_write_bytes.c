/*VP{
"property":"P02",
"title":"writing any number of bytes at once equals writing them one by one",
"functions":["os_write_bytes"],
"loops":[{"file":"src/store.c","func":"os_write_bytes","loop":0,"of":1,
 "text":"__CPROVER_assigns(pos, size, os->buf.start, g_wp, g_len, __CPROVER_object_whole(g_v)) __CPROVER_loop_invariant(pos >= 0 && pos <= len && os->buf.start == g_p0 + pos && g_wp == os->buf.start && g_len == (pos > 0 && g_p0 + pos > g_l0 ? g_p0 + pos : g_l0) && g_v[0] == (g_o >= g_p0 && g_o < g_p0 + pos ? g_src[g_o - g_p0] : g_v0)) __CPROVER_decreases(len - pos)"}],
"proof":{"unwind":3}
}VP*/
#include <sys/types.h>
long long g_p0, g_l0; unsigned char g_v0, *g_src;
#include "stream_common.h"
HARNESS
{
    OutStream *os; int len = (int)vp_range(0, VP_SZ((1 << 30), 3000));
    gf_any(); os = os_any();
    VP_ASSUME(osa_wf(os));
    g_src = VP_NEW_N(unsigned char, len + 1);
    VP_FILL(g_src, len + 1);
    g_p0 = osa_pos(os); g_l0 = osa_len(os); g_v0 = osa_byte(os, 0);
    os_write_bytes(os, g_src, len);
    VP_REACH("returns");
    VP_ASSERT(osa_wf(os), "the stream stays well formed");
    VP_ASSERT(osa_pos(os) == g_p0 + len, "the position advances by the number of bytes");
    VP_ASSERT(osa_byte(os, 0) == (g_o >= g_p0 && g_o < g_p0 + len ? g_src[g_o - g_p0] : g_v0), "exactly the bytes at the position are written");
    VP_ASSERT(osa_len(os) == (g_p0 + len > g_l0 && len > 0 ? g_p0 + len : g_l0), "the length is the highest byte written");
}
