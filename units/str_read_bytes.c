/*VP{
"property":"P02",
"title":"reading any number of bytes returns exactly the file's bytes and advances by that number; past the end it raises",
"functions":["is_read_bytes"],
"loops":[{"file":"src/store.c","func":"is_read_bytes","loop":0,"of":1,
 "text":"__CPROVER_assigns(i, is->buf.pos, __CPROVER_object_whole(buf)) __CPROVER_loop_invariant(i >= 0 && i <= len && is->buf.pos == g_bp + i && buf[len] == 77 && (g_o >= g_p0 && g_o < g_p0 + i ==> buf[g_o - g_p0] == g_v[0])) __CPROVER_decreases(len - i)"}],
"proof":{"unwind":3}
}VP*/
#include <sys/types.h>
static long long g_p0, g_bp;
#include "stream_common.h"
HARNESS
{
    InStream *is; uchar *buf; int len = (int)vp_range(0, VP_SZ(1 << 30, 3000));
    gf_any(); is = is_any();
    buf = VP_NEW_N(uchar, len + 1); buf[len] = 77;
    g_p0 = isa_pos(is); g_bp = is->buf.pos;
    vp_raise_ok = g_p0 + len > g_len;
    is_read_bytes(is, buf, len);
    VP_REACH("read");
    VP_ASSERT(g_p0 + len <= g_len || (len == 0), "reading past the end of the file raises");
    VP_ASSERT(isa_wf(is) && isa_pos(is) == g_p0 + len, "the position advances by the number of bytes");
    VP_ASSERT(!(g_o >= g_p0 && g_o < g_p0 + len) || buf[g_o - g_p0] == g_v[0], "the bytes read are the bytes in the file");
    VP_ASSERT(buf[len] == 77, "nothing is written behind the buffer");
}
