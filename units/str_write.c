/*VP{
"property":"P02","also":["P01"],
"title":"writing one byte, flushing, seeking and closing keep the stream's contents: position, length and every byte are as if unbuffered",
"functions":["os_write_byte","os_flush","os_seek","os_pos","os_close","os_new"],
"proof":{"unwind":3}
}VP*/
#include "stream_common.h"
HARNESS
{
    OutStream *os; off_t p0, l0, to; uchar v0, b; int op = (int)vp_range(0, 4);
    gf_any(); os = os_any();
    VP_ASSUME(osa_wf(os));
    p0 = osa_pos(os); l0 = osa_len(os); v0 = osa_byte(os, 0); b = vp_byte();
    VP_ASSERT(os_pos(os) == p0, "os_pos is the logical position");
    if (op == 0) {
        os_write_byte(os, b);
        VP_REACH("write");
        VP_ASSERT(osa_wf(os) && osa_pos(os) == p0 + 1, "the position advances by one");
        VP_ASSERT(osa_byte(os, 0) == (g_o == p0 ? b : v0), "exactly the byte at the position is written");
        VP_ASSERT(osa_len(os) == (p0 + 1 > l0 ? p0 + 1 : l0), "the length is the highest byte written");
    } else if (op == 1) {
        os_flush(os);
        VP_REACH("flush");
        VP_ASSERT(osa_wf(os) && osa_pos(os) == p0 && osa_byte(os, 0) == v0 && osa_len(os) == l0, "flushing changes nothing logically");
        VP_ASSERT(os->buf.pos == 0 && g_v[0] == v0 && g_len == l0, "after a flush the bytes are in the file");
    } else if (op == 2) {
        to = vp_range(0, VP_SZ(VP_OFFMAX, 5000));
        os_seek(os, to);
        VP_REACH("seek");
        VP_ASSERT(osa_wf(os) && osa_pos(os) == to && os_pos(os) == to, "seek moves to the position");
        VP_ASSERT(osa_byte(os, 0) == v0 && osa_len(os) == l0, "seek keeps what was written");
    } else if (op == 3) {
        os_close(os);
        VP_REACH("close");
        VP_ASSERT(g_v[0] == v0 && g_len == l0, "close puts every written byte into the file");
        VP_ASSERT(g_closed == 1, "close releases the file once");
    } else {
        OutStream *n = os_new();
        VP_ASSERT(osa_pos(n) == 0 && n->buf.pos == 0, "a new stream is at the start");
        VP_REACH("new");
    }
}
