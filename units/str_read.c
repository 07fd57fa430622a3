/*VP{
"property":"P02","also":["P01"],
"title":"reading a byte, seeking, querying the position and cloning: a reader sees exactly the file's bytes, and reading at or past the end raises",
"functions":["is_read_byte","is_refill","is_seek","is_pos","is_clone","is_new"],
"proof":{"unwind":3}
}VP*/
#include "stream_common.h"
HARNESS
{
    InStream *is; off_t p0, to; uchar b; int op = (int)vp_range(0, 4);
    gf_any(); is = is_any();
    p0 = isa_pos(is);
    VP_ASSERT(is_pos(is) == p0, "is_pos is the logical position");
    if (op == 0) {
        vp_raise_ok = p0 >= g_len;
        b = is_read_byte(is);
        VP_REACH("read");
        VP_ASSERT(p0 < g_len, "reading at or past the end of the file raises");
        VP_ASSERT(isa_wf(is) && isa_pos(is) == p0 + 1, "the position advances by one");
        VP_ASSERT(g_o != p0 || b == g_v[0], "the byte read is the byte in the file");
    } else if (op == 1) {
        to = vp_range(0, VP_SZ(VP_OFFMAX, 5000));
        is_seek(is, to);
        VP_REACH("seek");
        VP_ASSERT(isa_wf(is) && isa_pos(is) == to && is_pos(is) == to, "seek moves to the position");
    } else if (op == 2) {
        int rc = *is->ref_cnt_ptr; InStream *c = is_clone(is);
        VP_REACH("clone");
        VP_ASSERT(c != is && isa_wf(c) && isa_pos(c) == p0, "a clone starts at the same position with the same contents");
        VP_ASSERT(c->ref_cnt_ptr == is->ref_cnt_ptr && *c->ref_cnt_ptr == rc + 1, "a clone shares the file and counts as a user");
    } else if (op == 3) {
        int rc = *is->ref_cnt_ptr;
        is_close(is);
        VP_REACH("close");
        VP_ASSERT(g_closed == (rc == 0), "the file is released with its last user, once");
    } else {
        InStream *n = is_new();
        VP_ASSERT(n->buf.start == 0 && n->buf.pos == 0 && n->buf.len == 0 && *n->ref_cnt_ptr == 0, "a new stream is at the start");
        VP_REACH("new");
    }
}
