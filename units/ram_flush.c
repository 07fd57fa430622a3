/*VP{
"property":"P03","also":["P02"],
"title":"writing a block to a RAM file stores exactly those bytes at the file pointer, changes no other byte and extends the length",
"functions":["ramo_flush_i","ramo_seek_i","ramo_length","rami_length_i"],
"replace":["rf_extend_if_necessary:vp_rf_extend"],
"proof":{"unwind":2},
"assume":["file length below 2^30 (the buffer number is an int)","one object stands for all buffers other than the tracked one"]
}VP*/
#define VP_MAXWATCH 2
#include "ram_common.h"
#ifndef VP_NATIVE
/* contract of rf_extend_if_necessary (unit ram_extend): the buffer exists afterwards, old buffers keep their place */
void vp_rf_extend(RAMFile *rf, int buf_num)
{
    VP_ASSERT(buf_num >= 0, "a buffer number is not negative");
    if (rf->bufcnt <= buf_num) {
        int old = rf->bufcnt;
        rf->bufcnt = buf_num + 1;
        rf->buffers = VP_NEW_N(uchar *, rf->bufcnt);
        __CPROVER_array_set(rf->buffers, g_O);
        if (g_q < rf->bufcnt) rf->buffers[g_q] = g_Q;   /* the old one, or a fresh one of arbitrary contents */
    }
}
#endif
HARNESS
{
    RAMFile *rf = rf_any(); OutStream *os = VP_NEW(OutStream); uchar *src; int len = (int)vp_range(0, BUFFER_SIZE); off_t p, l0; int had, so;
    os->file.rf = rf; os->m = &RAM_OUT_STREAM_METHODS;
    p = vp_range(0, (off_t)(RAM_MAXBUF + 2) * BUFFER_SIZE); l0 = rf->len; had = rfa_has(rf);
    src = VP_NEW_N(uchar, len + 1); VP_FILL(src, len + 1);
    os->m->seek_i(os, p);
    so = (int)(g_o % BUFFER_SIZE);
    vp_watch(so);
    os->m->flush_i(os, src, len);
    VP_REACH("flushed");
    VP_ASSERT(os->pointer == p + len, "the file pointer advances by the number of bytes");
    VP_ASSERT(rf->len == (p + len > l0 ? p + len : l0) && ramo_length(os) == rf->len, "the file ends after the last byte ever written");
    VP_ASSERT(rf->len <= (off_t)rf->bufcnt * BUFFER_SIZE, "every byte of the file has a buffer");
    if (g_o >= p && g_o < p + len) {
        VP_ASSERT(rfa_has(rf), "a written byte has a buffer");
        VP_ASSERT(rfa_byte(rf) == src[g_o - p], "every byte of the block is stored at its place");
    }
    else if (had) VP_ASSERT(rfa_byte(rf) == g_b, "no other byte of the file changes");
}
