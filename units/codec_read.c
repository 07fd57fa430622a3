/*VP{
"property":"P01",
"title":"reading the encoding of a value returns the value and consumes exactly it, at any position of the read buffer; a truncated encoding raises",
"functions":["is_read_vint","is_read_vll","is_read_voff_t","is_read_i32","is_read_u32","is_read_i64","is_read_u64","is_read_byte","is_refill","is_skip_vints"],
"variants":[
 {"name":"vint","defs":["FN=is_read_vint","TY=unsigned","VAR=1","GN=5"]},
 {"name":"vll","defs":["FN=is_read_vll","TY=u64","VAR=1","GN=10"]},
 {"name":"voff","defs":["FN=is_read_voff_t","TY=off_t","VAR=1","GN=9"]},
 {"name":"i32","defs":["FN=is_read_i32","TY=i32","VAR=0","W=4","GN=4"]},
 {"name":"u32","defs":["FN=is_read_u32","TY=u32","VAR=0","W=4","GN=4"]},
 {"name":"i64","defs":["FN=is_read_i64","TY=i64","VAR=0","W=8","GN=8"]},
 {"name":"u64","defs":["FN=is_read_u64","TY=u64","VAR=0","W=8","GN=8"]},
 {"name":"skip","defs":["SKIP=1","TY=u64","VAR=1","GN=10"]}],
"replace":["frt_is_read_byte:vp_is_read_byte"],
"proof":{"unwind":11},
"assume":["the bytes at the position are a well-formed encoding (possibly cut off by the end of the file)"]
}VP*/
#define VP_GN GN
#include "stream_common.h"
#include "codec_common.h"
static int g_k;
static int isa_shape(InStream *is)
{
    return is->buf.start >= 0 && is->buf.start <= 2 * VP_OFFMAX && is->buf.len >= 0 && is->buf.len <= BUFFER_SIZE
        && is->buf.pos >= 0 && is->buf.pos <= is->buf.len && g_rp == is->buf.start + is->buf.len;
}
#ifndef VP_NATIVE
/* contract of is_read_byte (unit str_read) */
uchar vp_is_read_byte(InStream *is)
{
    uchar b = 0;
    VP_ASSERT(isa_shape(is) && isa_pos(is) == g_o + g_k, "the stream is well formed when a byte is read");
    if (g_o + g_k >= g_len) { VP_ASSERT(vp_raise_ok, "a read inside the file never fails"); VP_ASSUME(0); }
    VP_ASSERT(g_k < VP_GN, "no more bytes are read than belong to the encoding");
    if (g_k < VP_GN) b = g_v[g_k];
    g_k++;
    is->buf.len = vp_range(1, BUFFER_SIZE); is->buf.pos = vp_range(1, is->buf.len); is->buf.start = g_o + g_k - is->buf.pos;
    g_rp = is->buf.start + is->buf.len;
    __CPROVER_assume(is->buf.start >= 0);
    return b;
}
#endif
HARNESS
{
    InStream *is; TY num = (TY)vp_i64(), r; int n, k; off_t p0;
    VP_ASSUME(CODEC_OK(num));
    gf_any(); g_k = 0;
    p0 = g_o; n = codec_len(num);
    for (k = 0; k < VP_GN; k++) if (k < n) g_v[k] = codec_byte(num, n, k);
    /* any buffering state whose logical position is g_o */
    is = VP_NEW(InStream);
    is->m = &GF_IN; is->ref_cnt_ptr = VP_NEW(int);
    is->buf.len = vp_range(0, BUFFER_SIZE); is->buf.pos = vp_range(0, is->buf.len); is->buf.start = g_o - is->buf.pos;
    g_rp = is->buf.start + is->buf.len;
    VP_FILL(is->buf.buf, BUFFER_SIZE);
#ifdef VP_NATIVE
    if (g_rp > g_len) g_len = g_rp;
    for (k = 0; k < VP_GN; k++) if (is->buf.pos + k < is->buf.len) is->buf.buf[is->buf.pos + k] = g_v[k];
#endif
    VP_ASSUME(is->buf.start >= 0 && (is->buf.len == 0 || g_rp <= g_len));
    for (k = 0; k < VP_GN; k++) VP_ASSUME(is->buf.pos + k >= is->buf.len || is->buf.buf[is->buf.pos + k] == g_v[k]);
    vp_raise_ok = p0 + n > g_len;
#ifdef SKIP
    is_skip_vints(is, 1);
#else
    r = FN(is);
    VP_ASSERT(r == num, "the value read is the value encoded");
#endif
    VP_REACH("returns");
    VP_ASSERT(p0 + n <= g_len, "an encoding cut off by the end of the file raises");
    VP_ASSERT(isa_shape(is) && isa_pos(is) == p0 + n, "exactly the encoding is consumed");
}
