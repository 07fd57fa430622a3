/*VP{
"property":"P01",
"title":"integers are written as the documented byte sequence at any position of the write buffer",
"functions":["os_write_vint","os_write_vll","os_write_voff_t","os_write_i32","os_write_u32","os_write_i64","os_write_u64","os_write_byte","os_flush"],
"variants":[
 {"name":"vll1","cost":9,"defs":["FN=os_write_vll","TY=u64","VAR=1","LLO=1","LHI=6"]},
 {"name":"vll7","cost":9,"defs":["FN=os_write_vll","TY=u64","VAR=1","LLO=7","LHI=10"]},
 {"name":"voff1","cost":9,"defs":["FN=os_write_voff_t","TY=off_t","VAR=1","LLO=1","LHI=6"]},
 {"name":"voff7","cost":9,"defs":["FN=os_write_voff_t","TY=off_t","VAR=1","LLO=7","LHI=9"]},
 {"name":"vint1","cost":9,"defs":["FN=os_write_vint","TY=unsigned","VAR=1","LLO=1","LHI=5"]},
 {"name":"i32","defs":["FN=os_write_i32","TY=i32","VAR=0","W=4"]},
 {"name":"u32","defs":["FN=os_write_u32","TY=u32","VAR=0","W=4"]},
 {"name":"i64","defs":["FN=os_write_i64","TY=i64","VAR=0","W=8"]},
 {"name":"u64","defs":["FN=os_write_u64","TY=u64","VAR=0","W=8"]}],
"replace":["frt_os_write_byte:vp_os_write_byte"],
"proof":{"unwind":11},
"assume":["file offsets below 2^40; voff_t values are non-negative"]
}VP*/
#define VP_GN 1
#include "stream_common.h"
#include "codec_common.h"
#ifndef VP_NATIVE
/* contract of os_write_byte (unit str_write): the abstract contents change at
 * the position only; the buffering state is anything well formed */
static int g_stub, g_k, g_j; static unsigned char g_a; static off_t g_p0, g_al;
void vp_os_write_byte(OutStream *os, uchar b)
{
    if (!g_stub) { g_stub = 1; g_k = 0; g_p0 = osa_pos(os); g_al = osa_len(os); g_a = os->buf.pos + g_j >= 0 && g_j < 0 ? os->buf.buf[os->buf.pos + g_j] : g_v[0]; VP_ASSERT(g_o == g_p0 + g_j, "the first byte goes to the position"); }
    VP_ASSERT(osa_pos(os) == g_p0 + g_k && osa_wf(os), "the stream is well formed when a byte is written");
    if (g_k == g_j) g_a = b;
    g_k++;
    os->buf.pos = vp_range(1, BUFFER_SIZE); os->buf.start = g_p0 + g_k - os->buf.pos;
    g_wp = os->buf.start;
    __CPROVER_assume(os->buf.start >= 0);
}
#define A_BYTE(os, k) (g_stub ? g_a : osa_byte(os, k))
#define A_LEN(os) (g_stub ? (g_p0 + g_k > g_al ? g_p0 + g_k : g_al) : osa_len(os))
#else
static int g_stub, g_j;
#define A_BYTE osa_byte
#define A_LEN osa_len
#endif
HARNESS
{
    OutStream *os; TY num = (TY)vp_i64(); int n, j; off_t p0, l0, s0, bp; uchar old, now;
    VP_ASSUME(CODEC_OK(num));
    gf_any(); os = os_any();
    VP_ASSUME(osa_wf(os));
    p0 = osa_pos(os); l0 = osa_len(os); s0 = os->buf.start; bp = os->buf.pos;
    j = (int)vp_range(-2, 12);           /* an arbitrary byte in and around the encoding */
    g_o = p0 + j; g_stub = 0; g_j = j;
    VP_ASSUME(g_o >= 0);
    old = bp + j >= 0 && j < 0 ? os->buf.buf[bp + j] : g_v[0];
    n = codec_len(num);
#ifdef LLO
    VP_ASSUME(n >= LLO && n <= LHI);
#endif
    FN(os, num);
    VP_REACH("returns");
    VP_ASSERT(osa_wf(os) && osa_pos(os) == p0 + n, "the position advances by the length of the encoding");
    now = !g_stub && os->buf.start == s0 ? (bp + j >= 0 && bp + j < os->buf.pos ? os->buf.buf[bp + j] : g_v[0]) : A_BYTE(os, 0);
    VP_ASSERT(now == (j >= 0 && j < n ? codec_byte(num, n, j) : old), "the bytes are the encoding of the value and no other byte changes");
    VP_ASSERT(A_LEN(os) == (p0 + n > l0 ? p0 + n : l0), "the length is the highest byte written");
}
