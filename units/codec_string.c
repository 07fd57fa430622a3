/*VP{
"property":"P01",
"title":"a string read back is the string written: length prefix, every byte, the terminator, and exactly its encoding is consumed",
"functions":["is_read_string","is_read_string_safe"],
"variants":[
 {"name":"read","defs":["FN=is_read_string"],"loops":[{"file":"src/store.c","func":"is_read_string","loop":0,"of":1,
 "text":"__CPROVER_assigns(i, __CPROVER_object_whole(str), is->buf.start, is->buf.pos, is->buf.len, g_rp) __CPROVER_loop_invariant(i >= 0 && i <= length && is->buf.start + is->buf.pos == g_p0 + i && is->buf.start >= 0 && is->buf.start <= (1LL << 41) && is->buf.len >= 0 && is->buf.len <= 1024 && is->buf.pos >= 0 && is->buf.pos <= is->buf.len && g_rp == is->buf.start + is->buf.len && g_p0 + i <= (g_len > g_p0 ? g_len : g_p0) && str[length] == 0 && (g_o >= g_p0 && g_o < g_p0 + i ==> (unsigned char)str[g_o - g_p0] == g_v[0])) __CPROVER_decreases(length - i)"}]},
 {"name":"safe","defs":["FN=is_read_string_safe"],"loops":[{"file":"src/store.c","func":"is_read_string_safe","loop":0,"of":1,
 "text":"__CPROVER_assigns(i, __CPROVER_object_whole(str), is->buf.start, is->buf.pos, is->buf.len, g_rp) __CPROVER_loop_invariant(i >= 0 && i <= length && is->buf.start + is->buf.pos == g_p0 + i && is->buf.start >= 0 && is->buf.start <= (1LL << 41) && is->buf.len >= 0 && is->buf.len <= 1024 && is->buf.pos >= 0 && is->buf.pos <= is->buf.len && g_rp == is->buf.start + is->buf.len && g_p0 + i <= (g_len > g_p0 ? g_len : g_p0) && str[length] == 0 && (g_o >= g_p0 && g_o < g_p0 + i ==> (unsigned char)str[g_o - g_p0] == g_v[0])) __CPROVER_decreases(length - i)"}]}],
"replace":["frt_is_read_byte:vp_is_read_byte","frt_is_read_vint:vp_is_read_vint"],
"proof":{"unwind":3},
"assume":["string length below 2^30"]
}VP*/
#include <sys/types.h>
#include <stdlib.h>
static long long g_p0;
#define VP_WATCH_W 1
#define VP_MAXWATCH 2
#include "stream_common.h"
static int g_slen;
static int isa_shape(InStream *is)
{
    return is->buf.start >= 0 && is->buf.start <= 2 * VP_OFFMAX && is->buf.len >= 0 && is->buf.len <= BUFFER_SIZE
        && is->buf.pos >= 0 && is->buf.pos <= is->buf.len && g_rp == is->buf.start + is->buf.len;
}
#ifndef VP_NATIVE
/* contract of is_read_byte (unit str_read) */
uchar vp_is_read_byte(InStream *is)
{
    off_t p = isa_pos(is), np, nl; uchar b = vp_byte();
    VP_ASSERT(isa_shape(is), "the stream is well formed when a byte is read");
    if (p >= g_len) { VP_ASSERT(vp_raise_ok, "a read inside the file never fails"); VP_ASSUME(0); }
    if (p == g_o) b = g_v[0];
    nl = vp_range(1, BUFFER_SIZE); np = vp_range(1, nl);
    is->buf.len = nl; is->buf.pos = np; is->buf.start = p + 1 - np;
    g_rp = is->buf.start + is->buf.len;
    __CPROVER_assume(is->buf.start >= 0);
    return b;
}
/* contract of is_read_vint (unit codec_read): the length prefix has been consumed */
unsigned int vp_is_read_vint(InStream *is) { (void)is; return g_slen; }
#endif
HARNESS
{
    InStream *is; char *str; int len = (int)vp_range(0, VP_SZ(1 << 30, 3000));
    gf_any(); is = is_any();
    g_slen = len;
#ifdef VP_NATIVE
    /* put a real length prefix in front */
    { uchar pre[5]; int n = 0, k; unsigned v = len; do { pre[n++] = (v & 127) | (v > 127 ? 128 : 0); v >>= 7; } while (v);
      is->buf.start = vp_range(0, 2000); is->buf.len = vp_range(n, BUFFER_SIZE); is->buf.pos = vp_range(0, is->buf.len - n);
      g_p0 = isa_pos(is) + n;
      g_o = g_p0 + vp_range(0, len + 2); g_len = is->buf.start + is->buf.len;
      if (vp_bool()) g_len = g_p0 + len + vp_range(0, 5); else g_len = g_p0 + vp_range(0, len + 3);
      if (g_len < is->buf.start + is->buf.len) is->buf.len = g_len - is->buf.start;
      if (g_o >= is->buf.start && g_o < is->buf.start + is->buf.len) is->buf.buf[g_o - is->buf.start] = g_v[0];
      for (k = 0; k < n; k++) is->buf.buf[is->buf.pos + k] = pre[k];
      g_rp = is->buf.start + is->buf.len; }
#else
    g_p0 = isa_pos(is);
#endif
    vp_watch(g_o - g_p0); vp_watch(len);
    vp_raise_ok = g_p0 + len > g_len;
    str = FN(is);
    VP_REACH("read");
    VP_ASSERT(g_p0 + len <= g_len || len == 0, "a string cut off by the end of the file raises");
    VP_ASSERT(isa_shape(is) && isa_pos(is) == g_p0 + len, "exactly the string is consumed");
    VP_ASSERT(str[len] == 0, "the string is terminated");
    VP_ASSERT(!(g_o >= g_p0 && g_o < g_p0 + len) || (uchar)str[g_o - g_p0] == g_v[0], "every byte of the string is the byte in the file");
}
