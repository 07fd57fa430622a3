/*VP{
"property":"P01",
"title":"a string is written as its length followed by its bytes",
"functions":["os_write_string","os_write_string_len"],
"replace":["frt_os_write_vint:vp_os_write_vint","frt_os_write_bytes:vp_os_write_bytes"],
"proof":{"unwind":3},
"assume":["strlen is the C library's"]
}VP*/
#include <string.h>
static int g_step, g_slen; static const void *g_str;
#ifndef VP_NATIVE
#undef strlen
#define strlen(s) ((size_t)g_slen)
#endif
#include "stream_common.h"
#ifndef VP_NATIVE
void vp_os_write_vint(OutStream *os, unsigned num) { (void)os; VP_ASSERT(g_step == 0 && (int)num == g_slen, "the length comes first"); g_step++; }
void vp_os_write_bytes(OutStream *os, const uchar *b, int len) { (void)os; VP_ASSERT(g_step == 1 && b == g_str && len == g_slen, "then exactly the bytes"); g_step++; }
#endif
#ifdef VP_NATIVE
static void check(OutStream *os, off_t p0)
{
    /* read back through the ghost file: length prefix then bytes */
    int n = 1; unsigned v = g_slen; while (v > 127) { v >>= 7; n++; }
    VP_ASSERT(osa_pos(os) == p0 + n + g_slen, "the position advances by prefix and bytes");
    if (g_o >= p0 + n && g_o < p0 + n + g_slen)
        VP_ASSERT(osa_byte(os, 0) == ((uchar *)g_str)[g_o - p0 - n], "then exactly the bytes");
}
#endif
HARNESS
{
    OutStream *os; int len = (int)vp_range(0, VP_SZ(1 << 30, 3000)), k; off_t p0; char *s = VP_NEW_N(char, len + 1);
    gf_any(); os = os_any(); VP_ASSUME(osa_wf(os));
    p0 = osa_pos(os); g_slen = len; g_str = s; g_step = 0;
#ifdef VP_NATIVE
    for (k = 0; k < len; k++) s[k] = (char)vp_range(1, 255);
    s[len] = 0; g_o = p0 + vp_range(0, len + 6);
#endif
    if (vp_bool()) os_write_string_len(os, s, len); else os_write_string(os, s);
    VP_REACH("returns");
#ifdef VP_NATIVE
    check(os, p0);
#else
    VP_ASSERT(g_step == 2, "length and bytes are both written");
#endif
}
