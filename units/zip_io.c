/*VP{
"property":"P22",
"title":"a compressed value is written completely and read back completely, whatever its length",
"functions":["os_write_zipped_bytes","is_read_zipped_bytes"],
"variants":[{"name":"write","defs":["OP=0"],"prune":{"src/index.c":["&","os_write_zipped_bytes"]}},{"name":"read","defs":["OP=1"],"prune":{"src/index.c":["&","is_read_zipped_bytes"]}}],
"limit":"at most 3 rounds of the codec (of 16348 bytes each)",
"assume":["bzip2 by its documented interface: a call makes progress while there is input and room, and reports the end once"],
"proof":{"unwind":4},
"bounded":{"K":3,"unwind":4}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "index.h"
#include "internal.h"
static int ended, rounds, inited, closed, pend, watch_; static long total, outp, w; static char *obase;
#if OP == 1 && !defined(VP_NATIVE)
/* contract of realloc: keeps the contents up to the smaller size */
static void *vp_re(void *q, size_t n) { void *r = malloc(n); VP_ASSERT((long)n >= total, "no output is cut off"); if (q) free(q); return r; }
#undef frt_erealloc
#define frt_erealloc(q, n) vp_re(q, n)
#endif
#include "index.c"
#include "bzlib.h"
#if OP == 0
static char OUT, DATA[4]; static const char *lastp;
int BZ2_bzCompressInit(bz_stream *s, int a, int b, int c) { inited++; return BZ_OK; }
int BZ2_bzCompressEnd(bz_stream *s) { closed++; return BZ_OK; }
int BZ2_bzCompress(bz_stream *s, int action)
{
    unsigned k; VP_ASSERT(inited == 1 && !closed && !ended, "the compressor is not called again after the end"); VP_ASSERT(pend == 0, "what came out before is written first"); VP_ASSERT(s->avail_out > 0, "there is room for the output"); VP_ASSERT(rounds > 0 || (s->next_in == DATA && s->avail_in == (unsigned)total), "the value goes in");
    VP_ASSERT(action == BZ_FINISH, "up to its end");
    rounds++; lastp = s->next_out; s->avail_in = 0;
    if (rounds >= 3 || vp_bool()) { k = (unsigned)vp_range(1, s->avail_out); ended = 1; } else k = s->avail_out;   /* not at the end: the room was used up */
    s->next_out[0] = (char)rounds; s->next_out += k; s->avail_out -= k; pend = (int)k; return ended ? BZ_STREAM_END : BZ_FINISH_OK;
}
void frt_os_write_bytes(OutStream *os, const uchar *b, int n) { if (n == 0) return; VP_ASSERT(os == (OutStream *)&OUT && (const char *)b == lastp && n == pend && b[0] == (uchar)rounds, "exactly what came out of the compressor is written"); outp += n; pend = 0; }
#else
static char IN, *inb; static long rd; static int zl, left, lastin;
int BZ2_bzDecompressInit(bz_stream *s, int a, int b) { VP_ASSERT(s->avail_in == 0, "starts without input"); inited++; return BZ_OK; }
int BZ2_bzDecompressEnd(bz_stream *s) { closed++; return BZ_OK; }
uchar *frt_is_read_bytes(InStream *is, uchar *b, int n)
{
    VP_ASSERT(is == (InStream *)&IN && n > 0 && rd + n <= zl, "only the bytes of this value are read"); VP_ASSERT(left == 0, "what was read before is used up");
#ifndef VP_NATIVE
    VP_ASSERT(__CPROVER_w_ok(b, (size_t)n), "into room for them");
#else
    b[n - 1] = 1;
#endif
    inb = (char *)b; rd += n; left = lastin = n; return b;
}
int BZ2_bzDecompress(bz_stream *s)
{
    unsigned k; VP_ASSERT(inited == 1 && !closed && !ended, "not called again after the end"); VP_ASSERT(s->avail_in == (unsigned)left && (left == 0 || s->next_in == inb + (lastin - left)), "the bytes read go in"); VP_ASSERT(s->avail_out > 0, "there is room for the output");
    rounds++;
    /* either the room is used up, or the input is */
    if (rounds < 3 && vp_bool()) { unsigned c = (unsigned)vp_range(0, left); k = s->avail_out; left -= (int)c; s->next_in += c; s->avail_in = (unsigned)left; }
    else { s->next_in += s->avail_in; s->avail_in = 0; left = 0; k = (unsigned)vp_range(0, s->avail_out); if (rd == zl) ended = 1; else VP_ASSUME(k < s->avail_out && rounds < 3); }
    if (k > 0) { VP_ASSERT(outp == total, "no output is lost"); 
#ifdef VP_NATIVE
        memset(s->next_out, 'q', k);
#else
        VP_ASSERT((long)__CPROVER_POINTER_OFFSET(s->next_out) == total && __CPROVER_w_ok(s->next_out, (size_t)s->avail_out), "the output goes after what came before");
#endif
        s->next_out += k; s->avail_out -= k; total += k; outp = total; }
    VP_ASSUME(rounds <= 3); return ended ? BZ_STREAM_END : BZ_OK;
}
#endif
HARNESS
{
    ended = rounds = inited = closed = pend = 0; total = outp = 0;
#if OP == 0
    int r; total = (long)vp_range(0, 0x7fffffff);
    r = os_write_zipped_bytes((OutStream *)&OUT, (uchar *)DATA, (int)total);
    VP_ASSERT(ended && pend == 0 && r == outp && closed == 1, "all that came out is written and counted");
#else
    int len = -1; char *b; rd = 0; left = lastin = 0; zl = (int)vp_range(1, 40000); w = (long)vp_range(0, 49043);
    b = is_read_zipped_bytes((InStream *)&IN, zl, &len);
    VP_ASSERT(ended && rd == zl && closed == 1, "the whole value is read"); VP_ASSERT(len == total && b[len] == 0, "its length, and a terminator");
#ifdef VP_NATIVE
    if (w < total) VP_ASSERT(b[w] == 'q', "every byte that came out");
#endif
#endif
    VP_REACH("done");
}
