/*VP{
"property":"P04",
"title":"a block read from a file inside a compound file returns exactly that file's bytes, and reading past its end raises",
"functions":["cmpdi_read_i","cmpdi_length_i","cmpdi_seek_i","cmpd_create_input","cmpd_open_input","cmpd_length","cmpd_exists"],
"proof":{"unwind":2},
"assume":["is_seek / is_read_bytes of the enclosing stream by their contracts (P02)"]
}VP*/
#include <sys/types.h>
#include "env.h"
#include "nounion.h"
#include "index.h"
#include "array.h"
#include "internal.h"
static off_t g_sub, g_o; static uchar g_v; static InStream *g_s; static long g_rd; static void *g_entry;
/* contracts of the stream operations (P02) on the enclosing stream */
void frt_is_seek(InStream *is, off_t pos) { VP_ASSERT(is == g_s, "the enclosing stream is positioned"); g_sub = pos; }
uchar *frt_is_read_bytes(InStream *is, uchar *b, int len)
{
    VP_ASSERT(is == g_s && len >= 0, "the block comes from the enclosing stream");
#ifdef VP_NATIVE
    memset(b, 5, len);
    if (g_o >= g_sub && g_o < g_sub + len) b[g_o - g_sub] = g_v;
#else
    if (len > 0) { __CPROVER_assert(__CPROVER_w_ok(b, len), "OBL the block fits"); }   /* the block's old contents are arbitrary already */
    if (g_o >= g_sub && g_o < g_sub + len) __CPROVER_assume(b[g_o - g_sub] == g_v);
#endif
    g_rd += len; g_sub += len;
    return b;
}
off_t frt_is_pos(InStream *is) { return is->buf.start + is->buf.pos; }
InStream *frt_is_new() { InStream *is = VP_NEW(InStream); is->buf.start = is->buf.pos = is->buf.len = 0; return is; }
void *frt_h_get(FrtHash *h, const void *key) { return g_entry; }
#include "compound_io.c"
HARNESS
{
    Store *st = VP_NEW(Store); CompoundStore *cs = VP_NEW(CompoundStore); FileEntry fe; InStream *is; off_t start; uchar *b; int len = (int)vp_range(0, VP_SZ(1 << 30, 3000));
    fe.offset = vp_range(0, 1LL << 40); fe.length = vp_range(0, 1LL << 40);
#ifdef VP_NATIVE
    fe.length = vp_range(0, 4000);
#endif
    g_s = VP_NEW(InStream); cs->stream = g_s; st->dir.cmpd = cs; g_rd = 0; g_sub = -1;
    g_o = fe.offset + vp_range(-3, VP_SZ(1LL << 40, 4000)); g_v = vp_byte();
    if (vp_bool()) { g_entry = NULL; VP_ASSERT(!cmpd_exists(st, "x") && cmpd_length(st, "x") == 0, "a name that was not added does not exist"); vp_raise_ok = 1; cmpd_open_input(st, "x"); VP_ASSERT(0, "opening it raises"); }
    g_entry = &fe;
    VP_ASSERT(cmpd_exists(st, "x") && cmpd_length(st, "x") == fe.length, "a file added exists with its length");
    is = cmpd_open_input(st, "x");
    VP_ASSERT(is->m->length_i(is) == fe.length && is_pos(is) == 0, "an opened file has its length and starts at the beginning");
    is->buf.start = vp_range(0, VP_SZ(1LL << 40, 4000)); is->buf.pos = (off_t)vp_range(0, 1024); start = is_pos(is);
    b = VP_NEW_N(uchar, len + 1); b[len] = 77;
    is->m->seek_i(is, start);
    vp_raise_ok = start + len > fe.length;
    is->m->read_i(is, b, len);
    VP_REACH("read");
    VP_ASSERT(start + len <= fe.length, "reading past the end of the file raises, whatever follows it in the compound file");
    VP_ASSERT(g_rd == len && is_pos(is) == start && b[len] == 77, "exactly the block is read");
    VP_ASSERT(!(g_o >= fe.offset + start && g_o < fe.offset + start + len) || b[g_o - fe.offset - start] == g_v, "every byte is the byte of this file");
}
