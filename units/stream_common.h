/* Ghost file behind the buffered streams of store.c.
 * The file is an unbounded byte sequence; VP_GN consecutive bytes of it, at an
 * arbitrary offset g_o, are tracked, so a fact about the tracked bytes is a
 * fact about all bytes.  flush_i/read_i/seek_i/length_i are the contracts of
 * the storage back ends (proved for ram_store.c / compound_io.c / fs_store.c by
 * their own units). */
#ifndef VP_GN
#define VP_GN 1
#endif
#include "env.h"
#define VP_OFFMAX (1LL << 40)
static off_t g_o, g_len, g_wp, g_rp;      /* tracked offset, file length, write and read pointers */
static unsigned char g_v[VP_GN];          /* tracked bytes */
static int g_closed;
#if VP_GN == 1
#define GF_EACH(k) k = 0;
#else
#define GF_EACH(k) for (k = 0; k < VP_GN; k++)
#endif
#include "store.c"
static void gf_flush(OutStream *os, const uchar *buf, int len)
{
    int k;
    (void)os;
    VP_ASSERT(len >= 0 && len <= BUFFER_SIZE, "a flush passes at most one buffer");
    GF_EACH(k)
        if (g_o + k >= g_wp && g_o + k < g_wp + len) g_v[k] = buf[g_o + k - g_wp];
    g_wp += len;
    if (len > 0 && g_wp > g_len) g_len = g_wp;
}
static void gf_oseek(OutStream *os, off_t pos) { (void)os; g_wp = pos; }
static void gf_oclose(OutStream *os) { (void)os; g_closed++; }
static const struct OutStreamMethods GF_OUT = { gf_flush, gf_oseek, gf_oclose };
static void gf_read(InStream *is, uchar *buf, int len)
{
    int k;
    (void)is;
    VP_ASSERT(len >= 0, "a read has a sane length");
    if (g_rp + len > g_len) {
        VP_ASSERT(vp_raise_ok, "a read inside the file never fails");
        VP_ASSUME(0);
    }
#ifdef VP_NATIVE
    for (k = 0; k < len; k++) buf[k] = (uchar)vp_byte();
#else
    if (len > 0) { __CPROVER_assert(__CPROVER_w_ok(buf, len), "OBL a read stays inside its buffer"); __CPROVER_havoc_slice(buf, len); }
#endif
    GF_EACH(k)
        if (g_o + k >= g_rp && g_o + k < g_rp + len) {
#ifdef VP_NATIVE
            buf[g_o + k - g_rp] = g_v[k];
#else
            __CPROVER_assume(buf[g_o + k - g_rp] == g_v[k]);
#endif
        }
    g_rp += len;
}
static void gf_iseek(InStream *is, off_t pos) { (void)is; g_rp = pos; }
static off_t gf_length(InStream *is) { (void)is; return g_len; }
static void gf_iclose(InStream *is) { (void)is; g_closed++; }
static const struct InStreamMethods GF_IN = { gf_read, gf_iseek, gf_length, gf_iclose };

/* ---- abstraction of an output stream ---- */
static off_t osa_pos(OutStream *os) { return os->buf.start + os->buf.pos; }
static off_t osa_len(OutStream *os) { return os->buf.pos > 0 && osa_pos(os) > g_len ? osa_pos(os) : g_len; }
static uchar osa_byte(OutStream *os, int k)
{
    off_t o = g_o + k;
    return o >= os->buf.start && o < osa_pos(os) ? os->buf.buf[o - os->buf.start] : g_v[k];
}
static int osa_wf(OutStream *os)
{
    return os->buf.start >= 0 && os->buf.start <= 2 * VP_OFFMAX && os->buf.pos >= 0 && os->buf.pos <= BUFFER_SIZE
        && g_wp == os->buf.start && g_len >= 0 && g_len <= 2 * VP_OFFMAX;
}
static void gf_any(void)
{
    int k;
    g_o = vp_range(0, VP_SZ(VP_OFFMAX, 3000)); g_len = vp_range(0, VP_SZ(VP_OFFMAX, 5000)); g_closed = 0;
    for (k = 0; k < VP_GN; k++) g_v[k] = vp_byte();
    g_wp = g_rp = 0;
}
static OutStream *os_any(void)
{
    OutStream *os = VP_NEW(OutStream);
    os->buf.start = vp_range(0, VP_SZ(VP_OFFMAX, 3000)); os->buf.pos = vp_range(0, BUFFER_SIZE); os->buf.len = 0;
    VP_FILL(os->buf.buf, BUFFER_SIZE);
    os->m = &GF_OUT;
    g_wp = os->buf.start;
    return os;
}
/* ---- abstraction of an input stream: buffered bytes agree with the file ---- */
static off_t isa_pos(InStream *is) { return is->buf.start + is->buf.pos; }
static int isa_wf(InStream *is)
{
    int k, ok;
    ok = is->buf.start >= 0 && is->buf.start <= 2 * VP_OFFMAX && is->buf.len >= 0 && is->buf.len <= BUFFER_SIZE
        && is->buf.pos >= 0 && is->buf.pos <= is->buf.len
        && g_rp == is->buf.start + is->buf.len
        && (is->buf.len == 0 || is->buf.start + is->buf.len <= g_len);
    if (ok) { GF_EACH(k) {
        off_t o = g_o + k;
        if (o >= is->buf.start && o < is->buf.start + is->buf.len && is->buf.buf[o - is->buf.start] != g_v[k]) ok = 0;
    } }
    return ok;
}
static InStream *is_any(void)
{
    InStream *is = VP_NEW(InStream);
    int k;
    is->ref_cnt_ptr = VP_NEW(int); *is->ref_cnt_ptr = (int)vp_range(0, 1000);
    is->buf.start = vp_range(0, VP_SZ(VP_OFFMAX, 5000)); is->buf.len = vp_range(0, BUFFER_SIZE); is->buf.pos = vp_range(0, is->buf.len);
    VP_FILL(is->buf.buf, BUFFER_SIZE);
    is->m = &GF_IN;
    g_rp = is->buf.start + is->buf.len;
#ifdef VP_NATIVE
    if (is->buf.len > 0 && is->buf.start + is->buf.len > g_len) g_len = is->buf.start + is->buf.len + vp_range(0, 3);
    for (k = 0; k < VP_GN; k++) { off_t o = g_o + k; if (o >= is->buf.start && o < is->buf.start + is->buf.len) is->buf.buf[o - is->buf.start] = g_v[k]; }
#endif
    VP_ASSUME(isa_wf(is));
    return is;
}
