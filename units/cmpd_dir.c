/*VP{
"property":"P04",
"title":"closing a compound writer and opening the compound file again gives every added file its name, offset and length",
"functions":["open_cw","cw_add_file","cw_close","open_cmpd_store","cmpd_count"],
"level":"bounded",
"bounded":{"K":3,"unwind":18,"complete":1}
}VP*/
#define VP_WATCH_W 8
#define VP_ESTRDUP
#include "env.h"
#include "nounion.h"
#include "index.h"
#include "array.c"
/* the compound file as a list of directory tokens, each at a position, and data extents */
#define MAXT 16
static long long t_pos[MAXT], t_val[MAXT]; static const char *t_str[MAXT]; static int t_kind[MAXT], t_n, r_t;
static off_t g_wp, g_rp, g_size; static int closed_os, g_open;
static off_t flen[4]; static char *fname[4]; static int nf; static off_t foff[4];
static int tok_at(off_t p) { int i; for (i = 0; i < t_n; i++) if (t_pos[i] == p) return i; return -1; }
static void put(int kind, long long v, const char *s, int width)
{
    int i = tok_at(g_wp);
    if (i < 0) { i = t_n++; VP_ASSERT(g_wp == g_size, "the file is written without gaps"); }
    else VP_ASSERT(t_kind[i] == kind, "a directory field is overwritten by one of the same kind");
    t_pos[i] = g_wp; t_val[i] = v; t_str[i] = s; t_kind[i] = kind; g_wp += width;
    if (g_wp > g_size) g_size = g_wp;
}
void frt_os_write_vint(OutStream *os, unsigned v) { put(1, v, NULL, 1); }
void frt_os_write_u64(OutStream *os, u64 v) { put(2, v, NULL, 8); }
void frt_os_write_string(OutStream *os, const char *s) { put(3, 0, s, 5); }
off_t frt_os_pos(OutStream *os) { return g_wp; }
void frt_os_seek(OutStream *os, off_t p) { g_wp = p; }
void frt_os_close(OutStream *os) { closed_os++; }
void frt_os_write_bytes(OutStream *os, const uchar *b, int len) { VP_ASSERT(g_wp == g_size, "data is appended"); g_wp += len; if (g_wp > g_size) g_size = g_wp; }
static int nextt(int kind) { int i = tok_at(g_rp); VP_ASSERT(i >= 0 && t_kind[i] == kind, "the directory is read as it was written"); g_rp += kind == 1 ? 1 : kind == 2 ? 8 : 5; return i < 0 ? 0 : i; }
unsigned frt_is_read_vint(InStream *is) { return (unsigned)t_val[nextt(1)]; }
i64 frt_is_read_i64(InStream *is) { return t_val[nextt(2)]; }
u64 frt_is_read_u64(InStream *is) { return t_val[nextt(2)]; }
char *frt_is_read_string(InStream *is) { return (char *)t_str[nextt(3)]; }
off_t frt_is_pos(InStream *is) { return g_rp; }
void frt_is_seek(InStream *is, off_t p) { g_rp = p; }
void frt_is_close(InStream *is) { }
uchar *frt_is_read_bytes(InStream *is, uchar *b, int len) { return b; }
InStream *frt_is_new() { return NULL; }
static off_t len_i(InStream *is) { return is->buf.len < 0 ? g_size : flen[is->buf.len]; }
static const struct InStreamMethods GIN = { NULL, NULL, len_i, NULL };
static InStream *op(Store *st, const char *n) { InStream *is = VP_NEW(InStream); is->m = &GIN; g_rp = 0; is->buf.len = -1; if (n[1] == 0) { is->buf.len = n[0] - 'a'; foff[n[0] - 'a'] = g_wp; } return is; }
static OutStream *no(Store *st, const char *n) { g_wp = 0; return VP_NEW(OutStream); }
/* sets and maps by their contracts (P07) */
static FrtHashSet g_hs; static const char *g_added[4]; static int g_nadded;
FrtHashSet *frt_hs_new_str(free_ft f) { g_hs.size = 0; return &g_hs; }
FrtHashKeyStatus frt_hs_add(FrtHashSet *h, void *e) { g_hs.size++; return FRT_HASH_KEY_DOES_NOT_EXIST; }
void frt_hs_destroy(FrtHashSet *h) { }
static void *e_val[4]; static const void *e_key[4]; static int e_n;
FrtHash *frt_h_new_str(free_ft a, free_ft b) { e_n = 0; return VP_NEW(FrtHash); }
FrtHashKeyStatus frt_h_set(FrtHash *h, const void *k, void *v) { VP_ASSERT(e_n < 4, "one entry per file"); e_key[e_n] = k; e_val[e_n++] = v; return FRT_HASH_KEY_DOES_NOT_EXIST; }
void *frt_h_get(FrtHash *h, const void *k) { return NULL; }
void frt_h_destroy(FrtHash *h) { }
Store *frt_store_new() { return VP_NEW(Store); }
void frt_store_destroy(Store *s) { }
#include "compound_io.c"
HARNESS
{
    Store *st = VP_NEW(Store), *cs; CompoundWriter *cw; int i; char nm[4] = "cfs", nb[3]; off_t sum = 0, hdr;
    st->open_input = op; st->new_output = no; t_n = 0; g_wp = g_size = 0; closed_os = 0; e_n = 0; g_open = 0;
    nf = (int)vp_range(1, VP_K);
    for (i = 0; i < nf; i++) flen[i] = vp_range(0, 2500);
    cw = open_cw(st, nm);
    for (i = 0; i < nf; i++) { nb[0] = 'a' + i; nb[1] = 0; cw_add_file(cw, nb); fname[i] = cw->file_entries[i].name; VP_ASSERT(fname[i][0] == 'a' + i && ary_size(cw->file_entries) == i + 1, "an added file is remembered"); }
    nb[0] = 'z';
    cw_close(cw);
    VP_ASSERT(closed_os == 1, "the compound file is closed");
    cs = open_cmpd_store(st, nm);
    VP_REACH("opened");
    VP_ASSERT(e_n == nf, "every added file is in the directory");
    for (i = 0; i < nf; i++) {
        FileEntry *fe = e_val[i];
        VP_ASSERT(strcmp(e_key[i], i == 0 ? "a" : i == 1 ? "b" : "c") == 0, "under its name");
        VP_ASSERT(fe->length == flen[i], "with its length");
        VP_ASSERT(fe->offset == foff[i], "at the offset of its data");
    }
}
