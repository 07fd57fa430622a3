/*VP{
"property":"P10","also":["P13"],
"title":"a term is written as the part that differs from the last one, its frequency and where its postings are; every interval-th term has an index entry; a field records where its terms start and how many there are",
"functions":["tiw_add","tw_add","tw_write_term","tiw_start_field","tw_reset","tiw_close","tw_close","tiw_open","tw_new"],
"prune":{"src/index.c":["&","tiw_add","tiw_start_field","tiw_close","tiw_open"]},
"variants":[{"name":"i1","defs":["OP=0","IV=1"],"limit":"terms of at most 3 bytes"},{"name":"i3","defs":["OP=0","IV=3"],"limit":"terms of at most 3 bytes"},{"name":"i128","defs":["OP=0","IV=128"],"limit":"terms of at most 3 bytes"},{"name":"field","defs":["OP=1"]},{"name":"open","defs":["OP=2"]}],
"assume":["hlp_string_diff by its contract (unit dict_diff)"],
"proof":{"unwind":8},
"bounded":{"K":3,"unwind":8}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "index.c"
const char *EMPTY_STRING;
static char S, X, F; static off_t sp, xp, fp; static int nx, nw, nfree;
static struct { OutStream *o; int kind; long v; const void *p; } W[16];
static void put(OutStream *o, int kind, long v, const void *p)
{
    VP_ASSERT(nw < 16, "no more than that is written"); W[nw].o = o; W[nw].kind = kind; W[nw].v = v; W[nw].p = p; nw++;
    if (o == (OutStream *)&S) sp += 3; else if (o == (OutStream *)&X) xp += 5; else { VP_ASSERT(o == (OutStream *)&F, "to one of the three files"); fp += 2; }
}
void frt_os_write_vint(OutStream *o, register unsigned int v) { put(o, 1, (long)v, NULL); }
void frt_os_write_voff_t(OutStream *o, register off_t v) { put(o, 2, (long)v, NULL); }
void frt_os_write_u32(OutStream *o, u32 v) { put(o, 4, (long)v, NULL); }
void frt_os_write_bytes(OutStream *o, const uchar *b, int n) { put(o, 3, n, b); }
off_t frt_os_pos(OutStream *o) { return o == (OutStream *)&S ? sp : o == (OutStream *)&X ? xp : fp; }
void frt_os_seek(OutStream *o, off_t p) { put(o, 5, (long)p, NULL); }
void frt_os_close(OutStream *o) { put(o, 6, 0, NULL); }
static const char *s1_, *s2_; static int d1, d2;
int frt_hlp_string_diff(register const char *const a, register const char *const b)
{
    int n1 = (int)strlen(a), n2 = (int)strlen(b), i = 0, m = n1 < n2 ? n1 : n2;
    for (i = 0; i < 4; i++) { if (i >= m || a[i] != b[i]) break; }
    return i;
}
#define IS(k, O, K, V) (W[k].o == (OutStream *)&O && W[k].kind == K && W[k].v == (long)(V))
static int entry(int k, int xf, const char *last, const char *t, int len, TermInfo *li, TermInfo *ti, int skip)
{
    int st = frt_hlp_string_diff(last, t); OutStream *o = xf ? (OutStream *)&X : (OutStream *)&S;
#define E_(K, V) (W[k].o == o && W[k].kind == K && W[k].v == (long)(V))
    VP_ASSERT(E_(1, st), "the length of the part shared with the last term"); k++;
    VP_ASSERT(E_(1, len - st), "the length of the rest"); k++;
    VP_ASSERT(E_(3, len - st) && W[k].p == t + st, "the rest of the term"); k++;
    VP_ASSERT(E_(1, ti->doc_freq), "the document frequency"); k++;
    VP_ASSERT(E_(2, ti->frq_ptr - li->frq_ptr), "where the frequencies are, after the last"); k++;
    VP_ASSERT(E_(2, ti->prx_ptr - li->prx_ptr), "where the positions are, after the last"); k++;
    if (ti->doc_freq >= skip) { VP_ASSERT(E_(2, ti->skip_offset), "where the skip entries are"); k++; }
    return k;
}
#if OP == 2
static int no;
static OutStream *st_new(Store *s, const char *n) { int k = strcmp(n, "_a.tix") == 0 ? 0 : strcmp(n, "_a.tis") == 0 ? 1 : strcmp(n, "_a.tfx") == 0 ? 2 : 3; VP_ASSERT(k < 3 && !(no & (1 << k)), "three files, named after the segment"); no |= 1 << k; return (OutStream *)(k == 0 ? &X : k == 1 ? &S : &F); }
#endif
static char word[3][4];
static void mkword(int i) { int n = (int)vp_range(0, 3), k; for (k = 0; k < 3; k++) word[i][k] = (char)vp_byte(); for (k = 0; k < 3; k++) if (k < n) VP_ASSUME(word[i][k] != 0); word[i][n] = 0; }
HARNESS
{
    TermInfosWriter tw, *t;  TermWriter x, s; int i;
    EMPTY_STRING = ""; nw = 0; sp = (off_t)vp_range(0, 1ll << 40); xp = (off_t)vp_range(0, 1ll << 40); fp = 8;
    x.os = (OutStream *)&X; s.os = (OutStream *)&S; tw.tix_writer = &x; tw.tis_writer = &s; tw.tfx_out = (OutStream *)&F;
#if OP == 0
    { TermInfo ti, li, lx; int len, skip = (int)vp_range(1, 0x7fffffff), c, k = 0, xc = (int)vp_range(0, 1 << 20); off_t lp, sp0;
    for (i = 0; i < 3; i++) mkword(i); VP_ASSUME(strcmp(word[1], word[0]) <= 0 && strcmp(word[0], word[2]) <= 0);
    ti.doc_freq = (int)vp_range(0, 0x7fffffff); ti.frq_ptr = (off_t)vp_range(0, 1ll << 40); ti.prx_ptr = (off_t)vp_range(0, 1ll << 40); ti.skip_offset = (off_t)vp_range(0, 1ll << 40);
    li.doc_freq = (int)vp_range(0, 0x7fffffff); li.frq_ptr = (off_t)vp_range(0, ti.frq_ptr); li.prx_ptr = (off_t)vp_range(0, ti.prx_ptr); li.skip_offset = (off_t)vp_range(0, 1ll << 40);
    lx.doc_freq = 1; lx.frq_ptr = (off_t)vp_range(0, li.frq_ptr); lx.prx_ptr = (off_t)vp_range(0, li.prx_ptr); lx.skip_offset = 0;
    s.last_term = word[0]; s.last_term_info = li; x.last_term = word[1]; x.last_term_info = lx; x.counter = xc; c = (int)vp_range(0, 1 << 20); s.counter = c; tw.index_interval = IV; tw.skip_interval = skip; lp = (off_t)vp_range(0, sp); tw.last_index_ptr = lp; sp0 = sp; len = (int)strlen(word[2]);
    tiw_add(&tw, word[2], len, &ti);
    if (c % IV == 0) {
        k = entry(0, 1, word[1], word[0], (int)strlen(word[0]), &lx, &li, skip); VP_ASSERT(IS(k, X, 2, sp0 - lp), "the index entry ends with the place of the term"); k++;
        VP_ASSERT(tw.last_index_ptr == sp0 && x.counter == xc + 1 && strcmp(x.last_term, word[0]) == 0 && x.last_term_info.frq_ptr == li.frq_ptr && x.last_term_info.prx_ptr == li.prx_ptr, "the next index entry goes on from this one"); }
    else VP_ASSERT(tw.last_index_ptr == lp && x.counter == xc && x.last_term == word[1] && x.last_term_info.frq_ptr == lx.frq_ptr, "no index entry in between");
    k = entry(k, 0, word[0], word[2], len, &li, &ti, skip);
    VP_ASSERT(nw == k, "nothing else is written");
    VP_ASSERT(s.counter == c + 1 && strcmp(s.last_term, word[2]) == 0 && s.last_term_info.doc_freq == ti.doc_freq && s.last_term_info.frq_ptr == ti.frq_ptr && s.last_term_info.prx_ptr == ti.prx_ptr && s.last_term_info.skip_offset == ti.skip_offset, "the next term goes on from this one");
    VP_ASSERT(tw.index_interval == IV && tw.skip_interval == skip, "the intervals stay"); }
#elif OP == 1
    { int a = (int)vp_range(0, 1 << 20), b = (int)vp_range(0, 1 << 20), fc = (int)vp_range(0, 1000), f = (int)vp_range(0, 1 << 20); off_t x0 = xp, s0 = sp;
    x.counter = a; s.counter = b; tw.field_count = fc; mkword(0); x.last_term = s.last_term = word[0]; x.last_term_info.frq_ptr = 5; s.last_term_info.prx_ptr = 7; tw.last_index_ptr = 3;
    if (vp_bool()) {
        tiw_start_field(&tw, f);
        VP_ASSERT(nw == 5 && IS(0, F, 1, a) && IS(1, F, 1, b), "the number of index entries and of terms of the field before"); VP_ASSERT(IS(2, F, 1, f) && IS(3, F, 2, x0) && IS(4, F, 2, s0), "the field, and where its terms start");
        VP_ASSERT(x.counter == 0 && s.counter == 0 && x.last_term[0] == 0 && s.last_term[0] == 0 && tw.last_index_ptr == 0 && tw.field_count == fc + 1, "the field starts afresh");
        VP_ASSERT(x.last_term_info.frq_ptr == 0 && x.last_term_info.prx_ptr == 0 && s.last_term_info.frq_ptr == 0 && s.last_term_info.prx_ptr == 0 && s.last_term_info.doc_freq == 0 && s.last_term_info.skip_offset == 0 && x.last_term_info.doc_freq == 0, "with no term before");
        VP_REACH("start"); }
    else {
        t = (TermInfosWriter *)malloc(sizeof *t); *t = tw; t->tix_writer = (TermWriter *)malloc(sizeof x); *t->tix_writer = x; t->tis_writer = (TermWriter *)malloc(sizeof s); *t->tis_writer = s;
        tiw_close(t);
        VP_ASSERT(nw == 7 && IS(0, F, 1, a) && IS(1, F, 1, b), "the number of index entries and of terms of the last field"); VP_ASSERT(IS(2, F, 5, 0) && IS(3, F, 4, fc) && IS(4, F, 6, 0), "the number of fields goes to the start");
        VP_ASSERT((IS(5, X, 6, 0) && IS(6, S, 6, 0)) || (IS(6, X, 6, 0) && IS(5, S, 6, 0)), "all files are closed"); VP_REACH("close"); } }
#else
    { Store st; int iv = (int)vp_range(1, 1 << 20), sk = (int)vp_range(1, 1 << 20); no = 0; st.new_output = st_new;
    t = tiw_open(&st, "_a", iv, sk);
    VP_ASSERT(no == 7 && t->tix_writer->os == (OutStream *)&X && t->tis_writer->os == (OutStream *)&S && t->tfx_out == (OutStream *)&F, "three files, named after the segment");
    VP_ASSERT(nw == 1 && IS(0, F, 4, 0), "room for the number of fields");
    VP_ASSERT(t->field_count == 0 && t->index_interval == iv && t->skip_interval == sk && t->tix_writer->counter == iv && t->tis_writer->counter == sk, "the intervals are the first numbers that the first field writes"); }
#endif
    VP_REACH("done");
}
