/*VP{
"property":"P13","also":["P21","P22"],
"title":"adding an index copies its segments completely: stored fields, term vectors, dictionary, postings, norms and deletions, with field numbers translated when the field lists differ",
"functions":["iw_cp_fields","iw_cp_terms","iw_cp_norms","iw_cp_map_files","iw_cp_files","iw_add_segment","iw_add_segments"],
"variants":[{"name":"fields","defs":["OP=0"],"prune":{"src/index.c":["&","iw_cp_fields"]},"limit":"1 document with at most one field of 2 values and one term vector","proof":{"unwind":7}},
{"name":"terms","defs":["OP=1"],"prune":{"src/index.c":["&","iw_cp_terms"]},"limit":"at most 2 fields","proof":{"unwind":9}},
{"name":"norms","defs":["OP=2"],"prune":{"src/index.c":["&","iw_cp_norms"]},"replace":["si_norm_file_name:vp_nfn","frt_si_advance_norm_gen:vp_adv"],"limit":"2 fields","proof":{"unwind":4}},
{"name":"segment","defs":["OP=3"],"prune":{"src/index.c":["&","iw_add_segment"]},"replace":["iw_cp_fields:vp_cf","iw_cp_terms:vp_ct","iw_cp_norms:vp_cn","frt_sis_new_segment:vp_newseg","bv_write:vp_bvw","frt_fn_for_generation:vp_fn"],"nobits":["src/index.c"],"limit":"2 fields in each list","proof":{"unwind":5}}],
"proof":{"unwind":9},
"bounded":{"K":2,"unwind":9}
}VP*/
#define VP_FREE_PTR
#define VP_EXACT_MEM
#include "env.h"
#include <stdarg.h>
#ifndef VP_NATIVE
int sprintf(char *o, const char *f, ...)
{
    /* "%s.xyz" with a one-letter name */
    va_list ap; const char *s; va_start(ap, f); s = va_arg(ap, const char *);
    VP_ASSERT(f[0] == '%' && f[1] == 's' && f[2] == '.' && f[6] == 0 && s[1] == 0, "a file of the segment");
    o[0] = s[0]; o[1] = '.'; o[2] = f[3]; o[3] = f[4]; o[4] = f[5]; o[5] = 0; va_end(ap); return 5;
}
#endif
#include "index.c"
static Store SRC, CFS, DST; static SegmentReader R; static SegmentInfo SS, NS; static IndexWriter W; static int cfs, mapped, map[2], nopen, nclose;
#if OP <= 1
static off_t lenof(InStream *is); static const struct InStreamMethods IM = { NULL, NULL, lenof, NULL };
static InStream IN_[6]; static OutStream OUT_[6]; static int all;
static int kind(const char *n) { const char *x = n + 2; return x[0] == 'f' && x[1] == 'd' ? (x[2] == 't' ? 0 : x[2] == 'x' ? 1 : -1) : x[0] == 't' && x[1] == 'i' ? (x[2] == 'x' ? 2 : x[2] == 's' ? 3 : -1) : x[0] == 't' && x[1] == 'f' && x[2] == 'x' ? (OP ? 4 : -1) : x[0] == 'f' && x[1] == 'r' && x[2] == 'q' ? 5 : x[0] == 'p' && x[1] == 'r' && x[2] == 'x' ? 0 : -1; }
static OutStream *nout(Store *s, const char *n) { int k = kind(n); VP_ASSERT(s == &DST && n[0] == 'N' && k >= 0 && n[5] == 0, "a file of the new segment"); nopen++; return &OUT_[k]; }
static InStream *oin(Store *s, const char *n) { int k = kind(n); VP_ASSERT(s == (cfs ? &CFS : &SRC) && n[0] == 'S' && k >= 0 && n[5] == 0, "a file of the segment, from where it is"); nopen++; return &IN_[k]; }
static int nex(Store *s, const char *n) { return 0; }
void frt_is_close(InStream *is) { nclose++; } void frt_os_close(OutStream *os) { nclose++; }
static long ID(const InStream *is) { return is - IN_; } static long OD(const OutStream *os) { return os - OUT_; }
/* one sequence of values in the file that is translated: kinds 1 vint, 2 u32, 3 voff, 4 bytes (count) */
#define NT 14
static int ik[NT], ok[NT]; static u64 iv[NT], ov[NT]; static int nt, ri, wi; static u64 part, wpart; static off_t ipos, opos;
static void tok(int k, u64 v, u64 w) { ik[nt] = ok[nt] = k; iv[nt] = v; ov[nt] = w; nt++; }
static u64 get(InStream *is, int k) { VP_ASSERT(ID(is) == (OP ? 4 : 0) && ri < nt && part == 0 && ik[ri] == k, "the values are read as they were written"); ipos++; return iv[ri++]; }
static void put(OutStream *os, int k, u64 v) { VP_ASSERT(OD(os) == (OP ? 4 : 0) && wi < nt && wpart == 0 && ok[wi] == k && ov[wi] == v, "every value is copied, field numbers translated"); opos += 1 + vp_bool(); wi++; }
unsigned int frt_is_read_vint(InStream *is) { return (unsigned)get(is, 1); }
void frt_os_write_vint(OutStream *os, register unsigned int v) { put(os, 1, v); }
off_t frt_is_read_voff_t(InStream *is) { return (off_t)get(is, 3); }
void frt_os_write_voff_t(OutStream *os, register off_t v) { put(os, 3, (u64)v); }
#endif
#if OP == 0
static u64 sptr[2]; static u32 stv[2]; static int rx, ox; static off_t ostart[2], otv[2]; static int tvt[2];
static off_t lenof(InStream *is) { return 100 + ID(is); }
u64 frt_is_read_u64(InStream *is) { VP_ASSERT(ID(is) == 1 && rx % 2 == 0 && rx < 4, "the document index"); return sptr[rx++ / 2]; }
u32 frt_is_read_u32(InStream *is) { VP_ASSERT(ID(is) == 1 && rx % 2 == 1 && rx < 4, "the document index"); return stv[rx++ / 2]; }
off_t frt_is_pos(InStream *is) { VP_ASSERT(ID(is) == 0, "the data file"); return ipos; }
off_t frt_os_pos(OutStream *os) { VP_ASSERT(OD(os) == 0, "the data file"); return opos; }
static int startt[2];
void frt_os_write_u64(OutStream *os, u64 v) { VP_ASSERT(OD(os) == 1 && ox % 2 == 0 && ox < 4 && wi == startt[ox / 2] && v == (u64)opos, "per document: where its data starts"); ostart[ox / 2] = opos; ox++; }
void frt_os_write_u32(OutStream *os, u32 v) { VP_ASSERT(OD(os) == 1 && ox % 2 == 1 && ox < 4 && wi == tvt[ox / 2] && wpart == 0 && v == (u32)(opos - ostart[ox / 2]), "and where the list of its term vectors is"); ox++; }
void frt_is2os_copy_bytes(InStream *is, OutStream *os, int n)
{
    long k = ID(is); VP_ASSERT(OD(os) == k && n >= 0, "to the same file of the new segment");
    if (!mapped) { VP_ASSERT(n == 100 + k, "all of the file"); all |= 1 << k; return; }
    if (n == 0) return;
    VP_ASSERT(k == 0 && ri < nt && wi < nt && ik[ri] == 4 && ok[wi] == 4 && ri == wi && part + (u64)n <= iv[ri], "the data of the document");
    part += (u64)n; ipos += n; opos += n; if (part == iv[ri]) { part = 0; ri++; wi++; }
}
#elif OP == 1
static off_t lenof(InStream *is) { return 100 + ID(is); }
u32 frt_is_read_u32(InStream *is) { return (u32)get(is, 2); } void frt_os_write_u32(OutStream *os, u32 v) { put(os, 2, v); }
void frt_is2os_copy_bytes(InStream *is, OutStream *os, int n) { long k = ID(is); VP_ASSERT(OD(os) == k && n == 100 + k && !(all & 1 << k) && (k != 4 || !mapped), "all of the file, once"); all |= 1 << k; }
#elif OP == 2
static InStream NI[2]; static OutStream NO[2]; static FieldInfo FI[2], *fp[2]; static FieldInfos FS; static int gens[2], adv[2], done[2], cs;
static off_t lenof(InStream *is) { return 50 + (is - NI); } static const struct InStreamMethods IM = { NULL, NULL, lenof, NULL };
void vp_adv(SegmentInfo *si, int f) { VP_ASSERT(si == &NS && f >= 0 && f < 2, "the new segment"); adv[f]++; }
char *vp_nfn(SegmentInfo *si, char *b, int f) { VP_ASSERT(f >= 0 && f < 2, "a field"); if (si == &SS) { if (gens[f] < 0) return NULL; b[0] = 'S'; } else { VP_ASSERT(si == &NS && adv[f] == 1, "under a name of its own"); b[0] = 'N'; } b[1] = (char)('a' + f); b[2] = 0; return b; }
static OutStream *nout(Store *s, const char *n) { VP_ASSERT(s == &DST && n[0] == 'N', "of the new segment"); nopen++; return &NO[n[1] - 'a']; }
static InStream *oin(Store *s, const char *n) { int f = n[1] - 'a'; VP_ASSERT(n[0] == 'S' && s == (cfs && gens[f] == 0 ? &CFS : &SRC), "norms set after the compound file was made lie beside it"); nopen++; return &NI[f]; }
void frt_is_close(InStream *is) { nclose++; } void frt_os_close(OutStream *os) { nclose++; }
void frt_is2os_copy_bytes(InStream *is, OutStream *os, int n) { int f = is == &NI[1]; VP_ASSERT(n == 50 + f && os == &NO[mapped ? map[f] : f] && !done[f], "the norms of the field, to the field of the same name"); done[f]++; }
#else
static FieldInfo FA[2], FB[2], *pa[2], *pb[4]; static FieldInfos A, B; static Hash HA, HB; static char SY[3]; static int nf, nt_, nn, nw, needmap, want[2]; static BitVector BV; static int nadd;
SegmentInfo *vp_newseg(SegmentInfos *sis, int dc, Store *st) { VP_ASSERT(sis == W.sis && st == &DST && dc == 0, "a new segment"); return &NS; }
static void chk(IndexWriter *iw, SegmentReader *sr, const char *sg, int *m) { int i; VP_ASSERT(iw == &W && sr == &R && (sg == NULL || sg == NS.name), "this segment"); if (m == NULL) VP_ASSERT(!needmap, "field numbers that differ are translated"); else for (i = 0; i < 2; i++) if (i < A.size) VP_ASSERT(m[i] == want[i], "to the number of the field with that name"); }
static int find(int i) { int j; for (j = 0; j < 4; j++) if (j < B.size && B.fields[j]->name == FA[i].name) return j; return -1; }
static void wants(void) { int i; needmap = 0; for (i = 0; i < 2; i++) if (i < A.size) { want[i] = find(i); VP_ASSERT(want[i] >= 0, "every field of the index is known to the writer"); if (want[i] != i) needmap = 1; } }
void vp_cf(IndexWriter *iw, SegmentReader *sr, const char *s, int *m) { wants(); VP_ASSERT(s == NS.name, "under its name"); chk(iw, sr, s, m); nf++; } void vp_ct(IndexWriter *iw, SegmentReader *sr, const char *s, int *m) { wants(); VP_ASSERT(s == NS.name, "under its name"); chk(iw, sr, s, m); nt_++; }
void vp_cn(IndexWriter *iw, SegmentReader *sr, SegmentInfo *s, int *m) { wants(); VP_ASSERT(s == &NS, "of the new segment"); chk(iw, sr, NULL, m); nn++; }
char *vp_fn(char *b, const char *base, const char *ext, i64 g) { VP_ASSERT(base == NS.name && ext[0] == 'd' && ext[1] == 'e' && ext[2] == 'l' && g == NS.del_gen && g >= 0, "a deletions file of the new segment"); b[0] = 'D'; b[1] = 0; return b; }
void vp_bvw(BitVector *bv, Store *s, char *n) { VP_ASSERT(bv == &BV && s == &DST && n[0] == 'D', "the deletions"); nw++; }
void *frt_h_get(Hash *h, const void *k) { FieldInfos *f = h == &HA ? &A : &B; int j; for (j = 0; j < 4; j++) if (j < f->size && f->fields[j]->name == (Symbol)k) return f->fields[j]; return NULL; }
int frt_h_set_safe(Hash *h, const void *k, void *v) { VP_ASSERT(h == &HB && frt_h_get(h, k) == NULL, "a field the writer did not have"); nadd++; return 1; }
static int srmax(IndexReader *ir) { return 77; }
#endif
HARNESS
{
    int i; cfs = vp_bool(); mapped = vp_bool(); nopen = nclose = 0; map[0] = vp_bool(); map[1] = !map[0];
    SS.name = (char *)"S"; NS.name = (char *)"N"; R.si = &SS; SS.use_compound_file = cfs; R.cfs_store = cfs ? &CFS : NULL; R.ir.store = &SRC; W.store = &DST; vp_raise_ok = 0;
#if OP <= 2
    SRC.open_input = oin; CFS.open_input = oin; DST.new_output = nout;
#endif
#if OP <= 1
    SRC.exists = CFS.exists = nex; for (i = 0; i < 6; i++) IN_[i].m = (struct InStreamMethods *)&IM; nt = ri = wi = all = 0; part = wpart = 0; ipos = opos = 0;
#endif
#if OP == 0
    R.ir.max_doc = NULL; SS.doc_cnt = 2; R.fr = NULL; rx = ox = 0; ipos = (off_t)vp_range(0, 3);
    { FieldsReader fr; off_t p = ipos; R.fr = &fr; fr.size = 1;
    for (i = 0; i < 1; i++) {
        int fc = (int)vp_bool(), fn = (int)vp_bool(), ds = (int)vp_range(0, 2), l0 = (int)vp_range(0, 1000), l1 = (int)vp_range(0, 1000), tc = (int)vp_bool(), tf = (int)vp_bool(), ts = (int)vp_range(0, 1000), data = 0, tvb = (int)vp_range(0, 1000), k = nt;
        startt[i] = nt; tok(1, fc, fc);
        if (fc) { tok(1, fn, map[fn]); tok(1, ds, ds); if (ds > 0) { tok(1, l0, l0); data += l0 + 1; } if (ds > 1) { tok(1, l1, l1); data += l1 + 1; } }
        if (data + tvb > 0) tok(4, data + tvb, data + tvb);
        sptr[i] = (u64)p; stv[i] = (u32)(nt - k - (data + tvb > 0) + data + tvb); tvt[i] = nt;
        tok(1, tc, tc); if (tc) { tok(1, tf, map[tf]); tok(1, ts, ts); }
        p += (off_t)(nt - k - (data + tvb > 0) + data + tvb);
    }
    iw_cp_fields(&W, &R, NS.name, mapped ? map : NULL); }
    VP_ASSERT(nopen == 4 && nclose == 4, "all files are closed"); if (mapped) VP_ASSERT(ri == nt && wi == nt && ox == 2, "everything is copied"); else VP_ASSERT(all == 3, "both files are copied");
#elif OP == 1
    { int fc = (int)vp_range(0, 2); tok(2, fc, fc); { u64 a = vp_range(1, 9), b = vp_range(1, 9); tok(1, a, a); tok(1, b, b); }
    for (i = 0; i < 2; i++) if (i < fc) { u64 f = vp_bool(), a = vp_u32(), b = vp_u32(), c = vp_u32(), d = vp_u32(); tok(1, f, map[f]); tok(3, a, a); tok(3, b, b); tok(1, c, c); tok(1, d, d); }
    iw_cp_terms(&W, &R, NS.name, mapped ? map : NULL); }
    VP_ASSERT(nopen == 10 && nclose == 10, "all files are closed"); VP_ASSERT(all == (mapped ? 0x2d : 0x3d), "the other files are copied whole"); if (mapped) VP_ASSERT(ri == nt && wi == nt, "all fields of the dictionary are copied");
#elif OP == 2
    for (i = 0; i < 2; i++) { NI[i].m = (struct InStreamMethods *)&IM; FI[i].bits = vp_u32() & 0xff; fp[i] = &FI[i]; gens[i] = (int)vp_range(-1, 2); adv[i] = done[i] = 0; }
    SS.norm_gens = gens; SS.norm_gens_size = 2; FS.fields = fp; FS.size = 2; IR(&R)->fis = &FS;
    iw_cp_norms(&W, &R, &NS, mapped ? map : NULL);
    for (i = 0; i < 2; i++) { VP_ASSERT(done[i] == (fi_has_norms(&FI[i]) && gens[i] >= 0), "norms are copied exactly when there are some"); VP_ASSERT(adv[mapped ? map[i] : i] == done[i], "and recorded in the new segment"); } VP_ASSERT(nopen == nclose, "all files are closed");
#else
    { int del = vp_bool(); unsigned b0[2], w0[2]; int bs;
    for (i = 0; i < 2; i++) { FA[i].name = (Symbol)&SY[vp_range(0, 2)]; FA[i].bits = b0[i] = vp_u32() & 0xff; FA[i].number = i; pa[i] = &FA[i]; FB[i].name = (Symbol)&SY[vp_range(0, 2)]; FB[i].bits = w0[i] = vp_u32() & 0xff; FB[i].number = i; pb[i] = &FB[i]; }
    VP_ASSUME(FA[0].name != FA[1].name && FB[0].name != FB[1].name);
    A.fields = pa; A.size = (int)vp_range(0, 2); A.field_dict = &HA; B.fields = pb; B.size = bs = (int)vp_range(0, 2); B.capa = 4; B.field_dict = &HB; IR(&R)->fis = &A; IR(&R)->max_doc = srmax; W.fis = &B; R.deleted_docs = del ? &BV : NULL; NS.del_gen = -1; NS.doc_cnt = 0; nf = nt_ = nn = nw = nadd = 0;
    iw_add_segment(&W, &R);
    VP_ASSERT(nf == 1 && nt_ == 1 && nn == 1, "fields, dictionary, postings and norms are copied"); VP_ASSERT(NS.doc_cnt == 77, "with its document count");
    VP_ASSERT(nw == del && (del ? NS.del_gen >= 0 : NS.del_gen == -1), "deleted documents stay deleted");
    for (i = 0; i < 2; i++) if (i < A.size) { int j = find(i); VP_ASSERT(j >= 0 && j < B.size && B.fields[j]->number == j && (B.fields[j]->bits & b0[i]) == b0[i], "the writer's field has all properties of the added one"); VP_ASSERT(j >= bs ? B.fields[j]->bits == b0[i] : B.fields[j]->bits == (w0[j] | b0[i]), "and of its own"); }
    VP_ASSERT(B.size == bs + nadd, "only new fields are added"); for (i = 0; i < 2; i++) if (i < bs) VP_ASSERT(B.fields[i] == &FB[i] && FB[i].number == i, "the writer's fields keep their numbers"); }
#endif
    VP_REACH("done");
}
