/*VP{
"property":"P18","also":["P17"],
"title":"committing the changes of a segment writes deletions and norms under new names, never over the files in use, and only queues the old ones",
"functions":["sr_commit_i","norm_rewrite","si_advance_norm_gen","sr_delete_doc_i","sr_undelete_all_i","sr_set_norm_i"],
"variants":[{"name":"commit","defs":["OP=0"],"prune":{"src/index.c":["&","sr_commit_i"]},"replace":["frt_fn_for_generation:vp_fn","si_norm_file_name:vp_nfn","deleter_queue_file:vp_queue","bv_write:vp_bvw"],"limit":"at most 2 fields","proof":{"unwind":4}},
{"name":"gen","defs":["OP=1"],"prune":{"src/index.c":["&","si_advance_norm_gen"]},"loops":[{"file":"src/index.c","func":"si_advance_norm_gen","loop":0,"of":1,"text":"__CPROVER_assigns(i, __CPROVER_object_whole(si->norm_gens)) __CPROVER_loop_invariant(i >= si->norm_gens_size && i <= field_num + 1 && (g_w < si->norm_gens_size ==> si->norm_gens[g_w] == g_e) && (g_w >= si->norm_gens_size && g_w < i ==> si->norm_gens[g_w] == -1) && (field_num < i ==> si->norm_gens[field_num] == -1))"}]},
{"name":"marks","defs":["OP=2"],"prune":{"src/index.c":["&","sr_delete_doc_i","sr_undelete_all_i","sr_set_norm_i"]},"replace":["sr_get_norms_i:vp_gn"]}],
"nobits":["src/index.c"],
"proof":{"unwind":5},
"bounded":{"K":3,"unwind":5}
}VP*/
#define VP_FREE_PTR
#define VP_MAXWATCH 1
#if OP == 0
#define VP_EXACT_MEM
#endif
#include "env.h"
#include "index.h"
#include "internal.h"
#define NF 2
static int g_w, g_e;
#include "index.c"
static SegmentReader R; static SegmentInfo SI; static FieldInfos FIS; static Deleter DL; static Store ST; static FieldsReader FR; static BitVector BV;
static Norm N0, N1, N2; static int g0[3], ndq, ndw, nq[3], nw[3], del0, open_n, open_f;
static Norm *norm_of(int f) { return f == 0 ? &N0 : f == 1 ? &N1 : &N2; }
#if OP == 0
char *vp_fn(char *b, const char *base, const char *ext, i64 gen) { VP_ASSERT(base == SI.name && ext[0] == 'd' && ext[1] == 'e' && ext[2] == 'l' && gen >= 0, "a deletions file of the segment"); b[0] = 'd'; b[1] = (char)gen; b[2] = 0; return b; }
char *vp_nfn(SegmentInfo *si, char *b, int f) { if (f >= SI.norm_gens_size || SI.norm_gens[f] < 0) return NULL; b[0] = 'n'; b[1] = (char)SI.norm_gens[f]; b[2] = (char)f; return b; }
void vp_queue(Deleter *d, const char *n) { VP_ASSERT(d == &DL, "the deleter");
    if (n[0] == 'd') { VP_ASSERT(n[1] == del0, "the old deletions file"); ndq++; } else { VP_ASSERT(n[0] == 'n' && n[1] == g0[(int)n[2]], "the old norms file"); nq[(int)n[2]]++; } }
void vp_bvw(BitVector *bv, Store *s, char *n) { VP_ASSERT(bv == &BV && s == &ST && n[0] == 'd' && n[1] == del0 + 1, "the deletions go to a file of the next generation"); ndw++; }
static OutStream *nout(Store *s, const char *n) { VP_ASSERT(open_n == 0 && n[0] == 'n' && n[1] == g0[(int)n[2]] + 1, "the norms go to a file of the next generation"); open_n = 1; open_f = n[2]; return (OutStream *)&open_n; }
void frt_os_write_bytes(OutStream *os, const uchar *b, int l) { VP_ASSERT(open_n == 1 && b == norm_of(open_f)->bytes && l == FR.size, "one norm per document"); open_n = 2; }
void frt_os_close(OutStream *os) { VP_ASSERT(open_n == 2, "complete"); open_n = 0; nw[open_f]++; }
static int has[3];
void *frt_h_get_int(Hash *h, const unsigned long f) { VP_ASSERT(f < NF, "a field"); return has[f] ? norm_of((int)f) : NULL; }
#endif
#if OP == 2
static uchar NB[4]; uchar *vp_gn(SegmentReader *sr, int f) { VP_ASSERT(f == 1, "the field"); return NB; }
static int hn, dest, fresh; void *frt_h_get_int(Hash *h, const unsigned long f) { VP_ASSERT(f == 1, "the field"); return hn ? &N1 : NULL; }
static BitVector BV2; static int setbit = -1; BitVector *frt_bv_new(void) { fresh++; return &BV2; } void frt_bv_set(BitVector *b, int d) { setbit = d; } void frt_bv_destroy(BitVector *b) { dest++; }
#endif
HARNESS
{
    IndexReader *ir = (IndexReader *)&R; int k;
    R.si = &SI; SI.name = "_1"; ir->deleter = &DL; ir->store = &ST; R.fr = &FR; FR.size = (int)vp_range(0, 100); R.deleted_docs = &BV;
#if OP == 0
    FieldInfo f0, f1, f2; FieldInfo *fp[3]; int und = vp_bool(), dirty = vp_bool(), nd = vp_bool(), n = (int)vp_range(0, NF), gl[3], d[3], ix[3]; uchar b0, b1, b2;
    VP_ASSUME(!(und && dirty)); R.undelete_all = und; R.deleted_docs_dirty = dirty; R.norms_dirty = nd; del0 = SI.del_gen = (int)vp_range(0, 50) - 1;
    ir->fis = &FIS; FIS.size = n; FIS.fields = fp; fp[0] = &f0; fp[1] = &f1; fp[2] = &f2; SI.norm_gens = (int *)malloc(NF * sizeof(int)); SI.norm_gens_size = (int)vp_range(0, NF); ST.new_output = nout;
    for (k = 0; k < NF; k++) { nq[k] = nw[k] = 0; ix[k] = vp_bool(); fp[k]->number = k; fp[k]->bits = ix[k] ? FI_IS_INDEXED_BM : FI_IS_STORED_BM; has[k] = vp_bool(); d[k] = vp_bool(); norm_of(k)->is_dirty = d[k]; norm_of(k)->field_num = k; g0[k] = SI.norm_gens[k] = k < SI.norm_gens_size ? (int)vp_range(0, 50) - 1 : -1; }
    N0.bytes = &b0; N1.bytes = &b1; N2.bytes = &b2; ndq = ndw = 0; open_n = 0;
    sr_commit_i(ir);
    if (und) VP_ASSERT(SI.del_gen == -1 && ndw == 0, "no deletions are left"); else if (dirty) VP_ASSERT(SI.del_gen == del0 + 1 && ndw == 1, "the deletions are written"); else VP_ASSERT(SI.del_gen == del0 && ndw == 0 && ndq == 0, "unchanged deletions are left alone");
    if ((und || dirty)) VP_ASSERT(ndq == (del0 >= 0), "the old deletions file is given up");
    VP_ASSERT(!R.undelete_all && !R.deleted_docs_dirty && !R.norms_dirty && open_n == 0, "nothing is left to do");
    for (k = 0; k < NF; k++) { int w = nd && k < n && ix[k] && has[k] && d[k];
        VP_ASSERT(nw[k] == w && nq[k] == (w && g0[k] >= 0), "exactly the changed norms are written, and their old files given up");
        VP_ASSERT((k < SI.norm_gens_size ? SI.norm_gens[k] : -1) == g0[k] + w, "under the generation the segment now refers to"); if (w) VP_ASSERT(!norm_of(k)->is_dirty, "and are clean"); }
#elif OP == 1
    int f = (int)vp_range(0, VP_SZ(100000000, 4)), n = (int)vp_range(0, VP_SZ(100000000, 4)), old;
    g_w = (int)vp_range(0, VP_SZ(100000000, 4)); SI.norm_gens = n ? (int *)malloc(sizeof(int) * (size_t)n) : NULL; SI.norm_gens_size = n; old = f < n ? SI.norm_gens[f] : -1; VP_ASSUME(old >= -1 && old < 1000000000);
    if (g_w < n) { g_e = SI.norm_gens[g_w]; vp_watch(g_w); } VP_ASSUME(g_w != f);
    si_advance_norm_gen(&SI, f);
    VP_ASSERT(SI.norm_gens_size == (f < n ? n : f + 1) && SI.norm_gens[f] == old + 1, "the field gets the next generation");
    if (g_w < SI.norm_gens_size) VP_ASSERT(SI.norm_gens[g_w] == (g_w < n ? g_e : -1), "the other fields keep theirs");
#else
    int had = vp_bool(), d = (int)vp_range(0, 3), k0; R.deleted_docs = had ? &BV : NULL; dest = fresh = 0; setbit = -1; ir->has_changes = 0; R.undelete_all = vp_bool(); R.deleted_docs_dirty = vp_bool(); hn = vp_bool(); N1.is_dirty = 0; R.norms_dirty = 0;
    k0 = (int)vp_range(0, 2);
    if (k0 == 0) { sr_delete_doc_i(ir, d); VP_ASSERT(R.deleted_docs == (had ? &BV : &BV2) && fresh == !had && setbit == d && R.deleted_docs_dirty && !R.undelete_all && ir->has_changes, "a deletion is marked and noted for the commit"); }
    else if (k0 == 1) { sr_undelete_all_i(ir); VP_ASSERT(R.deleted_docs == NULL && dest == had && R.undelete_all && !R.deleted_docs_dirty && ir->has_changes, "all deletions are dropped, and noted for the commit"); }
    else { NB[d] = 0; sr_set_norm_i(ir, d, 1, 7); VP_ASSERT(hn ? NB[d] == 7 && N1.is_dirty && R.norms_dirty && ir->has_changes : !ir->has_changes, "a norm is changed and noted for the commit"); }
#endif
    VP_REACH("done");
}
