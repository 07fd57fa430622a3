/*VP{
"property":"P12",
"title":"operations on a document of a multi-reader reach the reader that holds it, with its own document and field number, and drop cached data that becomes stale",
"functions":["mr_get_doc","mr_get_lazy_doc","mr_term_vector","mr_term_vectors","mr_is_deleted","mr_set_norm_i","mr_delete_doc_i","mr_get_field_num"],
"prune":{"src/index.c":["mr_get_doc","mr_get_lazy_doc","mr_term_vector","mr_term_vectors","mr_is_deleted","mr_set_norm_i","mr_delete_doc_i"]},
"replace":["mr_reader_index_i:vp_index"],
"proof":{"unwind":3},
"assume":["the sub-index of a document by the contract of unit multi_index"]
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "index.c"
static MultiReader M; static IndexReader RW; static int w, doc, calls, map, fn, sub; static uchar val; static char A, B; static int cachedel, locked;
int vp_index(MultiReader *mr, int d) { VP_ASSERT(mr == &M && d == doc, "the document's own number is mapped"); return w; }
#define HERE(ir, d) VP_ASSERT((ir) == &RW && (d) == doc - M.starts[w], "the reader that holds the document is asked for its local number"); calls++
static Document *gd(IndexReader *ir, int d) { HERE(ir, d); return (Document *)&A; }
static LazyDoc *gl(IndexReader *ir, int d) { HERE(ir, d); return (LazyDoc *)&A; }
static TermVector *tv(IndexReader *ir, int d, Symbol f) { HERE(ir, d); VP_ASSERT(f == (Symbol)&B, "for the field"); return (TermVector *)&A; }
static Hash *tvs(IndexReader *ir, int d) { HERE(ir, d); return (Hash *)&A; }
static bool del, deleted; static bool isd(IndexReader *ir, int d) { HERE(ir, d); return deleted; }
static void dd(IndexReader *ir, int d) { HERE(ir, d); }
static void sn(IndexReader *ir, int d, int f, uchar v) { HERE(ir, d); VP_ASSERT(locked, "the write lock is held"); VP_ASSERT(f == sub && v == val, "with the reader's own field number and the value"); }
int frt_h_del_int(Hash *h, const unsigned long k) { VP_ASSERT(h == (Hash *)&B, "the norms cache"); if ((int)k == fn) cachedel++; return 1; }
static void awl(IndexReader *ir) { VP_ASSERT(ir == &RW, "the sub-reader takes its write lock"); locked = 1; }
HARNESS
{
    int cnt = (int)vp_range(1, VP_SZ(1 << 20, 4)), op = (int)vp_range(0, 6); IndexReader *ir = (IndexReader *)&M, **subs; int *row; int **rows;
    w = (int)vp_range(0, cnt - 1); subs = VP_NEW_N(IndexReader *, cnt); subs[w] = &RW; calls = cachedel = 0; del = 0;
    memset(&M, 0, sizeof(M)); memset(&RW, 0, sizeof(RW));
    M.r_cnt = cnt; M.sub_readers = subs; M.starts = VP_NEW_N(int, cnt + 1);
#ifdef VP_NATIVE
    { int i; for (i = 0; i <= cnt; i++) M.starts[i] = i ? M.starts[i - 1] + (int)vp_range(1, 2) : 0; for (i = 0; i < cnt; i++) if (i != w) subs[i] = NULL; }
#endif
    VP_ASSUME(M.starts[w] >= 0 && M.starts[w] < M.starts[w + 1]);
    doc = (int)vp_range(0, VP_SZ(0x7ffffffe, 10)); VP_ASSUME(doc >= M.starts[w] && doc < M.starts[w + 1]);
    RW.get_doc = gd; RW.get_lazy_doc = gl; RW.term_vector = tv; RW.term_vectors = tvs; RW.is_deleted = isd; RW.delete_doc_i = dd; RW.set_norm_i = sn; RW.acquire_write_lock = awl; locked = 0;
    map = vp_bool(); fn = (int)vp_range(0, 6); sub = map ? (int)vp_range(-1, 6) : fn; val = vp_byte(); deleted = vp_bool();
    if (map) { row = VP_NEW_N(int, 7); row[fn] = sub; rows = VP_NEW_N(int *, cnt); rows[w] = row; M.field_num_map = rows; }
    M.norms_cache = (Hash *)&B; M.num_docs_cache = (int)vp_range(-1, 100); M.has_deletions = vp_bool(); M.max_doc = M.starts[cnt];
    { int nd0 = M.num_docs_cache, hd0 = M.has_deletions;
    switch (op) {
    case 0: VP_ASSERT(mr_get_doc(ir, doc) == (Document *)&A, "its document"); break;
    case 1: VP_ASSERT(mr_get_lazy_doc(ir, doc) == (LazyDoc *)&A, "its document"); break;
    case 2: VP_ASSERT(mr_term_vector(ir, doc, (Symbol)&B) == (TermVector *)&A, "its term vector"); break;
    case 3: VP_ASSERT(mr_term_vectors(ir, doc) == (Hash *)&A, "its term vectors"); break;
    case 4: VP_ASSERT(mr_is_deleted(ir, doc) == deleted, "whether it is deleted"); break;
    case 5: mr_delete_doc_i(ir, doc); VP_ASSERT(M.num_docs_cache == -1 && M.has_deletions && ir->has_changes, "after a deletion the cached document count is dropped and the change is noted"); break;
    default: mr_set_norm_i(ir, doc, fn, val); VP_ASSERT(sub < 0 || (cachedel == 1 && ir->has_changes), "setting a norm drops the cached norms of the field"); VP_ASSERT(calls == (sub >= 0), "the norm is set unless the sub-index has no such field"); break;
    }
    VP_REACH("done");
    VP_ASSERT(op == 6 || calls == 1, "exactly one sub-index is asked");
    if (op < 5) VP_ASSERT(M.num_docs_cache == nd0 && M.has_deletions == hd0, "reading changes nothing"); }
}
