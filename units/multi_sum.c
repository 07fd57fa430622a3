/*VP{
"property":"P12",
"title":"counts of a multi-reader are the sums over its sub-indexes, its document ranges are consecutive, and norms of each sub-index land in its range",
"functions":["mr_num_docs","mr_doc_freq","mr_new","mr_get_norms","mr_get_norms_into","mr_get_field_num","mr_undelete_all_i","mr_max_doc"],
"variants":[{"name":"numdocs","defs":["OP=0"],"prune":{"src/index.c":["mr_num_docs"]},
  "loops":[{"file":"src/index.c","func":"mr_num_docs","loop":0,"of":1,"text":"__CPROVER_assigns(i, ((MultiReader *)ir)->num_docs_cache, g_sum, g_hits) __CPROVER_loop_invariant(i >= 0 && i <= mr_reader_cnt && mr_reader_cnt == ((MultiReader *)ir)->r_cnt && ((MultiReader *)ir)->num_docs_cache == g_sum && g_hits == (i > g_w) && g_sum >= 0 && g_sum <= i * 1000) __CPROVER_decreases(mr_reader_cnt - i)"}]},
 {"name":"docfreq","defs":["OP=1"],"prune":{"src/index.c":["mr_doc_freq"]},
  "loops":[{"file":"src/index.c","func":"mr_doc_freq","loop":0,"of":1,"text":"__CPROVER_assigns(i, total, g_sum, g_hits) __CPROVER_loop_invariant(i >= -1 && i < ((MultiReader *)ir)->r_cnt && total == g_sum && g_hits == (i < g_w && g_sub >= 0) && g_sum >= 0 && g_sum <= (((MultiReader *)ir)->r_cnt - i) * 1000) __CPROVER_decreases(i + 1)"}]},
 {"name":"new","defs":["OP=2"],"prune":{"src/index.c":["&","mr_new","mr_max_doc"]},
  "loops":[{"file":"src/index.c","func":"mr_new","loop":0,"of":1,"text":"__CPROVER_assigns(i, mr->max_doc, mr->has_deletions, g_sum, g_hits, g_at, g_max, g_anydel, __CPROVER_object_whole(mr->starts)) __CPROVER_loop_invariant(i >= 0 && i <= r_cnt && mr->max_doc == g_sum && g_sum >= 0 && g_sum <= i * 1000 && g_hits == (i > g_w) && (mr->has_deletions != 0) == (g_anydel != 0) && (i > g_w ==> mr->starts[g_w] == g_at && g_at <= g_sum) && (i > g_w + 1 ==> mr->starts[g_w + 1] == g_at + g_max) && (i == g_w + 1 ==> g_sum == g_at + g_max)) __CPROVER_decreases(r_cnt - i)"}]},
 {"name":"norms","defs":["OP=3"],"prune":{"src/index.c":["mr_get_norms","mr_get_norms_into"]},
  "loops":[{"file":"src/index.c","func":"mr_get_norms","loop":0,"of":1,"text":"__CPROVER_assigns(i, g_hits, obuf) __CPROVER_loop_invariant(i >= 0 && i <= mr_reader_cnt && g_hits == (i > g_w && g_sub >= 0) && (g_hits ==> obuf == bytes + ((MultiReader *)ir)->starts[g_w])) __CPROVER_decreases(mr_reader_cnt - i)"},
  {"file":"src/index.c","func":"mr_get_norms_into","loop":0,"of":1,"text":"__CPROVER_assigns(i, g_hits, obuf) __CPROVER_loop_invariant(i >= 0 && i <= mr_reader_cnt && g_hits == (i > g_w && g_sub >= 0) && (g_hits ==> obuf == buf + ((MultiReader *)ir)->starts[g_w])) __CPROVER_decreases(mr_reader_cnt - i)"}]},
 {"name":"undelete","defs":["OP=4"],"prune":{"src/index.c":["mr_undelete_all_i"]},
  "loops":[{"file":"src/index.c","func":"mr_undelete_all_i","loop":0,"of":1,"text":"__CPROVER_assigns(i, g_hits) __CPROVER_loop_invariant(i >= 0 && i <= mr_reader_cnt && g_hits == (i > g_w)) __CPROVER_decreases(mr_reader_cnt - i)"}]}],
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":6},
"assume":["every sub-index counts at most 1000 documents in the arithmetic of this unit"]
}VP*/
#define VP_WATCH_W 1
static unsigned char *obuf; static int g_sum, g_hits, g_w, g_at, g_max, g_sub, g_anydel;
#define VP_FREE_PTR
#define VP_EXACT_MEM
#include "env.h"
#include "index.c"
static MultiReader M; static IndexReader RW, RO; static char A, B; static int fn, cached, stored, g_cnt; static uchar *cbuf;
static int num(IndexReader *ir) { int n = (int)vp_range(0, 1000); g_sum += n; if (ir == &RW) g_hits++; return n; }
static int df(IndexReader *ir, int f, const char *t) { int n = (int)vp_range(0, 1000); VP_ASSERT(t == &A, "the term"); if (ir == &RW) { VP_ASSERT(f == g_sub, "the sub-index is asked with its own field number"); g_hits++; } g_sum += n; return n; }
static int maxd(IndexReader *ir) { int n = (int)vp_range(0, 1000); if (ir == &RW) { g_hits++; g_at = g_sum; g_max = n; } g_sum += n; return n; }
static bool hasdel(IndexReader *ir) { bool d = vp_bool(); g_anydel |= d; return d; }
static uchar *gni(IndexReader *ir, int f, uchar *b) { if (ir == &RW) { VP_ASSERT(f == g_sub, "the sub-index is asked with its own field number"); g_hits++; obuf = b; } return b; }
static void und(IndexReader *ir) { if (ir == &RW) g_hits++; }
void *frt_h_get(Hash *h, const void *k) { VP_ASSERT((long)k == fn, "the field's norms"); return cached ? cbuf : NULL; }
void *frt_h_get_int(Hash *h, const unsigned long k) { return frt_h_get(h, (void *)k); }
FrtHashKeyStatus frt_h_set_int(Hash *h, const unsigned long k, void *v) { VP_ASSERT((long)k == fn, "the field's norms"); cbuf = v; stored++; return 0; }
Hash *frt_h_new_int(free_ft f) { return (Hash *)&B; }
static void subs_init(IndexReader **s, int n)
{
#ifdef VP_PROOF
    __CPROVER_array_set(s, &RO);
#else
    int i; for (i = 0; i < n; i++) s[i] = &RO;
#endif
    s[g_w] = &RW;
}
HARNESS
{
    IndexReader *ir = (IndexReader *)&M, **subs; int r, map;
    g_cnt = (int)vp_range(1, VP_SZ(100000, 4)); g_w = (int)vp_range(0, g_cnt - 1); g_sum = g_hits = stored = g_anydel = 0;
    memset(&M, 0, sizeof(M)); memset(&RW, 0, sizeof(RW));
    RW.num_docs = num; RW.doc_freq = df; RW.max_doc = maxd; RW.has_deletions = hasdel; RW.get_norms_into = gni; RW.undelete_all_i = und; RO = RW;
    subs = VP_NEW_N(IndexReader *, g_cnt); subs_init(subs, g_cnt);
    M.r_cnt = g_cnt; M.sub_readers = subs; M.norms_cache = (Hash *)&B; M.num_docs_cache = -1; M.has_deletions = 1;
    map = vp_bool(); fn = (int)vp_range(0, 3); g_sub = map ? (int)vp_range(-1, 3) : fn;
    if (map) {
        int i, **rows = VP_NEW_N(int *, g_cnt), *row = VP_NEW_N(int, 4), *other = VP_NEW_N(int, 4);
        row[fn] = g_sub;
#ifdef VP_PROOF
        __CPROVER_array_set(rows, other);
#else
        for (i = 0; i < g_cnt; i++) rows[i] = other; for (i = 0; i < 4; i++) other[i] = (int)vp_range(-1, 3);
#endif
        rows[g_w] = row; M.field_num_map = rows;
    }
    if (OP == 0) { int c0 = vp_bool() ? 17 : -1; M.num_docs_cache = c0; r = mr_num_docs(ir); VP_ASSERT(c0 == 17 ? r == 17 && !g_hits : r == g_sum && g_hits == 1 && M.num_docs_cache == r, "the document count is the sum over all sub-indexes"); }
    if (OP == 1) { r = mr_doc_freq(ir, fn, &A); VP_ASSERT(r == g_sum && g_hits == (g_sub >= 0), "the document frequency is the sum over the sub-indexes that have the field"); }
    if (OP == 2) {
        MultiReader *m = (MultiReader *)mr_new(subs, g_cnt);
        VP_ASSERT(m->r_cnt == g_cnt && m->sub_readers == subs && m->max_doc == g_sum && ((IndexReader *)m)->max_doc((IndexReader *)m) == g_sum, "the document range is the sum of the ranges");
        VP_ASSERT(m->starts[g_w] == g_at && m->starts[g_w + 1] == g_at + g_max && m->starts[g_cnt] == g_sum && g_hits == 1, "each range starts where the one before ends");
        VP_ASSERT((m->has_deletions != 0) == (g_anydel != 0) && m->num_docs_cache == -1, "deletions are noticed");
    }
    if (OP == 3) {
        int size = (int)vp_range(1, VP_SZ(100000, 8)), o = (int)vp_range(0, size - 1), into = vp_bool(); uchar *b = VP_NEW_N(uchar, size), *res;
        M.max_doc = size; M.starts = VP_NEW_N(int, g_cnt + 1);
#ifndef VP_PROOF
        { int i; for (i = 0; i <= g_cnt; i++) M.starts[i] = i == g_w ? o : 0; }
#endif
        M.starts[g_w] = o; cached = vp_bool(); cbuf = VP_NEW_N(uchar, size); obuf = NULL;
#ifndef VP_PROOF
        { int i; for (i = 0; i < size; i++) cbuf[i] = vp_byte(); }
#else
        if (into) cached = 0;
#endif
        if (!into) {
            uchar *c0 = cbuf;
            res = mr_get_norms(ir, fn);
            VP_ASSERT(cached ? res == c0 && !g_hits : res == cbuf && stored == 1 && g_hits == (g_sub >= 0), "norms are collected once and cached");
        }
        else { res = mr_get_norms_into(ir, fn, b); VP_ASSERT(res == b && (cached || g_hits == (g_sub >= 0)), "norms are collected into the buffer"); if (cached) VP_ASSERT(b[o] == cbuf[o], "cached norms are copied"); }
        if (!cached && g_sub >= 0) VP_ASSERT(obuf == res + o, "the norms of a sub-index land at the start of its range");
    }
    if (OP == 4) { M.num_docs_cache = 5; mr_undelete_all_i(ir); VP_ASSERT(g_hits == 1 && M.num_docs_cache == -1 && !M.has_deletions && ir->has_changes, "undeleting reaches every sub-index and drops the cached count"); }
    VP_REACH("done");
}
