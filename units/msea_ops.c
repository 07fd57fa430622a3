/*VP{
"property":"P12",
"title":"a multi-searcher asks the searcher that holds a document, sums frequencies, and shifts every result into the range of its sub-index",
"functions":["msea_get_doc","msea_get_lazy_doc","msea_explain_w","msea_get_term_vector","msea_doc_freq","msea_new","msea_max_doc","msea_search_each_w","msea_search_each_i","msea_search_unscored_w"],
"variants":[{"name":"dispatch","defs":["OP=0"],"prune":{"src/search.c":["msea_get_doc","msea_get_lazy_doc","msea_explain_w","msea_get_term_vector"]},"replace":["msea_get_searcher_index:vp_index"],"bounded":{"replace":["msea_get_searcher_index:vp_index"],"K":3,"unwind":6},"nosearch":true},
 {"name":"docfreq","defs":["OP=1"],"prune":{"src/search.c":["msea_doc_freq"]},
  "loops":[{"file":"src/search.c","func":"msea_doc_freq","loop":0,"of":1,"text":"__CPROVER_assigns(i, doc_freq, g_sum, g_hits) __CPROVER_loop_invariant(i >= 0 && i <= msea->s_cnt && doc_freq == g_sum && g_hits == (i > g_w) && g_sum >= 0 && g_sum <= i * 1000) __CPROVER_decreases(msea->s_cnt - i)"}]},
 {"name":"new","defs":["OP=2"],"prune":{"src/search.c":["&","msea_new","msea_max_doc"]},
  "loops":[{"file":"src/search.c","func":"msea_new","loop":0,"of":1,"text":"__CPROVER_assigns(i, max_doc, g_sum, g_hits, g_at, g_max, __CPROVER_object_whole(starts)) __CPROVER_loop_invariant(i >= 0 && i <= s_cnt && max_doc == g_sum && g_sum >= 0 && g_sum <= i * 1000 && g_hits == (i > g_w) && (i > g_w ==> starts[g_w] == g_at && g_at <= g_sum) && (i > g_w + 1 ==> starts[g_w + 1] == g_at + g_max) && (i == g_w + 1 ==> g_sum == g_at + g_max)) __CPROVER_decreases(s_cnt - i)"}]},
 {"name":"each","defs":["OP=3"],"prune":{"src/search.c":["msea_search_each_w"]},
  "loops":[{"file":"src/search.c","func":"msea_search_each_w","loop":0,"of":1,"text":"__CPROVER_assigns(i, s, mse_arg.start, g_hits, g_seen) __CPROVER_loop_invariant(i >= 0 && i <= msea->s_cnt && g_hits == (i > g_w) && g_seen == (i > g_w)) __CPROVER_decreases(msea->s_cnt - i)"}]},
 {"name":"unscored","defs":["OP=4"],"prune":{"src/search.c":["msea_search_unscored_w"]},
  "loops":[{"file":"src/search.c","func":"msea_search_unscored_w","loop":0,"of":2,"text":"__CPROVER_assigns(i, count, g_hits, g_sum, g_last, g_in, __CPROVER_object_whole(buf)) __CPROVER_loop_invariant(i >= 0 && i <= msea->s_cnt && count >= 0 && count <= limit && g_sum == count && g_hits == (i > g_w && offset_docnum < msea->starts[g_w + 1]) && (g_in == 0 || (g_in == 1 && g_hits && g_P < count && buf[g_P] == g_D + msea->starts[g_w]))) __CPROVER_decreases(msea->s_cnt - i)"},
   {"file":"src/search.c","func":"msea_search_unscored_w","loop":1,"of":2,"text":"__CPROVER_assigns(j, __CPROVER_object_whole(buf)) __CPROVER_loop_invariant(j >= 0 && j <= count && j >= count - g_last && g_last >= 0 && (g_in ==> g_P < count && ((g_P >= count - g_last) ==> i == g_w) && buf[g_P] == ((g_P >= count - g_last && g_P >= j) ? g_D : g_D + msea->starts[g_w]))) __CPROVER_decreases(count - j)"}]}],
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":6},
"assume":["every sub-index counts at most 1000 documents in the sums of this unit","the sub-index of a document by the contract of unit multi_index"]
}VP*/
static int g_sum, g_hits, g_w, g_at, g_max, g_seen, g_o, g_D, g_last, doc, g_off, g_lim, g_P, g_in;
#define VP_FREE_PTR
#include "env.h"
#include "search.c"
static MultiSearcher M; static Searcher RW, RO; static char A, B; static int g_cnt; static int *BUF;
Similarity *frt_sim_create_default() { return (Similarity *)&B; }
int vp_index(Searcher *s, int d) { VP_ASSERT(s == (Searcher *)&M && d == doc, "the document's own number is mapped"); return g_w; }
#define HERE(s, d) VP_ASSERT((s) == &RW && (d) == doc - M.starts[g_w], "the searcher that holds the document is asked for its local number"); g_hits++
static Document *gd(Searcher *ir, int d) { HERE(ir, d); return (Document *)&A; }
static LazyDoc *gl(Searcher *ir, int d) { HERE(ir, d); return (LazyDoc *)&A; }
static Explanation *ex(Searcher *s, Weight *w, int d) { HERE(s, d); VP_ASSERT(w == (Weight *)&B, "the weight"); return (Explanation *)&A; }
static TermVector *tv(Searcher *ir, const int d, Symbol f) { HERE(ir, d); VP_ASSERT(f == (Symbol)&B, "for the field"); return (TermVector *)&A; }
static int df(Searcher *s, Symbol f, const char *t) { int n = (int)vp_range(0, 1000); VP_ASSERT(t == &A && f == (Symbol)&B, "the term"); if (s == &RW) g_hits++; g_sum += n; return n; }
static int maxd(Searcher *s) { int n = (int)vp_range(0, 1000); if (s == &RW) { g_hits++; g_at = g_sum; g_max = n; } g_sum += n; return n; }
static void visit(Searcher *s, int d, float score, void *arg) { VP_ASSERT(s == &RW && arg == &A && d == g_D + M.starts[g_w] && score == 2.0f, "a match is delivered with its number shifted into the range of its index"); g_seen++; }
static void each(Searcher *s, Weight *w, Filter *f, PostFilter *pf, void (*fn)(Searcher *, int, float, void *), void *arg)
{
    VP_ASSERT(w == (Weight *)&B && f == (Filter *)&A && pf == (PostFilter *)&A, "each index is searched with the same query and filters");
    if (s == &RW) { g_hits++; fn(s, g_D, 2.0f, arg); }
}
static int uns(Searcher *s, Weight *w, int *b, int lim, int off)
{
    int n = (int)vp_range(0, VP_SZ(lim, lim < 2 ? lim : 2));
    VP_ASSERT(w == (Weight *)&B && b == BUF + g_sum && lim == g_lim - g_sum && lim > 0, "each index fills the rest of the buffer");
    if (s == &RW) {
        VP_ASSERT(off == (g_off > M.starts[g_w] ? g_off - M.starts[g_w] : 0), "from the start document on");
        g_hits++;
        if (g_P >= g_sum && g_P < g_sum + n) { g_in = 1; BUF[g_P] = g_D; }
    }
    g_last = n; g_sum += n; return n;
}
HARNESS
{
    Searcher *ir = (Searcher *)&M, **subs; int r;
    g_cnt = (int)vp_range(1, VP_SZ(100000, 4)); g_w = (int)vp_range(0, g_cnt - 1); g_sum = g_hits = g_seen = g_at = g_max = 0;
    memset(&M, 0, sizeof(M)); memset(&RW, 0, sizeof(RW));
    RW.get_doc = gd; RW.get_lazy_doc = gl; RW.explain_w = ex; RW.get_term_vector = tv; RW.doc_freq = df; RW.max_doc = maxd; RW.search_each_w = each; RW.search_unscored_w = uns; RO = RW;
    subs = VP_NEW_N(Searcher *, g_cnt);
#ifdef VP_PROOF
    __CPROVER_array_set(subs, &RO);
#else
    { int i; for (i = 0; i < g_cnt; i++) subs[i] = &RO; }
#endif
    subs[g_w] = &RW;
    M.s_cnt = g_cnt; M.searchers = subs; M.starts = VP_NEW_N(int, g_cnt + 1);
#ifndef VP_PROOF
    { int i; for (i = 0; i <= g_cnt; i++) M.starts[i] = i ? M.starts[i - 1] + (int)vp_range(0, 2) : 0; }
#endif
    VP_ASSUME(M.starts[g_w] >= 0 && M.starts[g_w] <= M.starts[g_w + 1] && M.starts[g_w + 1] <= 1000000000);
    g_D = (int)vp_range(0, VP_SZ(1000000000, 3));
    if (OP == 0) {
        int op = (int)vp_range(0, 3);
        doc = (int)vp_range(0, VP_SZ(0x7ffffffe, 10)); VP_ASSUME(doc >= M.starts[g_w] && doc < M.starts[g_w + 1]);
        if (op == 0) VP_ASSERT(msea_get_doc(ir, doc) == (Document *)&A, "its document");
        if (op == 1) VP_ASSERT(msea_get_lazy_doc(ir, doc) == (LazyDoc *)&A, "its document");
        if (op == 2) VP_ASSERT(msea_explain_w(ir, (Weight *)&B, doc) == (Explanation *)&A, "its explanation");
        if (op == 3) VP_ASSERT(msea_get_term_vector(ir, doc, (Symbol)&B) == (TermVector *)&A, "its term vector");
        VP_ASSERT(g_hits == 1, "exactly one sub-index is asked");
    }
    if (OP == 1) { r = msea_doc_freq(ir, (Symbol)&B, &A); VP_ASSERT(r == g_sum && g_hits == 1, "the document frequency is the sum over all sub-indexes"); }
    if (OP == 2) {
        MultiSearcher *m = (MultiSearcher *)msea_new(subs, g_cnt, vp_bool());
        VP_ASSERT(m->s_cnt == g_cnt && m->searchers == subs && m->max_doc == g_sum && ((Searcher *)m)->max_doc((Searcher *)m) == g_sum, "the document range is the sum of the ranges");
        VP_ASSERT(m->starts[g_w] == g_at && m->starts[g_w + 1] == g_at + g_max && m->starts[g_cnt] == g_sum && g_hits == 1, "each range starts where the one before ends");
    }
    if (OP == 3) { msea_search_each_w(ir, (Weight *)&B, (Filter *)&A, (PostFilter *)&A, visit, &A); VP_ASSERT(g_hits == 1 && g_seen == 1, "every sub-index is searched and every match delivered once"); }
    if (OP == 4) {
        int skipped;
        g_lim = (int)vp_range(1, VP_SZ(100000, 4)); g_off = (int)vp_range(0, VP_SZ(1000000000, 6)); g_P = (int)vp_range(0, g_lim - 1); g_in = 0; BUF = VP_NEW_N(int, g_lim);
        r = msea_search_unscored_w(ir, (Weight *)&B, BUF, g_lim, g_off);
        VP_ASSERT(r == g_sum && r <= g_lim, "the number of documents found");
        skipped = g_off >= M.starts[g_w + 1];
        VP_ASSERT(g_hits <= 1 && (g_hits == 1 || skipped || r == g_lim), "every sub-index from the start document on is searched until the limit is reached");
        if (g_in) VP_ASSERT(g_P < r && BUF[g_P] == g_D + M.starts[g_w], "each match is numbered in the range of its index");
    }
    VP_REACH("done");
}
