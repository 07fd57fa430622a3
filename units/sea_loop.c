/*VP{
"property":"P16",
"title":"a search offers every document that matches the query and passes the filters to the result queue exactly once with its score, counts it, and returns the requested page of the queue in order",
"functions":["isea_search_w","sea_check_args","td_new"],
"loops":[{"file":"src/search.c","func":"isea_search_w","loop":0,"of":2,
 "text":"__CPROVER_assigns(total_hits, filter_factor, score, max_score, hit, g_cur, g_cursc, g_ins, g_insD, g_max, g_end, hq->size, scorer->doc) __CPROVER_loop_invariant(g_cur >= -1 && g_cur <= GMAX && g_ins >= 0 && g_ins <= g_cur + 1 && total_hits == g_ins && max_score == g_max && max_score >= 0.0f && g_insD == (g_match && g_pass && g_cur >= g_D) && hq->size == (g_ins < g_capa ? g_ins : g_capa) && (g_cur != g_D || g_cursc == g_score) && (!g_usepf ==> filter_factor == 1.0f) && !g_end && (g_cur >= g_D || !g_insD) && (g_insD ==> max_score >= g_fin))"},
 {"file":"src/search.c","func":"isea_search_w","loop":1,"of":2,
 "text":"__CPROVER_assigns(i, hq->size, g_popped, __CPROVER_object_whole(score_docs)) __CPROVER_loop_invariant(i >= -1 && i < num_docs && hq->size == first_doc + i + 1 && g_popped == num_docs - 1 - i && (g_wi > i && g_wi < num_docs ==> score_docs[g_wi] == (Hit *)((char *)&g_base + first_doc + g_wi + 1))) __CPROVER_decreases(i + 1)"}],
"prune":{"src/search.c":["isea_search_w"]},
"proof":{"unwind":3,"timeout":400},
"bounded":{"K":3,"unwind":7},
"assume":["queue and scorer by contract: the queue of unit hit_pq, a scorer that produces its matching documents in increasing order (P14, P15)"]
}VP*/
#define GMAX 1000000000
static int g_cur, g_D, g_match, g_pass, g_ins, g_insD, g_capa, g_usepf, g_end, g_wi, g_popped, g_usef, g_dead; static float g_score, g_cursc, g_max, g_fin, g_pf; static char g_base[1];
#define VP_FREE_PTR
#include "env.h"
#include "search.c"
static Scorer S; static IndexReader IR; static IndexSearcher IS; static BitVector BV; static PriorityQueue Q; static Sort SO;
static bool snext(Scorer *s)
{
    int d;
    VP_ASSERT(!g_end, "a scorer that has ended is not advanced again");
    if (!(g_match && g_cur < g_D) && (vp_bool() || g_cur >= VP_SZ(GMAX, 12))) { g_end = 1; return false; }
    d = (int)vp_range(g_cur + 1, VP_SZ(GMAX, g_cur + 4)); VP_ASSUME(d <= GMAX);
    if (g_cur < g_D) VP_ASSUME(g_match ? d <= g_D : d != g_D);
    g_cur = d; g_cursc = d == g_D ? g_score : (float)(int)vp_range(0, 9);
    s->doc = d; return true;
}
static float sscore(Scorer *s) { return g_cursc; }
static void sdestroy(Scorer *s) { g_dead++; }
static Scorer *wscorer(Weight *w, IndexReader *ir) { return &S; }
static float filt(int doc, float score, Searcher *s, void *arg) { VP_ASSERT(doc == g_cur && score == g_cursc, "a post filter sees the document and its score"); return doc == g_D ? g_pf : (float)(int)vp_range(0, 4) / 2; }
static int ndocs(IndexReader *ir) { return 7; }
BitVector *frt_filt_get_bv(Filter *f, IndexReader *ir) { return &BV; }
int vp_bv_get(BitVector *bv, int bit) { return bit == g_D ? g_usef == 1 : vp_bool(); }
PriorityQueue *frt_fshq_pq_new(int size, Sort *sort, IndexReader *ir) { VP_ASSERT(sort == &SO, "the sort order is used"); g_capa = size; Q.size = 0; return &Q; }
void frt_fshq_pq_insert(PriorityQueue *pq, Hit *hit)
{
    VP_ASSERT(hit->doc == g_cur, "the current document is offered");
    g_ins++; pq->size = g_ins < g_capa ? g_ins : g_capa;
    if (hit->score > g_max) g_max = hit->score;
    if (hit->doc == g_D) { g_insD++; VP_ASSERT(hit->score == g_fin, "with its score"); }
}
/* the queue gives its worst hit first; the hit of rank r is g_base + r */
Hit *frt_fshq_pq_pop(PriorityQueue *pq) { VP_ASSERT(pq->size > 0, "only hits that are there are taken"); g_popped++; return (Hit *)((char *)&g_base + pq->size--); }
Hit *frt_fshq_pq_pop_fd(PriorityQueue *pq) { return frt_fshq_pq_pop(pq); }
void frt_fshq_pq_destroy(PriorityQueue *pq) { VP_ASSERT(pq == &Q, "the queue is released"); }
void frt_pq_clear(PriorityQueue *pq) { pq->size = 0; }
HARNESS
{
    Weight W; Filter F; PostFilter P; TopDocs *td; int first, num, sz, n;
    g_cur = -1; g_ins = g_insD = g_end = g_popped = g_dead = 0; g_max = 0;
    g_match = vp_bool(); g_D = (int)vp_range(0, VP_SZ(GMAX, 7)); g_score = (float)(int)vp_range(0, 9); g_usef = (int)vp_range(0, 2); g_usepf = vp_bool(); g_pf = (float)(int)vp_range(0, 4) / 2;
    g_pass = g_usef != 2 && (!g_usepf || g_pf != 0); g_fin = g_usepf && g_pf < 1 ? g_score * g_pf : g_score;
    first = vp_bool() ? (int)vp_range(0, INT_MAX) : (int)vp_range(0, 3); num = vp_bool() ? (int)vp_range(1, INT_MAX) : (int)vp_range(1, 5); g_wi = (int)vp_range(0, VP_SZ(GMAX, 6));
#ifdef VP_NATIVE
    { static u32 bits[2]; BV.bits = bits; BV.size = BV.capa = 64; BV.extends_as_ones = 0; bits[0] = vp_u32(); if (g_usef == 1) bits[0] |= 1u << g_D; else bits[0] &= ~(1u << g_D); }
#else
    { BV.capa = (int)vp_range(1, VP_SZ((GMAX >> 5) + 1, 1)); BV.bits = VP_NEW_N(u32, BV.capa); BV.size = (int)vp_range(0, BV.capa * 32); VP_ASSUME(g_usef == 0 || (g_usef == 1) == (g_D < BV.size && ((BV.bits[g_D >> 5] >> (g_D & 31)) & 1))); BV.extends_as_ones = 0; }
#endif
    memset(&S, 0, sizeof(S)); S.next = snext; S.score = sscore; S.destroy = sdestroy;
    W.scorer = wscorer; IR.num_docs = ndocs; IS.ir = &IR; P.filter_func = filt; P.arg = NULL;
    td = isea_search_w((Searcher *)&IS, &W, first, num, g_usef ? &F : NULL, &SO, g_usepf ? &P : NULL, vp_bool());
    VP_REACH("done");
    VP_ASSERT(g_insD == (g_match && g_pass), "a document is offered once exactly when it matches and passes the filters");
    VP_ASSERT(td->total_hits == g_ins, "the total counts every match");
    VP_ASSERT(td->max_score == g_max, "the maximum score is that of the best match");
    VP_ASSERT(g_capa == (num > INT_MAX - first ? INT_MAX : num + first), "the queue keeps everything up to the end of the page");
    sz = g_ins < g_capa ? g_ins : g_capa; n = sz > first ? sz - first : 0; if (n > num) n = num;
    VP_ASSERT(td->size == n, "the page has the right size");
    if (g_wi < n) VP_ASSERT(td->hits[g_wi] == (Hit *)((char *)&g_base + first + g_wi + 1), "each place of the page holds the hit of its rank");
    VP_ASSERT(g_popped == n && g_dead == 1, "the rest of the queue and the scorer are released");
}
