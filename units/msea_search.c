/*VP{
"property":"P12","also":["P16"],
"title":"a search over several indexes offers every hit of every index once with its shifted number to the result queue and returns the requested page, the total and the maximum score",
"functions":["msea_search_w","td_new","sea_check_args"],
"loops":[{"file":"src/search.c","func":"msea_search_w","loop":0,"of":3,
 "text":"__CPROVER_assigns(i, total_hits, max_score, g_ins, g_tot, g_max, g_hits, g_last, g_base0, g_seen, g_freed, hq->size, T, HW, HO) __CPROVER_loop_invariant(i >= 0 && i <= ((MultiSearcher *)self)->s_cnt && total_hits == g_tot && max_score == g_max && max_score >= 0.0f && g_hits == (i > g_w) && g_seen == (i > g_w && g_o < g_n) && g_ins >= 0 && g_ins <= i * 1000 && g_tot >= 0 && g_tot <= i * 1000 && hq->size == (g_ins < g_capa ? g_ins : g_capa) && HW.doc == (g_seen ? g_D + g_start : g_D) && HO.doc == 0) __CPROVER_decreases(((MultiSearcher *)self)->s_cnt - i)"},
 {"file":"src/search.c","func":"msea_search_w","loop":1,"of":3,
 "text":"__CPROVER_assigns(j, g_ins, g_seen, hq->size, HW, HO) __CPROVER_loop_invariant(j >= 0 && j <= td->size && td->size == g_last && g_ins == g_base0 + j && hq->size == (g_ins < g_capa ? g_ins : g_capa) && HO.doc == 0 && g_seen == (i > g_w ? g_o < g_n : (i == g_w && g_o < g_n && j > g_o)) && HW.doc == (g_seen ? g_D + g_start : g_D)) __CPROVER_decreases(td->size - j)"},
 {"file":"src/search.c","func":"msea_search_w","loop":2,"of":3,
 "text":"__CPROVER_assigns(i, hq->size, g_popped, __CPROVER_object_whole(score_docs)) __CPROVER_loop_invariant(i >= -1 && i < num_docs && hq->size == first_doc + i + 1 && g_popped == num_docs - 1 - i && (g_wi > i && g_wi < num_docs ==> score_docs[g_wi] == (Hit *)((char *)&g_base + first_doc + g_wi + 1))) __CPROVER_decreases(i + 1)"}],
"prune":{"src/search.c":["&","msea_search_w","hit_pq_pop","hit_pq_multi_insert"]},
"replace":["frt_td_destroy:vp_tdd"],
"proof":{"unwind":17,"timeout":400},
"bounded":{"K":3,"unwind":7,"replace":["frt_td_destroy:vp_tdd"]},
"nosearch":true,
"assume":["every sub-index returns at most 1000 hits in the sums of this unit; the queue by the contract of unit pq_ops"]
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "search.h"
static int g_ins, g_tot, g_hits, g_last, g_base0, g_seen, g_w, g_o, g_n, g_capa, g_D, g_start, g_wi, g_popped, g_freed; static float g_max; static char g_base[1];
static FrtTopDocs T; static FrtHit HW, HO;
FrtHit *vp_pop(FrtPriorityQueue *pq); /* pq_pop, typed as the code uses it */
#define frt_pq_pop vp_pop
#include "search.c"
static MultiSearcher M; static Searcher RW, RO; static Hit **TW, **TO; static int NW; static Sort SO; static char A, B; static PriorityQueue Q; static int g_mx;
static TopDocs *sw(Searcher *s, Weight *w, int first, int num, Filter *f, Sort *so, PostFilter *pf, bool load)
{
    VP_ASSERT(w == (Weight *)&B && f == (Filter *)&A && pf == (PostFilter *)&A && so == &SO, "each index is searched with the same query, filters and order");
    VP_ASSERT(first == 0 && num == g_mx && load, "each index returns its best hits up to the end of the page");
    T.total_hits = (int)vp_range(0, VP_SZ(1000, 3)); T.max_score = (float)(int)vp_range(0, 9);
    if (s == &RW) { g_hits++; T.size = g_n; T.hits = TW; } else { T.size = (int)vp_range(0, VP_SZ(1000, 2)); T.hits = TO; }
    VP_ASSUME(T.total_hits >= T.size); 
    if (T.size > 0 && T.max_score > g_max) g_max = T.max_score;
    g_tot += T.total_hits; g_last = T.size; g_base0 = g_ins;
    return &T;
}
void vp_tdd(TopDocs *td) { VP_ASSERT(td == &T && td->size == 0, "the hits taken over are not released"); g_freed++; }
PriorityQueue *frt_pq_new(int capa, lt_ft lt, free_ft f) { g_capa = capa; Q.size = 0; return &Q; }
PriorityQueueInsertEnum frt_pq_insert(PriorityQueue *pq, void *elem)
{
    if (elem == &HW) { VP_ASSERT(HW.doc == g_D + g_start, "a hit is offered with its number shifted into the range of its index"); g_seen++; }
    else { VP_ASSERT(elem == &HO, "hits of the indexes"); HO.doc = 0; }
    g_ins++; pq->size = g_ins < g_capa ? g_ins : g_capa; return 0;
}
Hit *vp_pop(PriorityQueue *pq) { VP_ASSERT(pq->size > 0, "only hits that are there are taken"); g_popped++; return (Hit *)((char *)&g_base + pq->size--); }
void frt_pq_clear(PriorityQueue *pq) { pq->size = 0; }
void frt_pq_destroy(PriorityQueue *pq) { }
HARNESS
{
    int cnt = (int)vp_range(1, VP_SZ(100000, 3)), first, num, sz, n; Searcher **subs; TopDocs *td;
    g_w = (int)vp_range(0, cnt - 1); g_ins = g_tot = g_hits = g_seen = g_popped = g_freed = 0; g_max = 0;
    memset(&M, 0, sizeof(M)); memset(&RW, 0, sizeof(RW)); RW.search_w = sw; RO = RW;
    subs = VP_NEW_N(Searcher *, cnt); TW = VP_NEW_N(Hit *, 1000); TO = VP_NEW_N(Hit *, 1000); M.starts = VP_NEW_N(int, cnt + 1);
#ifdef VP_PROOF
    __CPROVER_array_set(subs, &RO); __CPROVER_array_set(TW, &HO); __CPROVER_array_set(TO, &HO);
#else
    { int i; for (i = 0; i < cnt; i++) { subs[i] = &RO; M.starts[i] = (int)vp_range(0, 9); } for (i = 0; i < 3; i++) TW[i] = TO[i] = &HO; }
#endif
    subs[g_w] = &RW; g_o = (int)vp_range(0, VP_SZ(999, 2)); TW[g_o] = &HW; g_n = (int)vp_range(0, VP_SZ(1000, 2)); g_D = (int)vp_range(0, 1000000000);
    M.s_cnt = cnt; M.searchers = subs; g_start = (int)vp_range(0, 1000000000); M.starts[g_w] = g_start; HW.doc = g_D; HO.doc = 0;
    first = vp_bool() ? (int)vp_range(0, INT_MAX) : (int)vp_range(0, 3); num = vp_bool() ? (int)vp_range(1, INT_MAX) : (int)vp_range(1, 5); g_wi = (int)vp_range(0, VP_SZ(100000000, 6));
    g_mx = num > INT_MAX - first ? INT_MAX : num + first;
    td = msea_search_w((Searcher *)&M, (Weight *)&B, first, num, (Filter *)&A, &SO, (PostFilter *)&A, vp_bool());
    VP_REACH("done");
    VP_ASSERT(g_hits == 1 && g_seen == (g_o < g_n), "every hit of every index is offered exactly once");
    VP_ASSERT(g_capa == g_mx, "the queue keeps everything up to the end of the page");
    VP_ASSERT(td->total_hits == g_tot && td->max_score == g_max, "the total is the sum and the maximum score the greatest of the indexes");
    sz = g_ins < g_capa ? g_ins : g_capa; n = sz > first ? sz - first : 0; if (n > num) n = num;
    VP_ASSERT(td->size == n && g_popped == n, "the page has the right size");
    if (g_wi < n) VP_ASSERT(td->hits[g_wi] == (Hit *)((char *)&g_base + first + g_wi + 1), "each place of the page holds the hit of its rank");
}
