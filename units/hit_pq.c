/*VP{
"property":"P16","also":["P08"],
"title":"the queue of hits keeps the best hits: from any valid heap, insert and pop keep the order and the hits; better is a higher score (or the sort order), ties go to the lower document",
"functions":["hit_pq_insert","hit_pq_up","hit_pq_down","hit_pq_pop","hit_lt","hit_pq_multi_insert","fshq_pq_insert","fshq_pq_up","fshq_pq_down","fshq_pq_pop","fshq_lt"],
"variants":[{"name":"score-insert","defs":["OP=0"]},{"name":"score-pop","defs":["OP=1"]},{"name":"score-multi","defs":["OP=2"]},{"name":"sort-insert","defs":["OP=0","SORTED"],"bounded":{"K":7,"unwind":12,"K_thorough":10,"unwind_thorough":14,"replace":["fshq_lt:vp_fshq_lt"]}},{"name":"sort-pop","defs":["OP=1","SORTED"],"bounded":{"K":7,"unwind":12,"K_thorough":10,"unwind_thorough":14,"replace":["fshq_lt:vp_fshq_lt"]}}],
"assume":["sort variants: the order of two hits by the contract of unit sort_lt"],
"level":"bounded",
"bounded":{"K":7,"unwind":12,"K_thorough":10,"unwind_thorough":14}
}VP*/
/* bound: heaps of at most K hits */
#define VP_WATCH_W 8
#define VP_FREE_PTR
#include "env.h"
#ifdef SORTED
#include "sort.c"
static int cmp(void *idx, Hit *a, Hit *b) { return a->score > b->score ? 5 : a->score < b->score ? -3 : 0; }
static Comparator C, *Cs[1]; static Sorter So;
#define LT(a, b) ((a)->score == (b)->score ? (a)->doc > (b)->doc : C.reverse ? (a)->score < (b)->score : (a)->score > (b)->score)
bool vp_fshq_lt(Sorter *so, Hit *a, Hit *b) { return LT(a, b); }    /* contract of fshq_lt, unit sort_lt */
#define INSERT fshq_pq_insert
#define POP fshq_pq_pop
#else
#include "search.c"
#define LT(a, b) ((a)->score == (b)->score ? (a)->doc > (b)->doc : (a)->score < (b)->score)
#define INSERT hit_pq_insert
#define POP hit_pq_pop
#endif
#undef memcpy
#define memcpy(d, s, n) (*(Hit *)(d) = *(const Hit *)(s))
static void *heap[VP_K + 4]; static Hit H[VP_K + 4];
HARNESS
{
    PriorityQueue pq; int n = (int)vp_range(0, VP_K), i, w, cnt, min; Hit nh, old, *x = NULL, *p; int grown = 0;
    memset(&pq, 0, sizeof(pq));
    pq.capa = vp_bool() ? VP_K + 2 : n; pq.mem_capa = VP_K + 4; pq.heap = heap; pq.size = n;
#ifdef SORTED
    C.compare = cmp; C.reverse = vp_bool(); C.index = NULL; Cs[0] = &C; So.c_cnt = 1; So.comparators = Cs; heap[0] = &So;
#endif
    for (i = 1; i <= VP_K + 1; i++) { H[i].doc = i * 3 + (int)vp_range(0, 2); H[i].score = (float)(int)vp_range(0, 4); if (i & 1) H[i].doc = 500 - H[i].doc; heap[i] = &H[i]; }
    #ifdef VP_NATIVE
    for (i = 2; i <= n; i++) if (LT(&H[i], &H[i / 2])) { Hit t = H[i]; int j = i; H[i].score = H[i/2].score; if (LT(&H[i], &H[i / 2])) { VP_ASSUME(0); } }
    #endif
    for (i = 2; i <= n; i++) VP_ASSUME(!LT(&H[i], &H[i / 2]));
    w = (int)vp_range(1, VP_K + 1); VP_ASSUME(w <= n + (OP != 1)); old = H[w];
    nh = H[n + 1]; min = n > 0 && LT(&H[1], &nh);
    if (OP == 0) INSERT(&pq, &nh);
    if (OP == 1) { Hit *t = n ? &H[1] : NULL; x = POP(&pq); VP_ASSERT(x == t, "pop returns the least hit"); }
#ifndef SORTED
    if (OP == 2) { p = VP_NEW(Hit); *p = nh; hit_pq_multi_insert(&pq, p); }
#endif
    grown = OP != 1 && n < pq.capa;
    VP_ASSERT(pq.size == (OP == 1 ? (n ? n - 1 : 0) : grown ? n + 1 : n), "the size is right");
    VP_ASSUME(pq.size == (OP == 1 ? (n ? n - 1 : 0) : grown ? n + 1 : n));
    for (i = 2; i <= pq.size; i++) VP_ASSERT(!LT((Hit *)heap[i], (Hit *)heap[i / 2]), "no hit is worse than its parent, so the top is the worst");
    for (cnt = 0, i = 1; i <= pq.size; i++) { p = (Hit *)heap[i]; cnt += p->doc == old.doc && p->score == old.score; }
    if (OP == 1) VP_ASSERT(cnt == (w != 1), "the other hits stay");
    else if (grown) VP_ASSERT(cnt == 1, "a hit is added while there is room");
    else if (min) VP_ASSERT(cnt == (w != 1), "a better hit takes the place of the worst one, all others stay");
    else VP_ASSERT(cnt == (w != n + 1), "a hit that is no better than the worst is not kept");
    VP_REACH("done");
}
