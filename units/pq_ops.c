/*VP{
"property":"P08",
"title":"from any valid heap, push, insert, pop and a re-ordered top keep the heap order and the multiset; insert keeps the best elements",
"functions":["pq_push","pq_up","pq_down","pq_pop","pq_insert","pq_top","pq_clear","pq_clone"],
"variants":[{"name":"push","defs":["OP=0"]},{"name":"grow","defs":["OP=5"]},{"name":"pop","defs":["OP=1"]},{"name":"insert","defs":["OP=2"]},{"name":"down","defs":["OP=3"]},{"name":"clone","defs":["OP=4"]}],
"level":"bounded",
"bounded":{"K":10,"unwind":12,"K_thorough":18,"unwind_thorough":20}
}VP*/
#define VP_WATCH_W 8
#include "env.h"
#include "priorityqueue.h"
void frt_dummy_free(void *p) { }
#include "priorityqueue.c"
#ifdef VP_NATIVE
#define MAXN 140
#else
#define MAXN VP_K
#endif
/* elements are numbers: key * 256 + identity */
static int keys[MAXN + 2]; static int w, w_freed;
#define EL(i) ((void *)(unsigned long)(keys[i] * 256 + (i)))
static bool lt(const void *a, const void *b) { return ((unsigned long)a >> 8) < ((unsigned long)b >> 8); }
static void fr(void *p) { if (((unsigned long)p & 255) == w) w_freed++; }
static void order(PriorityQueue *pq)
{
    int i; VP_ASSERT(pq->size >= 0 && pq->size < pq->mem_capa, "the heap has room for its elements");
    for (i = 2; i <= pq->size; i++) VP_ASSERT(!lt(pq->heap[i], pq->heap[i / 2]), "no element is less than its parent, so the top is the least");
}
static int cnt(PriorityQueue *pq, void *e) { int i, n = 0; for (i = 1; i <= pq->size; i++) n += pq->heap[i] == e; return n; }
HARNESS
{
    PriorityQueue *pq = VP_NEW(PriorityQueue), *c; int n, i, e, r; void *x, *top;
    n = (int)vp_range(0, MAXN); e = n + 1;
#ifdef VP_NATIVE
    if (vp_range(0, 3)) { n = (int)vp_range(0, 9); e = n + 1; }
#endif
    pq->capa = (int)vp_range(0, MAXN + 1); pq->mem_capa = n + 1 + (int)vp_range(0, 2); pq->less_than_i = lt; pq->free_elem_i = fr;
#ifdef VP_NATIVE
    pq->heap = VP_NEW_N(void *, pq->mem_capa);
#else
    if (OP != 5) { pq->mem_capa = MAXN + 3; pq->heap = VP_NEW_N(void *, MAXN + 3); }
    else { VP_ASSUME(n == 3); n = 3; e = 4; pq->mem_capa = 4; pq->heap = VP_NEW_N(void *, 4); }   /* a push that has to grow */
#endif
    pq->size = n;
    for (i = 0; i <= n + 1; i++) { keys[i] = (int)vp_range(0, 6); } w_freed = 0;
    #ifdef VP_NATIVE
    for (i = 2; i <= n; i++) if (keys[i] < keys[i / 2]) keys[i] = keys[i / 2] + (i & 1);
#else
    for (i = 2; i <= n; i++) VP_ASSUME(keys[i] >= keys[i / 2]);
#endif
    for (i = 1; i <= n; i++) pq->heap[i] = EL(i);
    w = (int)vp_range(1, MAXN + 1);     /* any element */
    VP_ASSUME(w <= n + 1);
    VP_ASSERT(pq_top(pq) == (n ? EL(1) : NULL), "the top is the first element");
    for (i = 2; i <= n; i++) VP_ASSERT(keys[1] <= keys[i], "the top is the least element");
    if (OP == 0 || OP == 5) {
        pq_push(pq, EL(e)); order(pq);
        VP_ASSERT(pq->size == n + 1 && cnt(pq, EL(w)) == 1, "push adds the element and keeps all others");
    }
    if (OP == 1) {
        x = pq_pop(pq); order(pq);
        VP_ASSERT(x == (n ? EL(1) : NULL) && pq->size == (n ? n - 1 : 0), "pop removes and returns the least element");
        VP_ASSERT(cnt(pq, EL(w)) == (w > 1 && w <= n), "pop keeps all others");
    }
    if (OP == 2) {
        VP_ASSUME(n <= pq->capa);
        r = pq_insert(pq, EL(e)); order(pq);
        if (n < pq->capa) VP_ASSERT(r == PQ_ADDED && pq->size == n + 1 && cnt(pq, EL(w)) == 1 && !w_freed, "insert adds while there is room");
        else if (n > 0 && keys[1] < keys[e]) VP_ASSERT(r == PQ_INSERTED && pq->size == n && w_freed == (w == 1) && cnt(pq, EL(w)) == (w != 1), "a better element replaces the least one");
        else VP_ASSERT(r == PQ_DROPPED && pq->size == n && w_freed == (w == e) && cnt(pq, EL(w)) == (w != e), "an element that is no better than the least is dropped");
    }
    if (OP == 3) {
        VP_ASSUME(n > 0);
        keys[1] = (int)vp_range(0, 6); pq->heap[1] = EL(1);
        pq_down(pq); order(pq);
        VP_ASSERT(cnt(pq, EL(w)) == (w <= n), "re-ordering keeps all elements");
    }
    if (OP == 4) {
        c = pq_clone(pq);
        VP_ASSERT(c->size == n && c->capa == pq->capa && c->heap != pq->heap && cnt(c, EL(w)) == (w <= n), "a clone holds the same elements");
        order(c); pq_push(c, EL(e)); order(c); order(pq); VP_ASSERT(pq->size == n, "and is independent");
        pq_clear(pq); VP_ASSERT(pq->size == 0 && w_freed == (w <= n), "clear releases every element once");
    }
    VP_REACH("done");
}
