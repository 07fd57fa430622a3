/*VP{
"property":"P10","also":["P12"],
"title":"the terms of several segments come out once each, in order, with their frequencies added up and the segments that have them",
"functions":["mte_next","mte_skip_to","mte_set_field","mte_new","mte_close","tew_next","tew_skip_to","tew_setup","tew_destroy","tew_lt","mr_get_field_num"],
"variants":[{"name":"next","defs":["OP=0"],"proof":{"unwind":4},"prune":{"src/index.c":["&","mte_next","tew_lt"]}},{"name":"from","defs":["OP=1"],"prune":{"src/index.c":["&","mte_new","mte_close"]},"replace":["mte_next:vp_mnext"]},{"name":"all","defs":["OP=2"],"prune":{"src/index.c":["&","mte_new","mte_close"]},"replace":["mte_next:vp_mnext"]},{"name":"skip","defs":["OP=3"],"prune":{"src/index.c":["&","mte_skip_to","tew_lt"]},"replace":["mte_next:vp_mnext"]},{"name":"field","defs":["OP=4"],"prune":{"src/index.c":["&","mte_set_field","tew_lt"]}}],
"limit":"2 segments (any state of each), terms of one byte",
"proof":{"unwind":5},
"bounded":{"K":3,"unwind":5}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#undef FRT_MAX_WORD_SIZE
#define FRT_MAX_WORD_SIZE 4
#include "index.h"
#include "internal.h"
#ifndef VP_NATIVE
#define strcmp(a, b) ((int)(unsigned char)(a)[0] - (int)(unsigned char)(b)[0])
#define memcpy(d, s, n) (VP_ASSERT((n) == 1 || (n) == 2, "a short text"), ((char *)(d))[0] = ((const char *)(s))[0], (n) == 2 ? ((char *)(d))[1] = ((const char *)(s))[1] : 0)
#endif
#include "index.c"
#undef memcpy
static TermEnum E0, E1; static IndexReader R0, R1; static TermEnumWrapper W0, W1;
static int cur[2], nxt[2], fnum[2], closed, freed, skipped, set, from, calls, inq[2]; static PriorityQueue Q; static TermEnumWrapper *H0, *H1; static char T0[2];
#define K(te) ((te) == &E1)
#define EN(k) ((k) ? &E1 : &E0)
static void show(int k, int c) { TermEnum *te = EN(k); cur[k] = c; te->curr_term[0] = (char)c; te->curr_term[1] = 0; te->curr_term_len = c ? 1 : 0; te->curr_ti.doc_freq = 10 * k + c; te->curr_ti.frq_ptr = 100 * k + c; }
static char *s_next(TermEnum *te) { int k = K(te); calls += 1 << (4 * k); show(k, nxt[k]); return nxt[k] ? te->curr_term : NULL; }
static char *s_skip(TermEnum *te, const char *t) { int k = K(te); VP_ASSERT(t == T0 && !(skipped & (1 << k)), "every segment looks for the term"); skipped |= 1 << k; show(k, nxt[k]); return nxt[k] ? te->curr_term : NULL; }
static TermEnum *s_set(TermEnum *te, int f) { int k = K(te); VP_ASSERT(!(set & (1 << k)), "once each"); set |= 1 << k; te->field_num = f; show(k, 0); return te; }
static void s_close(TermEnum *te) { VP_ASSERT(!(closed & (1 << K(te))), "closed once"); closed |= 1 << K(te); }
static TermEnum *r_terms(IndexReader *r, int f) { return s_set(EN(r == &R1), f); }
static TermEnum *r_from(IndexReader *r, int f, const char *t) { int k = r == &R1; s_set(EN(k), f); VP_ASSERT(t == T0, "from the term"); from |= 1 << k; show(k, nxt[k]); return EN(k); }
/* the queue: least first, the earlier segment first among equals (units pq_ops) */
static int least(TermEnumWrapper *a, TermEnumWrapper *b) { return tew_lt(a, b); }
PriorityQueue *frt_pq_new(int c, lt_ft lt, free_ft f) { VP_ASSERT(c >= 2 && lt == (lt_ft)&tew_lt && f == NULL, "room for all segments"); Q.size = 0; return &Q; }
void frt_pq_push(PriorityQueue *q, void *e) { VP_ASSERT(q == &Q && q->size < 2, "room"); if (q->size == 0) H0 = (TermEnumWrapper *)e; else if (least((TermEnumWrapper *)e, H0)) { H1 = H0; H0 = (TermEnumWrapper *)e; } else H1 = (TermEnumWrapper *)e; q->size++; }
void *frt_pq_pop(PriorityQueue *q) { TermEnumWrapper *r = H0; if (!q->size) return NULL; H0 = H1; q->size--; return r; }
void *frt_pq_top(PriorityQueue *q) { return q->size ? H0 : NULL; }
void frt_pq_destroy(PriorityQueue *q) { VP_ASSERT(q == &Q && !freed, "freed once"); freed = 1; }
#if OP > 0
static int nexts; static TermEnum *nte;
char *vp_mnext(TermEnum *te) { nexts++; nte = te; return T0; }
#endif
static int isin(TermEnumWrapper *w) { return (Q.size > 0 && H0 == w) + (Q.size > 1 && H1 == w); }
HARNESS
{
    MultiTermEnum *m, M; TermEnum *te; int k; TermInfo ti[2]; int ix[2], *mp[2], ma[2], mb[2], mapped = vp_bool();
    closed = freed = skipped = set = from = calls = 0; T0[0] = (char)vp_range(1, 5); T0[1] = 0; Q.size = 0;
    ma[0] = (int)vp_range(0, 3) - 1; ma[1] = (int)vp_range(0, 3) - 1; mb[0] = (int)vp_range(0, 3) - 1; mb[1] = (int)vp_range(0, 3) - 1; mp[0] = ma; mp[1] = mb;
    for (k = 0; k < 2; k++) { TermEnum *e = EN(k); IndexReader *r = k ? &R1 : &R0; show(k, (int)vp_range(1, 5)); nxt[k] = vp_bool() ? (int)vp_range(1, 5) : 0; e->next = s_next; e->skip_to = s_skip; e->set_field = s_set; e->close = s_close; r->terms = r_terms; r->terms_from = r_from; e->field_num = 0; }
#if OP == 0 || OP > 2
    m = &M; te = TE(m); te->field_num = 0; m->tew_queue = &Q; m->size = 2; m->tis = ti; m->ti_indexes = ix; m->ti_cnt = 0; m->field_num_map = mapped ? mp : NULL;
#endif
#if OP == 0
    { char *r; int q0 = vp_bool(), q1 = vp_bool(), c0 = q0 ? cur[0] : 0, c1 = q1 ? cur[1] : 0, lo = !c1 || (c0 && c0 <= c1) ? c0 : c1, n = 0, df = 0, t0, h0, h1; static TermEnumWrapper ws[2];
    m->tews = ws; ws[0].index = 0; ws[0].te = &E0; ws[0].term = q0 ? E0.curr_term : NULL; ws[1].index = 1; ws[1].te = &E1; ws[1].term = q1 ? E1.curr_term : NULL;
    for (k = 0; k < 2; k++) if (nxt[k]) VP_ASSUME(nxt[k] > cur[k]);   /* each segment's terms ascend */
    if (q0) pq_push(&Q, &ws[0]); if (q1) pq_push(&Q, &ws[1]); t0 = te->curr_term[0] = (char)vp_range(0, 5); te->curr_term[1] = 0; te->curr_term_len = t0 ? 1 : 0; h0 = cur[0]; h1 = cur[1];
    r = mte_next(te);
    if (!lo) VP_ASSERT(r == NULL && te->curr_term[0] == 0 && te->curr_term_len == 0 && calls == 0, "no term is left");
    else {
        VP_ASSERT(r == te->curr_term && te->curr_term[0] == lo && te->curr_term[1] == 0 && te->curr_term_len == 1 && te->prev_term[0] == t0, "the least term of all segments");
        for (k = 0; k < 2; k++) if ((k ? c1 : c0) == lo) { VP_ASSERT(m->ti_cnt > n && ix[n] == k && ti[n].doc_freq == 10 * k + lo && ti[n].frq_ptr == 100 * k + lo, "with the entry of each segment that has it, in order"); n++; df += 10 * k + lo; }
        VP_ASSERT(m->ti_cnt == n && te->curr_ti.doc_freq == df, "and the sum of the frequencies");
        VP_ASSERT(calls == (c0 == lo) + 16 * (c1 == lo), "exactly the segments that have it move on");
        VP_ASSERT(isin(&ws[0]) == (c0 == lo ? nxt[0] != 0 : q0) && isin(&ws[1]) == (c1 == lo ? nxt[1] != 0 : q1), "the segments with terms left stay in the queue"); }
    (void)h0; (void)h1; }
#elif OP <= 2
    { MultiReader mr; IndexReader *rp[2]; int f = vp_bool(), f0 = mapped ? ma[f] : f, f1 = mapped ? mb[f] : f; rp[0] = &R0; rp[1] = &R1; mr.sub_readers = rp; mr.r_cnt = 2; mr.field_num_map = mapped ? mp : NULL; nexts = 0; if (OP == 2) show(0, 0), show(1, 0);
    te = mte_new(&mr, f, OP == 1 ? T0 : NULL); m = MTE(te);
    VP_ASSERT(te->field_num == f && m->size == 2 && m->tew_queue == &Q && te->skip_to == &mte_skip_to && te->set_field == &mte_set_field && te->close == &mte_close, "an enumeration of the field");
    VP_ASSERT(set == 3 && E0.field_num == (f0 < 0 ? -1 : f0) && E1.field_num == (f1 < 0 ? -1 : f1), "each segment on its own number of the field");
    VP_ASSERT(m->tews[0].index == 0 && m->tews[0].te == &E0 && m->tews[1].index == 1 && m->tews[1].te == &E1, "the segments in order");
    VP_ASSERT(isin(&m->tews[0]) == (f0 >= 0 && nxt[0] != 0) && isin(&m->tews[1]) == (f1 >= 0 && nxt[1] != 0), "the segments that have a term to give are in the queue");
    for (k = 0; k < 2; k++) if (isin(&m->tews[k])) VP_ASSERT(cur[k] == nxt[k] && m->tews[k].term == EN(k)->curr_term, "each at its first term");
    VP_ASSERT(OP == 2 ? nexts == 0 && from == 0 : from == (f0 >= 0) + 2 * (f1 >= 0) && nexts == (Q.size > 0) && (nexts == 0 || nte == te), "the enumeration from a term stands on its first term already");
    te->close(te); VP_ASSERT(closed == 3 && freed, "all is closed"); }
#else
    { static TermEnumWrapper ws[2]; m->tews = ws; ws[0].index = 0; ws[0].te = &E0; ws[0].term = E0.curr_term; ws[1].index = 1; ws[1].te = &E1; ws[1].term = E1.curr_term; if (vp_bool()) pq_push(&Q, &ws[0]);
#if OP == 3
    nexts = 0; E0.field_num = (int)vp_range(0, 3) - 1; E1.field_num = (int)vp_range(0, 3) - 1;
    VP_ASSERT(mte_skip_to(te, T0) == T0 && nexts == 1 && nte == te, "the first term of all segments");
    VP_ASSERT(skipped == (E0.field_num >= 0) + 2 * (E1.field_num >= 0) && calls == 0, "every segment that has the field looks for the term");
    VP_ASSERT(isin(&ws[0]) == (E0.field_num >= 0 && nxt[0]) && isin(&ws[1]) == (E1.field_num >= 0 && nxt[1]), "the segments that found one are in the queue");
#else
    { int f = vp_bool(), f0 = mapped ? ma[f] : f, f1 = mapped ? mb[f] : f;
    VP_ASSERT(mte_set_field(te, f) == te && te->field_num == f, "the enumeration, on the field");
    VP_ASSERT(E0.field_num == (f0 < 0 ? -1 : f0) && E1.field_num == (f1 < 0 ? -1 : f1) && set == (f0 >= 0) + 2 * (f1 >= 0), "every segment on its own number of the field");
    VP_ASSERT(isin(&ws[0]) == (f0 >= 0 && nxt[0]) && isin(&ws[1]) == (f1 >= 0 && nxt[1]) && calls == (f0 >= 0) + 16 * (f1 >= 0), "the segments that have a term are in the queue, at their first"); }
#endif
    }
#endif
    VP_REACH("done");
}
