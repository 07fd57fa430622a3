/*VP{
"property":"P14",
"title":"clauses are sorted into required, optional and prohibited, and combined so that a document matches exactly when all required (or, without any, some optional) and no prohibited clause has it, every positive clause adding to the score",
"functions":["counting_sum_scorer_create","counting_sum_scorer_create2","counting_sum_scorer_create3","bsc_init_counting_sum_scorer","bsc_add_scorer","bw_scorer","coord_init"],
"variants":[{"name":"tree","defs":["OP=0"],"prune":{"src/q_boolean.c":["&","bsc_init_counting_sum_scorer"]},
 "loops":[{"file":"src/q_boolean.c","func":"counting_sum_scorer_create","loop":0,"of":1,"text":"__CPROVER_assigns(i, g_bal) __CPROVER_loop_invariant(i >= 0 && i <= bsc->ps_cnt && g_bal == (unsigned)i)"},
 {"file":"src/q_boolean.c","func":"coord_init","loop":0,"of":1,"text":"__CPROVER_assigns(i, __CPROVER_object_whole(self->coord_factors)) __CPROVER_loop_invariant(i >= 0 && i <= self->max_coord + 1 && (g_k < i ==> self->coord_factors[g_k] == 3.0f))"}],
 "replace":["req_opt_sum_scorer_new:vp_ro","req_excl_scorer_new:vp_rx","disjunction_sum_scorer_new:vp_dis","counting_disjunction_sum_scorer_new:vp_cdis","counting_conjunction_sum_scorer_new:vp_ccon","single_match_scorer_new:vp_one","non_matching_scorer_new:vp_none"],
 "bounded":{"K":3,"unwind":6,"replace":["req_opt_sum_scorer_new:vp_ro","req_excl_scorer_new:vp_rx","disjunction_sum_scorer_new:vp_dis","counting_disjunction_sum_scorer_new:vp_cdis","counting_conjunction_sum_scorer_new:vp_ccon","single_match_scorer_new:vp_one","non_matching_scorer_new:vp_none"]},"proof":{"unwind":8},"nosearch":true,"limit":"at most 3 prohibited clauses"},
{"name":"clauses","defs":["OP=1"],"prune":{"src/q_boolean.c":["&","bw_scorer"]},"replace":["bsc_new:vp_bsc","frt_erealloc:vp_noalloc"],"limit":"at most 3 clauses","proof":{"unwind":4},"bounded":{"K":3,"unwind":8,"replace":["bsc_new:vp_bsc","frt_erealloc:vp_noalloc"]},"nosearch":true}],
"bounded":{"K":3,"unwind":6}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "search.h"
#include "internal.h"
static unsigned g_bal; static int g_k;
#include "q_boolean.c"
typedef struct NS { Scorer s; int mem, req, opt, pro; } NS;   /* has the watched document; counts the required / optional / prohibited clauses */
static NS R0, O0, P0, XX, YY; static Coordinator CO; static BooleanScorer B; static NS pool[5]; static int np;
static int all_req, any_opt, any_pro;
static void ns_destroy(Scorer *s) { g_bal++; }
#if OP == 0
static float vp_coord(Similarity *s, int a, int b) { VP_ASSERT(a >= 0 && a <= b && b == CO.max_coord, "share of the clauses"); if (a == g_k) return 3.0f; return 1.0f; }
static NS *mk(int mem, int req, int opt, int pro) { NS *n; VP_ASSERT(np < 5, "few scorers"); n = &pool[np++]; n->mem = mem; n->req = req; n->opt = opt; n->pro = pro; return n; }
Scorer *vp_ro(Scorer *r, Scorer *o) { NS *a = (NS *)r, *b = (NS *)o; VP_ASSERT(a->pro == 0 || a->pro == 1, "ok"); return &mk(a->mem, a->req + b->req, a->opt + b->opt, a->pro)->s; }
Scorer *vp_rx(Scorer *r, Scorer *x) { NS *a = (NS *)r, *b = (NS *)x; VP_ASSERT(!b->req && !b->opt && b->pro, "only prohibited clauses are excluded"); return &mk(a->mem && !b->mem, a->req, a->opt, a->pro + 1)->s; }
static Scorer *many(Scorer **ss, int n, int min) { VP_ASSERT(n >= 2 && min == 1, "one match of several suffices");
    if (ss == B.optional_scorers) { VP_ASSERT(n == B.os_cnt, "all optional clauses"); return &mk(any_opt, 0, 1, 0)->s; }
    VP_ASSERT(ss == B.prohibited_scorers && n == B.ps_cnt, "all prohibited clauses"); return &mk(any_pro, 0, 0, 1)->s; }
Scorer *vp_dis(Scorer **ss, int n, int min) { VP_ASSERT(ss == B.prohibited_scorers, "optional clauses are counted"); return many(ss, n, min); }
Scorer *vp_cdis(Coordinator *c, Scorer **ss, int n, int min) { VP_ASSERT(c == &CO && ss == B.optional_scorers, "prohibited clauses are not counted"); return many(ss, n, min); }
Scorer *vp_ccon(Coordinator *c, Scorer **ss, int n) { VP_ASSERT(c == &CO && ss == B.required_scorers && n == B.rs_cnt && n >= 2, "all required clauses"); return &mk(all_req, 1, 0, 0)->s; }
Scorer *vp_one(Coordinator *c, Scorer *s) { NS *a = (NS *)s; VP_ASSERT(c == &CO && (a == &R0 || a == &O0), "a single clause is counted"); return &mk(a->mem, a->req, a->opt, 0)->s; }
Scorer *vp_none(void) { return &mk(0, 0, 0, 0)->s; }
#else
static int g_des; static Scorer *la[4], *lb[4], *lc[4]; static void b_destroy(Scorer *s) { VP_ASSERT(s == &B.super, "the scorer"); g_des++; }
Scorer *vp_bsc(Similarity *s) { B.required_scorers = la; B.optional_scorers = lb; B.prohibited_scorers = lc; B.rs_cnt = B.os_cnt = B.ps_cnt = 0; B.rs_capa = B.os_capa = B.ps_capa = 4; B.coordinator = &CO; CO.max_coord = 0; B.super.destroy = b_destroy; B.counting_sum_scorer = NULL; return &B.super; }
void *vp_noalloc(void *p, size_t n) { VP_ASSERT(0, "enough room"); return p; }
static Weight *W[3]; static Weight w0, w1, w2; static NS s0, s1, s2; static int have[3];
static Scorer *vp_scorer(Weight *w, IndexReader *ir) { int i; i = w == &w0 ? 0 : w == &w1 ? 1 : 2; VP_ASSERT(w == W[i], "a clause"); return !have[i] ? NULL : i == 0 ? &s0.s : i == 1 ? &s1.s : &s2.s; }
#endif
HARNESS
{
#if OP == 0
    Scorer *ra[2], *oa[2], *pa[3], *r; NS *n; Similarity sim;
    all_req = vp_bool(); any_opt = vp_bool(); any_pro = vp_bool(); np = 0; g_bal = 0;
    R0.mem = vp_bool(); R0.req = 1; R0.opt = R0.pro = 0; O0.mem = vp_bool(); O0.opt = 1; O0.req = O0.pro = 0; P0.mem = vp_bool(); P0.pro = 1; P0.req = P0.opt = 0; P0.s.destroy = ns_destroy;
    B.rs_cnt = (int)vp_range(0, VP_SZ(1000000, 3)); B.os_cnt = (int)vp_range(0, VP_SZ(1000000, 3)); B.ps_cnt = (int)vp_range(0, 3);
    B.required_scorers = ra; B.optional_scorers = oa; B.prohibited_scorers = pa; ra[0] = &R0.s; oa[0] = &O0.s; ra[1] = oa[1] = &XX.s; pa[0] = pa[1] = pa[2] = &P0.s;
    if (B.rs_cnt == 0) all_req = 1; if (B.rs_cnt == 1) all_req = R0.mem; if (B.os_cnt == 0) any_opt = 0; if (B.os_cnt == 1) any_opt = O0.mem; if (B.ps_cnt == 0) any_pro = 0; if (B.ps_cnt == 1) any_pro = P0.mem;
    B.coordinator = &CO; CO.similarity = &sim; sim.coord = vp_coord; CO.max_coord = B.rs_cnt + B.os_cnt; CO.num_matches = 0; g_k = (int)vp_range(0, VP_SZ(2000000, 6)); VP_ASSUME(g_k <= CO.max_coord);
    r = bsc_init_counting_sum_scorer(&B); n = (NS *)r;
    VP_ASSERT(r && r == B.counting_sum_scorer, "the combined scorer is kept");
    VP_ASSERT(!n->mem == !((B.rs_cnt ? all_req : any_opt) && !any_pro), "a document matches exactly when every required clause, or some optional one when none is required, and no prohibited clause has it");
    VP_ASSERT(n->req == (B.rs_cnt > 0) && n->opt == (B.os_cnt > 0), "every positive clause adds to the score once");
    VP_ASSERT(CO.coord_factors[g_k] == 3.0f && CO.num_matches == 0, "one factor per number of matching clauses");
    VP_ASSERT(g_bal == (B.rs_cnt + B.os_cnt ? 0 : (unsigned)B.ps_cnt), "prohibited clauses that are not used are released");
    VP_REACH("done");
#else
    BooleanWeight bw; BooleanQuery q; BooleanClause c0, c1, c2; BooleanClause *cp[3]; Scorer *sp[3]; int i, n = (int)vp_range(0, 3), miss = 0, nr = 0, no = 0, np_ = 0; Scorer *r; Similarity sim;
    w0.scorer = w1.scorer = w2.scorer = vp_scorer; W[0] = &w0; W[1] = &w1; W[2] = &w2;
    cp[0] = &c0; cp[1] = &c1; cp[2] = &c2; sp[0] = &s0.s; sp[1] = &s1.s; sp[2] = &s2.s;
    for (i = 0; i < 3; i++) { cp[i]->occur = (BCType)vp_range(0, 2); cp[i]->is_required = cp[i]->occur == BC_MUST; cp[i]->is_prohibited = cp[i]->occur == BC_MUST_NOT; have[i] = vp_bool(); if (i < n && !have[i] && cp[i]->occur == BC_MUST) miss = 1; }
    bw.weights = W; bw.w_cnt = n; bw.w.query = &q.super; q.clauses = cp; q.clause_cnt = n; bw.w.similarity = &sim; g_des = 0;
    r = bw_scorer(&bw.w, NULL);
    if (miss) { VP_ASSERT(r == NULL && g_des == 1, "without documents for a required clause nothing matches, and the scorer is released"); VP_REACH("miss"); return; }
    VP_ASSERT(r == &B.super && g_des == 0, "a scorer for the clauses");
    for (i = 0; i < n; i++) if (have[i]) {
        if (cp[i]->occur == BC_MUST) { VP_ASSERT(nr < B.rs_cnt && B.required_scorers[nr] == sp[i], "a required clause is required"); nr++; }
        else if (cp[i]->occur == BC_SHOULD) { VP_ASSERT(no < B.os_cnt && B.optional_scorers[no] == sp[i], "an optional clause is optional"); no++; }
        else { VP_ASSERT(np_ < B.ps_cnt && B.prohibited_scorers[np_] == sp[i], "a prohibited clause is prohibited"); np_++; } }
    VP_ASSERT(nr == B.rs_cnt && no == B.os_cnt && np_ == B.ps_cnt, "nothing else");
    VP_ASSERT(CO.max_coord == nr + no, "all positive clauses count");
    VP_REACH("done");
#endif
}
