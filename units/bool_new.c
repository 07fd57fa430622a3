/*VP{
"property":"P14",
"title":"each scorer of a boolean query starts before its first document with the clauses it was given and its own operations; a clause is stored whatever the number of clauses before it",
"functions":["disjunction_sum_scorer_new","counting_disjunction_sum_scorer_new","conjunction_scorer_new","counting_conjunction_sum_scorer_new","single_match_scorer_new","req_opt_sum_scorer_new","req_excl_scorer_new","non_matching_scorer_new","bsc_new","coord_new","bsc_add_scorer"],
"variants":[{"name":"new","defs":["OP=0"],"proof":{"unwind":4},"bounded":{"K":3,"unwind":4},"replace":["frt_scorer_create:vp_create"]},
{"name":"add","defs":["OP=1"],"prune":{"src/q_boolean.c":["&","bsc_add_scorer"]}}],
"proof":{"unwind":6},"nosearch":true,
"bounded":{"K":3,"unwind":6}
}VP*/
#define VP_FREE_PTR
#define VP_WATCH_W 8
#define VP_MAXWATCH 1
#include "env.h"
#include "search.h"
#include "internal.h"
#include "q_boolean.c"
static Similarity SIM; Similarity *frt_sim_create_default(void) { return &SIM; }
static void ns_destroy(Scorer *s) { (void)s; }
Scorer *vp_create(size_t size, Similarity *sim) { Scorer *s = (Scorer *)ecalloc(size); s->destroy = ns_destroy; s->similarity = sim; return s; }
HARNESS
{
#if OP == 0
    Scorer A, B, *ss[2], *s; Coordinator co; Similarity sim; int n = (int)vp_range(2, 1000), k = vp_bool();
    vp_watch(k); ss[0] = &A; ss[1] = &B; A.similarity = &sim;
    s = disjunction_sum_scorer_new(ss, n, 1);
    VP_ASSERT(DSSc(s)->sub_scorers == ss && DSSc(s)->ss_cnt == n && DSSc(s)->min_num_matches == 1 && DSSc(s)->scorer_queue == NULL && DSSc(s)->coordinator == NULL, "all alternatives, not started");
    VP_ASSERT(s->next == dssc_next && s->skip_to == dssc_skip_to && s->score == dssc_score && s->destroy == dssc_destroy, "its operations");
    s = counting_disjunction_sum_scorer_new(&co, ss, n, 1);
    VP_ASSERT(DSSc(s)->sub_scorers == ss && DSSc(s)->ss_cnt == n && DSSc(s)->min_num_matches == 1 && DSSc(s)->scorer_queue == NULL && DSSc(s)->coordinator == &co, "all alternatives, counted, not started");
    VP_ASSERT(s->next == dssc_next && s->skip_to == dssc_skip_to && s->score == cdssc_score && s->destroy == dssc_destroy, "its operations");
    s = counting_conjunction_sum_scorer_new(&co, ss, 2);
    VP_ASSERT(CSc(s)->sub_scorers != ss && CSc(s)->sub_scorers[k] == ss[k] && CSc(s)->ss_cnt == 2 && CSc(s)->coordinator == &co && CSc(s)->first_time && CSc(s)->more && CSc(s)->last_scored_doc == -1, "a copy of all the required clauses, counted, not started");
    VP_ASSERT(s->next == csc_next && s->skip_to == csc_skip_to && s->score == ccsc_score && s->destroy == csc_destroy, "its operations");
    s = single_match_scorer_new(&co, &A);
    VP_ASSERT(SMSc(s)->scorer == &A && SMSc(s)->coordinator == &co && s->next == smsc_next && s->skip_to == smsc_skip_to && s->score == smsc_score && s->destroy == smsc_destroy, "one clause");
    s = req_opt_sum_scorer_new(&A, &B);
    VP_ASSERT(ROSSc(s)->req_scorer == &A && ROSSc(s)->opt_scorer == &B && ROSSc(s)->first_time_opt && s->next == rossc_next && s->skip_to == rossc_skip_to && s->score == rossc_score && s->destroy == rossc_destroy, "required and optional");
    s = req_excl_scorer_new(&A, &B);
    VP_ASSERT(RXSc(s)->req_scorer == &A && RXSc(s)->excl_scorer == &B && RXSc(s)->first_time && s->next == rxsc_next && s->skip_to == rxsc_skip_to && s->score == rxsc_score && s->destroy == rxsc_destroy, "required and prohibited");
    s = non_matching_scorer_new();
    VP_ASSERT(s->next == nmsc_next && s->skip_to == nmsc_skip_to, "no documents");
    s = bsc_new(&sim);
    VP_ASSERT(BSc(s)->rs_cnt == 0 && BSc(s)->os_cnt == 0 && BSc(s)->ps_cnt == 0 && BSc(s)->rs_capa == 0 && BSc(s)->os_capa == 0 && BSc(s)->ps_capa == 0 && !BSc(s)->counting_sum_scorer, "no clauses yet");
    VP_ASSERT(BSc(s)->coordinator && BSc(s)->coordinator->similarity == &sim && BSc(s)->coordinator->max_coord == 0 && BSc(s)->coordinator->num_matches == 0 && s->next == bsc_next && s->skip_to == bsc_skip_to && s->score == bsc_score && s->destroy == bsc_destroy, "its operations");
    VP_REACH("done");
#else
    BooleanScorer B; Coordinator co; Scorer sc; int cnt = (int)vp_range(0, VP_SZ(100000000, 4)), capa = (int)vp_range(0, VP_SZ(100000000, 4)), w = (int)vp_range(0, VP_SZ(100000000, 4)), m0 = (int)vp_range(0, 100000), oc; Scorer **l, *old = NULL; 
    VP_ASSUME(cnt <= capa && (capa > 0 || cnt == 0)); l = capa ? (Scorer **)malloc(sizeof(Scorer *) * (size_t)capa) : NULL;
    B.coordinator = &co; co.max_coord = m0; oc = (int)vp_range(0, 2);
    B.rs_cnt = B.os_cnt = B.ps_cnt = -1; B.required_scorers = B.optional_scorers = B.prohibited_scorers = NULL;
    if (oc == BC_MUST) { B.rs_cnt = cnt; B.rs_capa = capa; B.required_scorers = l; } else if (oc == BC_SHOULD) { B.os_cnt = cnt; B.os_capa = capa; B.optional_scorers = l; } else { B.ps_cnt = cnt; B.ps_capa = capa; B.prohibited_scorers = l; }
    if (w < cnt) { old = l[w]; vp_watch(w); }
    bsc_add_scorer(&B.super, &sc, (unsigned)oc);
    l = oc == BC_MUST ? B.required_scorers : oc == BC_SHOULD ? B.optional_scorers : B.prohibited_scorers;
    VP_ASSERT((oc == BC_MUST ? B.rs_cnt : oc == BC_SHOULD ? B.os_cnt : B.ps_cnt) == cnt + 1 && B.rs_cnt + B.os_cnt + B.ps_cnt == cnt - 1, "one more clause of its kind");
    VP_ASSERT(l[cnt] == &sc && (w >= cnt || l[w] == old), "at the end, the others stay");
    VP_ASSERT(co.max_coord == m0 + (oc != BC_MUST_NOT), "positive clauses are counted");
    VP_REACH("done");
#endif
}
