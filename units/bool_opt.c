/*VP{
"property":"P14",
"title":"optional clauses add their score exactly on the documents they have and never change which documents match; the wrappers pass documents through unchanged",
"functions":["rossc_next","rossc_skip_to","rossc_score","smsc_next","smsc_skip_to","smsc_score","bsc_next","bsc_skip_to","bsc_score","nmsc_next","nmsc_skip_to","ccsc_score","csc_score","coord_init"],
"variants":[{"name":"opt","defs":["OP=0"],"prune":{"src/q_boolean.c":["rossc_next","rossc_skip_to","rossc_score"]}},
{"name":"single","defs":["OP=1"],"prune":{"src/q_boolean.c":["smsc_next","smsc_skip_to","smsc_score","nmsc_next","nmsc_skip_to"]}},
{"name":"bool","defs":["OP=2"],"prune":{"src/q_boolean.c":["&","bsc_next","bsc_skip_to","bsc_score"]},"replace":["bsc_init_counting_sum_scorer:vp_init"],"bounded":{"K":3,"unwind":5,"replace":["bsc_init_counting_sum_scorer:vp_init"]},"nosearch":true}],
"proof":{"unwind":6},
"bounded":{"K":3,"unwind":5}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "search.h"
#include "internal.h"
#include "scorer_common.h"
static MS R, O; static int ninit;
#include "q_boolean.c"
#if OP == 2
Scorer *vp_init(BooleanScorer *b) { ninit++; return b->counting_sum_scorer = &R.s; }
static int nm; static float sum_score(Scorer *s) { return 3.0; }
#endif
HARNESS
{
    int prev = -1, t, sk = vp_bool(), ft = vp_bool(), lo; bool r;
    G_W = (int)vp_range(0, VP_SZ(MS_MAX, MS_SMALL)); ms_init(&R); ms_init(&O); ninit = 0;
    if (!ft) { prev = (int)vp_range(0, VP_SZ(MS_MAX - 1, MS_SMALL)); R.started = 1; R.s.doc = prev; VP_ASSUME(prev != G_W || R.m); }
    t = (int)vp_range(0, VP_SZ(MS_MAX, MS_SMALL)); lo = sk && t > prev + 1 ? t : prev + 1;
#if OP == 0
    { ReqOptSumScorer S; Scorer *self = (Scorer *)&S; float sc; int k;
      S.req_scorer = &R.s; S.opt_scorer = &O.s; S.first_time_opt = 1; self->doc = prev < 0 ? 0 : prev;
      if (!ft && vp_bool()) { S.first_time_opt = 0; O.started = 1; /* scored before, at or before this document */
          if (vp_bool()) { S.opt_scorer = NULL; O.dead = 1; VP_ASSUME(!(O.m && G_W > prev)); } else { O.s.doc = (int)vp_range(0, VP_SZ(MS_MAX, MS_SMALL)); VP_ASSUME((O.s.doc != G_W || O.m) && !(O.m && O.s.doc > G_W && G_W > prev)); } }
      r = sk ? rossc_skip_to(self, t) : rossc_next(self);
      VP_ASSERT(r == !R.dead, "the documents are those of the required clause");
      if (r) { VP_ASSERT(self->doc == R.s.doc && self->doc >= lo, "all of them in turn");
        for (k = 0; k < 2; k++) { R.scored = O.scored = 0; sc = rossc_score(self);
          VP_ASSERT(R.scored == 1, "the required score counts"); if (self->doc == G_W) VP_ASSERT(O.scored == (O.m ? 1 : 0), "the optional score counts exactly when the clause has the document");
          VP_ASSERT(sc == (float)(R.scored + O.scored) && (!O.scored || O.at == self->doc), "the sum of both"); } } }
#elif OP == 1
    { SingleMatchScorer S; Scorer *self = (Scorer *)&S; Coordinator co; co.num_matches = 4; S.coordinator = &co; S.scorer = &R.s; self->doc = 0;
      r = sk ? smsc_skip_to(self, t) : smsc_next(self);
      VP_ASSERT(r == !R.dead, "the documents are those of the clause"); if (r) { VP_ASSERT(self->doc == R.s.doc && self->doc >= lo, "all of them in turn"); R.scored = 0; VP_ASSERT(smsc_score(self) == 1.0f && R.scored == 1 && co.num_matches == 5, "its score, counted as one match"); }
      VP_ASSERT(!nmsc_next(self) && !nmsc_skip_to(self, t), "the scorer of a query without positive clauses has no documents"); }
#else
    { BooleanScorer S; Scorer *self = (Scorer *)&S; Coordinator co; float cf[4] = {0.5, 1, 2, 4}; S.counting_sum_scorer = ft ? NULL : &R.s; S.coordinator = &co; co.coord_factors = cf; self->doc = 0;
      r = sk ? bsc_skip_to(self, t) : bsc_next(self);
      VP_ASSERT(r == !R.dead && ninit == (ft ? 1 : 0) && S.counting_sum_scorer == &R.s, "the documents are those of the combined clauses"); if (r) VP_ASSERT(self->doc == R.s.doc && self->doc >= lo, "all of them in turn");
      if (r) { co.num_matches = (int)vp_range(0, 9); R.scored = 0; VP_ASSERT(bsc_score(self) == 0.5f && R.scored == 1 && co.num_matches == 0, "the sum weighted by the share of clauses that match, counted afresh"); } }
#endif
    if (r) { VP_ASSERT(!(R.m && G_W >= lo && R.s.doc > G_W), "no document is passed over"); }
    else if (!R.dead) VP_ASSERT(0, "no document is missed");
    VP_REACH("done");
}
