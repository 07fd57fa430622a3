/*VP{
"property":"P14",
"title":"excluding a prohibited clause leaves exactly the documents that the required clause has and the prohibited one has not",
"functions":["rxsc_next","rxsc_skip_to","rxsc_to_non_excluded","rxsc_score"],
"prune":{"src/q_boolean.c":["rxsc_next","rxsc_skip_to","rxsc_score"]},
"loops":[{"file":"src/q_boolean.c","func":"rxsc_to_non_excluded","loop":0,"of":1,"text":"__CPROVER_assigns(excl_doc, req_doc, R.s.doc, R.dead, R.started, X.s.doc, X.dead, X.started, X.ndestroy, self->doc, RXSc(self)->excl_scorer) __CPROVER_loop_invariant(RXSc(self)->excl_scorer == &X.s && X.ndestroy == 0 && !R.dead && R.started == 1 && !X.dead && X.started == 1 && excl_doc == X.s.doc && R.s.doc >= g_lo && R.s.doc <= MS_MAX && X.s.doc >= 0 && X.s.doc <= MS_MAX && (g_all ==> R.s.doc <= G_W) && (R.s.doc == G_W ==> R.m) && (X.s.doc == G_W ==> X.m) && (X.m && X.s.doc > G_W ==> R.s.doc > G_W))"}],
"proof":{"unwind":14},
"bounded":{"K":3,"unwind":8}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "search.h"
#include "internal.h"
#include "scorer_common.h"
static MS R, X; static int g_lo, g_all;
#include "q_boolean.c"
HARNESS
{
    ReqExclScorer S; Scorer *self = (Scorer *)&S; int prev = -1, t, sk = vp_bool(), ft = vp_bool(), mem; bool r;
    G_W = (int)vp_range(0, VP_SZ(MS_MAX, MS_SMALL)); ms_init(&R); ms_init(&X); mem = R.m && !X.m;
    S.req_scorer = &R.s; S.excl_scorer = &X.s; S.first_time = ft; self->doc = 0;
    if (!ft) {
        prev = (int)vp_range(0, VP_SZ(MS_MAX - 1, MS_SMALL)); self->doc = prev; R.started = X.started = 1; R.s.doc = prev; VP_ASSUME(prev != G_W || mem);
        if (vp_bool()) { S.excl_scorer = NULL; X.dead = 1; VP_ASSUME(!(X.m && G_W > prev)); }   /* no further exclusions */
        else { X.s.doc = (int)vp_range(0, VP_SZ(MS_MAX, MS_SMALL)); VP_ASSUME(X.s.doc != prev && (X.s.doc != G_W || X.m)); VP_ASSUME(!(X.m && X.s.doc > G_W && G_W > prev)); }
        if (vp_bool()) { S.req_scorer = NULL; R.dead = 1; VP_ASSUME(!(R.m && G_W > prev)); }
    }
    t = (int)vp_range(0, VP_SZ(MS_MAX, MS_SMALL)); g_lo = sk && t > prev + 1 ? t : prev + 1; g_all = R.m && G_W >= g_lo && !X.m;
    r = sk ? rxsc_skip_to(self, t) : rxsc_next(self);
    VP_REACH("done");
    if (r) {
        VP_ASSERT(self->doc >= g_lo, "forward, to the target at least");
        VP_ASSERT(self->doc == R.s.doc && !R.dead && S.req_scorer == &R.s, "the required clause stands on the document");
        VP_ASSERT(self->doc != G_W || mem, "an excluded document is not a match");
        VP_ASSERT(!g_all || self->doc <= G_W, "no document is passed over");
        R.scored = 0; rxsc_score(self); VP_ASSERT(R.scored == 1, "the score is that of the required clause");
    }
    else VP_ASSERT(!g_all, "the end is reported only when nothing is left");
    VP_ASSERT(S.excl_scorer == (X.ndestroy || X.dead ? NULL : &X.s), "an exhausted exclusion is released and forgotten");
}
