/*VP{
"property":"P14",
"title":"a conjunction of required clauses stops exactly at the documents that all of them have",
"functions":["csc_next","csc_skip_to","csc_do_next","csc_init","csc_sort_scorers"],
"variants":[{"name":"2","defs":["N=2"],"bounded":{"K":3,"unwind":5}},{"name":"3","defs":["N=3"],"bounded":{"K":3,"unwind":8}}],
"level":"bounded","prune":{"src/q_boolean.c":["csc_next","csc_skip_to"]}
}VP*/
/* bound: 2 or 3 clauses, documents 0..3 */
#define VP_FREE_PTR
#define MS_SMALL 3
#include "env.h"
#include "search.h"
#include "internal.h"
#include "scorer_common.h"
static MS M0, M1, M2, M3; static Scorer *SUB[N]; static int g_lo, g_all;
#include "q_boolean.c"
static MS *PM(int i) { return i == 0 ? &M0 : i == 1 ? &M1 : i == 2 ? &M2 : &M3; }
static float crd(Similarity *s, int o, int m) { return 1.0; }
HARNESS
{
    ConjunctionScorer C; Scorer *self = (Scorer *)&C; static Similarity sim; int i, prev, t, ft = vp_bool(), more = 1, sk = vp_bool(), same, mem; bool r;
    C.first_idx = 0; self->doc = 0; C.coordinator = NULL; sim.coord = crd; G_W = (int)vp_range(0, MS_SMALL); g_all = 1; mem = 1;
    for (i = 0; i < N; i++) { ms_init(PM(i)); SUB[i] = &PM(i)->s; mem = mem && PM(i)->m; }
    C.sub_scorers = SUB; C.ss_cnt = N; self->similarity = &sim; C.first_time = ft; C.more = 1; prev = -1;
    if (!ft) { /* stopped at a match, or at the end */
        prev = (int)vp_range(0, MS_SMALL); self->doc = prev; C.first_idx = (int)vp_range(0, N - 1); more = C.more = vp_bool();
        for (i = 0; i < N; i++) { PM(i)->started = 1; PM(i)->s.doc = prev; if (!more) PM(i)->dead = vp_bool(); }
        VP_ASSUME(more ? (prev != G_W || mem) : !(mem && G_W > prev));
    }
    t = (int)vp_range(0, MS_SMALL); g_lo = sk && t > prev + 1 ? t : prev + 1; g_all = mem && G_W >= g_lo;
    r = sk ? csc_skip_to(self, t) : csc_next(self);
    VP_REACH("done");
    same = 1; for (i = 0; i < N; i++) same = same && !PM(i)->dead && PM(i)->started && PM(i)->s.doc == self->doc;
    if (r) {
        VP_ASSERT(more && self->doc >= g_lo, "forward, to the target at least");
        VP_ASSERT(same && C.more && !C.first_time, "every clause stands on the document");
        VP_ASSERT(self->doc != G_W || mem, "a document that some clause lacks is not a match");
        VP_ASSERT(!g_all || self->doc <= G_W, "no common document is passed over");
    }
    else { VP_ASSERT(!g_all, "the end is reported only when no common document is left"); VP_ASSERT(!C.more, "and it stays the end"); }
}
