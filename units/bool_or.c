/*VP{
"property":"P14",
"title":"a disjunction stops exactly at the documents that at least one clause has, and counts and scores each clause that has the document once",
"functions":["dssc_next","dssc_skip_to","dssc_advance_after_current","dssc_init_scorer_queue","dssc_score","cdssc_score","scorer_doc_less_than"],
"variants":[{"name":"2next","defs":["N=2","SK=0"],"proof":{"unwind":4,"timeout":200,"args":["--unwindset","dssc_advance_after_current.0:3,dssc_advance_after_current.1:2"]},"bounded":{"K":3,"unwind":4,"args":["--unwindset","dssc_advance_after_current.0:3,dssc_advance_after_current.1:2"]}},
 {"name":"2skip","defs":["N=2","SK=1"],"proof":{"unwind":4,"timeout":200,"args":["--unwindset","dssc_advance_after_current.0:3,dssc_advance_after_current.1:2"]},"bounded":{"K":3,"unwind":4,"args":["--unwindset","dssc_advance_after_current.0:3,dssc_advance_after_current.1:2"]}},
 {"name":"3next","defs":["N=3","SK=0"],"proof":{"unwind":5,"timeout":200,"args":["--unwindset","dssc_advance_after_current.0:4,dssc_advance_after_current.1:2"]},"bounded":{"K":3,"unwind":5,"args":["--unwindset","dssc_advance_after_current.0:4,dssc_advance_after_current.1:2"]}},
 {"name":"3skip","defs":["N=3","SK=1"],"tier":"thorough","proof":{"unwind":5,"timeout":200,"args":["--unwindset","dssc_advance_after_current.0:4,dssc_advance_after_current.1:2"]},"bounded":{"K":3,"unwind":5,"args":["--unwindset","dssc_advance_after_current.0:4,dssc_advance_after_current.1:2"]}}],
"limit":"2 or 3 clauses (any number of documents)",
"prune":{"src/q_boolean.c":["dssc_next","dssc_skip_to","dssc_score","cdssc_score"]},
"proof":{"unwind":8,"timeout":200},
"bounded":{"K":3,"unwind":8,"timeout":120},
"assume":["the priority queue by its contract (P08)"]
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "search.h"
#include "internal.h"
#include "scorer_common.h"
#include "q_boolean.c"
static MS M0, M1, M2; static PriorityQueue Q; static int inq[3];
static MS *PM(int i) { return i == 0 ? &M0 : i == 1 ? &M1 : &M2; }
bool frt_scorer_doc_less_than(const Scorer *a, const Scorer *b) { return a->doc < b->doc; }
/* contract of the queue: the top is a least element, among equals any */
static int best(void)
{
    int i, k = -1, pref = (int)vp_range(0, N - 1);
    for (i = 0; i < N; i++) if (inq[i] && (k < 0 || PM(i)->s.doc < PM(k)->s.doc)) k = i;
    if (k >= 0 && inq[pref] && PM(pref)->s.doc == PM(k)->s.doc) k = pref;
    return k;
}
static int top = -1;
PriorityQueue *frt_pq_new(int capa, lt_ft lt, free_ft f) { int i; VP_ASSERT(capa >= N, "every clause fits the queue"); VP_ASSERT(lt == (lt_ft)&frt_scorer_doc_less_than, "ordered by document"); Q.size = 0; Q.capa = capa; for (i = 0; i < N; i++) inq[i] = 0; return &Q; }
PriorityQueueInsertEnum frt_pq_insert(PriorityQueue *q, void *e) { int i; for (i = 0; i < N; i++) if (e == PM(i)) { VP_ASSERT(!inq[i], "once"); inq[i] = 1; } q->size++; return PQ_ADDED; }
void *frt_pq_top(PriorityQueue *q) { if (q->size == 0) return NULL; if (top < 0) top = best(); return &PM(top)->s; }
void frt_pq_down(PriorityQueue *q) { VP_ASSERT(top >= 0, "only the top has changed"); top = -1; }
void *frt_pq_pop(PriorityQueue *q) { Scorer *s; if (top < 0) top = best(); inq[top] = 0; q->size--; s = &PM(top)->s; top = -1; return s; }
HARNESS
{
    DisjunctionSumScorer D; Coordinator co; Scorer *self = (Scorer *)&D, *SUB[3] = { &M0.s, &M1.s, &M2.s }; int i, prev = -1, t, sk = SK, ft = vp_bool(), lo, any = 0, have = 0, nm = 0, ns = 0, old; bool r; float sc;
    G_W = (int)vp_range(0, VP_SZ(MS_MAX, MS_SMALL)); top = -1;
    for (i = 0; i < N; i++) ms_init(PM(i));
    D.sub_scorers = SUB; D.ss_cnt = N; D.min_num_matches = 1; D.scorer_queue = NULL; D.num_matches = -1; D.cum_score = -1; D.coordinator = &co; self->doc = -1;
    if (!ft) {
        prev = (int)vp_range(0, VP_SZ(MS_MAX - 1, MS_SMALL)); self->doc = prev; D.scorer_queue = &Q; Q.size = 0; Q.capa = N;
        for (i = 0; i < N; i++) {
            MS *m = PM(i); m->started = 1; m->dead = vp_bool(); inq[i] = !m->dead; Q.size += inq[i];
            if (!m->dead) { m->s.doc = (int)vp_range(prev + 1, VP_SZ(MS_MAX, MS_SMALL + 1)); VP_ASSUME(m->s.doc != G_W || m->m); VP_ASSUME(!(m->m && G_W > prev && m->s.doc > G_W)); }
            else VP_ASSUME(!(m->m && G_W > prev));
        }
    }
    t = (int)vp_range(0, VP_SZ(MS_MAX, MS_SMALL)); lo = sk && t > prev + 1 ? t : prev + 1;
    for (i = 0; i < N; i++) if (PM(i)->m) { nm++; have = 1; }
    any = have && G_W >= lo;
    r = sk ? dssc_skip_to(self, t) : dssc_next(self);
    VP_REACH("done");
    for (i = 0; i < N; i++) { MS *m = PM(i); if (m->scored) { ns++; VP_ASSERT(m->scored == 1 && m->at == self->doc, "a clause is scored once, on the document"); } }
    if (r) {
        VP_ASSERT(self->doc >= lo, "forward, to the target at least");
        VP_ASSERT(self->doc != G_W || have, "a document that no clause has is not a match");
        VP_ASSERT(!any || self->doc <= G_W, "no document of a clause is passed over");
        VP_ASSERT(ns >= 1 && D.num_matches == ns && D.cum_score == (float)ns, "the clauses that have the document are counted and their scores summed");
        if (self->doc == G_W) VP_ASSERT(ns == nm, "all of them");
        for (i = 0; i < N; i++) { MS *m = PM(i); VP_ASSERT(m->dead ? !inq[i] : inq[i] && m->s.doc > self->doc, "the clauses that are left stand behind the document"); }
        old = co.num_matches = (int)vp_range(0, 9); sc = vp_bool() ? dssc_score(self) : cdssc_score(self);
        VP_ASSERT(sc == (float)ns && (co.num_matches == old || co.num_matches == old + ns), "the score is the sum and the count goes to the coordinator");
    }
    else VP_ASSERT(!any, "the end is reported only when no clause has a further document");
}
