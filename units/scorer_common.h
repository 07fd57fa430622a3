/* Contract of a sub-scorer: it walks an ascending set of documents.  Of the set only the membership of one arbitrary
 * document G_W is fixed; everything else is chosen as the walk proceeds.  After its end the document is arbitrary. */
static int G_W;
typedef struct MS { Scorer s; int m, dead, started, scored, at, ndestroy; } MS;
#define MS_MAX 2000000000
#ifndef MS_SMALL
#define MS_SMALL 5
#endif
static bool ms_to(Scorer *self, int lo)
{
    MS *m = (MS *)self; int d;
    if (m->dead) return false;
    m->started = 1;
    if (!(m->m && lo <= G_W) && (lo > VP_SZ(MS_MAX, MS_SMALL) || vp_bool())) { m->dead = 1; self->doc = vp_bool() ? self->doc : 0x7fffffff; return false; }
    d = (int)vp_range(lo, VP_SZ(MS_MAX, MS_SMALL)); VP_ASSUME(m->m ? lo > G_W || d <= G_W : d != G_W);
    self->doc = d; return true;
}
static bool ms_next(Scorer *self) { MS *m = (MS *)self; return ms_to(self, m->started ? self->doc + 1 : 0); }
static bool ms_skip(Scorer *self, int t) { MS *m = (MS *)self; int lo = m->started ? self->doc + 1 : 0; return ms_to(self, t > lo ? t : lo); }
static float ms_score(Scorer *self) { MS *m = (MS *)self; VP_ASSERT(!m->dead && m->started, "only a scorer that stands on a document is asked for its score"); m->scored++; m->at = self->doc; return 1.0; }
static void ms_destroy(Scorer *self) { MS *m = (MS *)self; VP_ASSERT(m->ndestroy == 0, "a scorer is released once"); m->ndestroy++; m->dead = 1; }
static void ms_init(MS *m) { m->m = vp_bool(); m->dead = m->started = m->scored = m->at = m->ndestroy = 0; m->s.doc = 0; m->s.next = ms_next; m->s.skip_to = ms_skip; m->s.score = ms_score; m->s.destroy = ms_destroy; m->s.similarity = NULL; }
