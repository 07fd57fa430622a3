/*VP{
"property":"P16","also":["P12"],
"title":"visiting all matches delivers every document that matches and passes the filters exactly once with its score",
"functions":["isea_search_each_w"],
"loops":[{"file":"src/search.c","func":"isea_search_each_w","loop":0,"of":1,
 "text":"__CPROVER_assigns(filter_factor, g_cur, g_cursc, g_insD, g_end, scorer->doc) __CPROVER_loop_invariant(g_cur >= -1 && g_cur <= GMAX && g_insD == (g_match && g_pass && g_cur >= g_D) && (g_cur != g_D || g_cursc == g_score) && (!g_usepf ==> filter_factor == 1.0f) && !g_end)"}],
"prune":{"src/search.c":["isea_search_each_w"]},
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":7},
"assume":["a scorer produces its matching documents in increasing order (P14, P15)"]
}VP*/
#define GMAX 1000000000
static int g_cur, g_D, g_match, g_pass, g_insD, g_usepf, g_end, g_usef, g_dead; static float g_score, g_cursc, g_fin, g_pf; static char g_arg;
#define VP_FREE_PTR
#include "env.h"
#include "search.c"
static Scorer S; static IndexReader IR; static IndexSearcher IS; static BitVector BV;
static bool snext(Scorer *s)
{
    int d;
    VP_ASSERT(!g_end, "a scorer that has ended is not advanced again");
    if (!(g_match && g_cur < g_D) && (vp_bool() || g_cur >= VP_SZ(GMAX, 12))) { g_end = 1; return false; }
    d = (int)vp_range(g_cur + 1, VP_SZ(GMAX, g_cur + 4)); VP_ASSUME(d <= GMAX);
    if (g_cur < g_D) VP_ASSUME(g_match ? d <= g_D : d != g_D);
    g_cur = d; g_cursc = d == g_D ? g_score : (float)(int)vp_range(0, 9);
    s->doc = d; return true;
}
static float sscore(Scorer *s) { return g_cursc; }
static void sdestroy(Scorer *s) { g_dead++; }
static Scorer *wscorer(Weight *w, IndexReader *ir) { return &S; }
static float filt(int doc, float score, Searcher *s, void *arg) { VP_ASSERT(doc == g_cur && score == g_cursc, "a post filter sees the document and its score"); return doc == g_D ? g_pf : (float)(int)vp_range(0, 4) / 2; }
BitVector *frt_filt_get_bv(Filter *f, IndexReader *ir) { return &BV; }
static void visit(Searcher *s, int doc, float score, void *arg)
{
    VP_ASSERT(s == (Searcher *)&IS && arg == &g_arg && doc == g_cur, "the current document is delivered");
    if (doc == g_D) { g_insD++; VP_ASSERT(score == g_fin, "with its score"); }
}
HARNESS
{
    Weight W; Filter F; PostFilter P;
    g_cur = -1; g_insD = g_end = g_dead = 0;
    g_match = vp_bool(); g_D = (int)vp_range(0, VP_SZ(GMAX, 7)); g_score = (float)(int)vp_range(0, 9); g_usef = (int)vp_range(0, 2); g_usepf = vp_bool(); g_pf = (float)(int)vp_range(0, 4) / 2;
    g_pass = g_usef != 2 && (!g_usepf || g_pf != 0); g_fin = g_usepf ? g_score * g_pf : g_score;
#ifdef VP_NATIVE
    { static u32 bits[2]; BV.bits = bits; BV.size = BV.capa = 64; BV.extends_as_ones = 0; bits[0] = vp_u32(); if (g_usef == 1) bits[0] |= 1u << g_D; else bits[0] &= ~(1u << g_D); }
#else
    { BV.capa = (int)vp_range(1, VP_SZ((GMAX >> 5) + 1, 1)); BV.bits = VP_NEW_N(u32, BV.capa); BV.size = (int)vp_range(0, BV.capa * 32); VP_ASSUME(g_usef == 0 || (g_usef == 1) == (g_D < BV.size && ((BV.bits[g_D >> 5] >> (g_D & 31)) & 1))); BV.extends_as_ones = 0; }
#endif
    memset(&S, 0, sizeof(S)); S.next = snext; S.score = sscore; S.destroy = sdestroy;
    W.scorer = wscorer; IS.ir = &IR; P.filter_func = filt; P.arg = NULL;
    isea_search_each_w((Searcher *)&IS, &W, g_usef ? &F : NULL, g_usepf ? &P : NULL, visit, &g_arg);
    VP_REACH("done");
    VP_ASSERT(g_insD == (g_match && g_pass), "a document is delivered once exactly when it matches and passes the filters");
    VP_ASSERT(g_dead == 1, "the scorer is released");
}
