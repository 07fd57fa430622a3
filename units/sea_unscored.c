/*VP{
"property":"P16","also":["P12"],
"title":"an unscored scan returns the matching documents from the requested document on, in order and without gaps, up to the limit",
"functions":["isea_search_unscored_w"],
"loops":[{"file":"src/search.c","func":"isea_search_unscored_w","loop":0,"of":1,
 "text":"__CPROVER_assigns(count, g_n, g_doc, g_wdoc, g_end, scorer->doc, __CPROVER_object_whole(buf)) __CPROVER_loop_invariant(count >= 0 && count < limit && g_n == count && !g_end && scorer->doc == g_doc && g_doc >= g_off + count && g_doc <= GMAX && (g_wi <= count ==> 1) && (g_wi < count ==> buf[g_wi] == g_wdoc) && (g_wi == count ==> g_wdoc == g_doc))"}],
"prune":{"src/search.c":["isea_search_unscored_w"]},
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":7},
"assume":["a scorer produces its matching documents in increasing order (P14, P15)"]
}VP*/
#define GMAX 1000000000
static int g_n, g_doc, g_wi, g_wdoc, g_end, g_dead, g_off;
#define VP_FREE_PTR
#include "env.h"
#include "search.c"
static Scorer S; static IndexReader IR; static IndexSearcher IS;
static bool produce(Scorer *s, int from)
{
    if (vp_bool() || from > VP_SZ(GMAX - 1, 14)) { g_end = 1; return false; }
    g_doc = (int)vp_range(from, VP_SZ(GMAX, from + 3)); s->doc = g_doc; g_n++;
    if (g_n == g_wi) g_wdoc = g_doc;
    return true;
}
static bool snext(Scorer *s) { VP_ASSERT(!g_end && g_n >= 0, "a scorer that has ended is not advanced again"); return produce(s, g_doc + 1); }
static bool sskip(Scorer *s, int to) { VP_ASSERT(to == g_off && g_n < 0, "the scan starts at the requested document"); return produce(s, to); }
static void sdestroy(Scorer *s) { g_dead++; }
static Scorer *wscorer(Weight *w, IndexReader *ir) { return &S; }
HARNESS
{
    Weight W; int limit = (int)vp_range(1, VP_SZ(100000, 5)), r, *buf = VP_NEW_N(int, limit);
    g_n = -1; g_end = g_dead = 0; g_off = (int)vp_range(0, VP_SZ(GMAX, 5)); g_wi = (int)vp_range(0, limit - 1); g_doc = -1;
    memset(&S, 0, sizeof(S)); S.next = snext; S.skip_to = sskip; S.destroy = sdestroy; W.scorer = wscorer; IS.ir = &IR;
    r = isea_search_unscored_w((Searcher *)&IS, &W, buf, limit, g_off);
    VP_REACH("done");
    VP_ASSERT(r == g_n + 1 && (g_end || r == limit), "all matches from the offset on, up to the limit");
    if (g_wi < r) VP_ASSERT(buf[g_wi] == g_wdoc, "each at its place");
    VP_ASSERT(g_dead == 1, "the scorer is released");
}
