/*VP{
"property":"P11",
"title":"skipping in a posting list lands on the first document at or beyond the target, whatever skip data lies between, and keeps the count of postings and the position stream in step",
"functions":["stde_skip_to"],
"prune":{"src/index.c":["stde_skip_to"]},
"variants":[{"name":"i16","defs":["SI=16"]},{"name":"i2","defs":["SI=2"]}],
"loops":[{"file":"src/index.c","func":"stde_skip_to","loop":0,"of":2,"text":"__CPROVER_assigns(last_skip_doc, last_frq_ptr, last_prx_ptr, num_skipped, stde->skip_doc, stde->frq_ptr, stde->prx_ptr, stde->skip_count, g_k, g_D, g_F, g_P, g_ph, g_m, g_mD, g_mF, g_mP, g_lD, g_lF, g_lP, g_it, dD, dF, dP) __CPROVER_loop_invariant(stde->skip_count == g_k && g_k >= g_c && g_k <= g_ns && g_ph == 0 && stde->skip_doc == g_D && stde->frq_ptr == g_F && stde->prx_ptr == g_P && g_D >= 0 && g_D <= 2000000000 && g_F >= 0 && g_F <= 2000000000 && g_P >= 0 && g_P <= 2000000000 && ((g_k >= 1) ==> (g_D >= g_doc0) == (g_k * SI - 1 >= g_cnt0)) && (g_k * SI - 1 > g_cnt0) == (g_F > g_pos0) && g_it == (g_k > g_c) && (!g_it ==> last_frq_ptr == g_pos0 && num_skipped == -1 - g_R && g_m == (g_D < g_to ? g_k : -1)) && (g_it ==> last_skip_doc == g_lD && last_frq_ptr == g_lF && last_prx_ptr == g_lP && num_skipped == -1 - g_R + ((g_k - 1) > g_Q ? ((g_k - 1) - g_Q) * SI : 0) && g_lD < g_to && g_lD >= 0 && ((g_k - 1) * SI - 1 > g_cnt0) == (g_lF > g_pos0)) && (g_D < g_to ==> g_m == g_k && g_mD == g_D && g_mF == g_F && g_mP == g_P) && (g_D >= g_to && g_it ==> g_m == g_k - 1 && g_mD == g_lD && g_mF == g_lF && g_mP == g_lP)) __CPROVER_decreases(g_ns - g_k + (g_D < g_to))"},
 {"file":"src/index.c","func":"stde_skip_to","loop":1,"of":2,"text":"__CPROVER_assigns(stde->doc_num, g_nx, g_end) __CPROVER_loop_invariant(!g_end && (g_nx == 0 || (g_nx == 1 && stde->doc_num < g_to)) && stde->doc_num >= 0 && stde->doc_num <= 2000000000)"}],
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":7},
"assume":["skip entry k stands before posting k*interval-1 and holds the document before it (unit post_round checks that the writer does this)","stream offsets and document numbers up to 2000000000, up to 10000000 postings"]
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "index.h"
static int g_k, g_c, g_ns, g_ph, g_D, g_doc0, g_cnt0, g_it, g_R, g_Q, g_m, g_mD, g_lD, g_to, g_nx, g_end, dD; static long dF, dP, g_F, g_P, g_pos0, g_mF, g_mP, g_lF, g_lP, g_sk;
#include "index.c"
static int PDv[64]; static long PFv[64]; static SegmentTermDocEnum S; static char FRQ, SKP; static int sought, psought, cloned, sseek;
InStream *frt_is_clone(InStream *is) { VP_ASSERT(is == (InStream *)&FRQ, "the skip data is in the frequency file"); cloned++; return (InStream *)&SKP; }
void frt_is_seek(InStream *is, off_t o)
{
    if (is == (InStream *)&SKP) { VP_ASSERT(o == g_sk && !g_it, "the skip data of the term is read from its start"); sseek++; }
    else { VP_ASSERT(is == (InStream *)&FRQ && o == g_mF, "the frequency stream is set to the last skip entry before the target"); sought++; }
}
off_t frt_is_pos(InStream *is) { VP_ASSERT(is == (InStream *)&FRQ, "position of the frequency stream"); return sought ? g_mF : g_pos0; }
static void sprox(SegmentTermDocEnum *s, off_t p) { VP_ASSERT(p == g_mP, "the position stream follows"); psought++; }
unsigned int frt_is_read_vint(InStream *is)
{
    VP_ASSERT(is == (InStream *)&SKP && S.skip_in == is, "the skip stream"); 
    if (g_ph == 0) {
        VP_ASSERT(g_k < g_ns, "not more skip entries are read than there are");
        dD = (int)vp_range(0, VP_SZ(1000000000, 3)); dF = vp_range(1, VP_SZ(1000000000, 3)); dP = vp_range(0, VP_SZ(1000000000, 3));
        g_lD = g_D; g_lF = g_F; g_lP = g_P; g_it = 1; g_k++;
#ifdef VP_PROOF
        VP_ASSUME(dD <= 2000000000 - g_D && dF <= 2000000000 - g_F && dP <= 2000000000 - g_P && (dD > 0 || g_k == 1));
        g_D += dD; g_F += dF; g_P += dP;
        VP_ASSUME((g_D >= g_doc0) == (g_k * SI - 1 >= g_cnt0));
        VP_ASSUME((g_F > g_pos0) == (g_k * SI - 1 > g_cnt0));
#else
        /* small posting list: document of posting i is PD(i) */
        { dD = PDv[g_k * SI - 2] - g_lD; dF = PFv[g_k * SI - 1] - g_lF; g_D = g_lD + dD; g_F += dF; } g_P += dP;
#endif
        if (g_D < g_to) { g_m = g_k; g_mD = g_D; g_mF = g_F; g_mP = g_P; }
        g_ph = 1; return dD;
    }
    if (g_ph == 1) { g_ph = 2; return (unsigned)dF; }
    g_ph = 0; return (unsigned)dP;
}
static bool snext(TermDocEnum *t)
{
    int gap;
    VP_ASSERT(!g_end && (g_nx == 0 || S.doc_num < g_to), "the scan stops at the first document at or beyond the target");
    if (vp_bool()) { g_end = 1; return false; }
    gap = (int)vp_range(0, VP_SZ(1000000000, 3)); VP_ASSUME(gap <= 2000000000 - S.doc_num);
    S.doc_num += gap; g_nx = 1; return true;
}
HARNESS
{
    bool r; int df, passed;
    memset(&S, 0, sizeof(S)); ((TermDocEnum *)&S)->next = snext; S.seek_prox = sprox; S.frq_in = (InStream *)&FRQ; S.skip_interval = SI;
    sought = psought = cloned = sseek = g_it = g_ph = g_nx = g_end = 0;
    df = (int)vp_range(1, VP_SZ(10000000, SI * 2 + 1)); g_ns = df / SI; S.doc_freq = df; S.num_skips = g_ns; g_sk = vp_range(0, 1000); S.skip_ptr = g_sk;
    g_cnt0 = (int)vp_range(0, df); g_Q = g_cnt0 / SI; g_R = g_cnt0 % SI;
#ifdef VP_PROOF
    g_doc0 = (int)vp_range(0, 2000000000); VP_ASSUME(g_cnt0 > 0 || g_doc0 == 0);
    g_pos0 = (long)vp_range(0, 2000000000);
    g_c = (int)vp_range(0, g_ns); VP_ASSUME(g_c <= g_Q + 1);
    g_D = (int)vp_range(0, 2000000000); g_F = (long)vp_range(0, 2000000000); g_P = (long)vp_range(0, 2000000000);
    if (g_c == 0) VP_ASSUME(g_D == 0 && g_F <= g_pos0); else VP_ASSUME((g_D >= g_doc0) == (g_c * SI - 1 >= g_cnt0) && (g_F > g_pos0) == (g_c * SI - 1 > g_cnt0));
#else
    { int i; for (i = 0; i < df; i++) { PDv[i] = (i ? PDv[i - 1] + 1 : 0) + (int)vp_range(0, 2); PFv[i] = i ? PFv[i - 1] + (int)vp_range(1, 2) : 5; } PFv[df] = PFv[df - 1] + 1; }
    g_doc0 = g_cnt0 ? PDv[g_cnt0 - 1] : 0; g_pos0 = PFv[g_cnt0];
    g_c = (int)vp_range(0, g_Q + 1); if (g_c > g_ns) g_c = g_ns;
    g_D = g_c ? PDv[g_c * SI - 2] : 0; g_F = g_c ? PFv[g_c * SI - 1] : 5; g_P = 7;
#endif
    g_k = g_c; S.skip_count = g_c; S.skip_doc = g_D; S.frq_ptr = g_F; S.prx_ptr = g_P; S.count = g_cnt0; S.doc_num = g_doc0; S.have_skipped = g_c > 0; S.skip_in = g_c > 0 ? (InStream *)&SKP : NULL;
    g_to = (int)vp_range(0, VP_SZ(2000000000, SI * 6)); g_m = -1; if (g_D < g_to) { g_m = g_c; g_mD = g_D; g_mF = g_F; g_mP = g_P; }
    r = stde_skip_to((TermDocEnum *)&S, g_to);
    passed = df >= SI && g_to > g_doc0 && g_m >= 1 && g_mF > g_pos0;
    VP_ASSERT(sought == passed && psought == passed, "postings are skipped exactly if a skip entry beyond the current posting lies before the target");
    VP_ASSERT(S.count == (passed ? g_m * SI - 1 : g_cnt0), "the count of postings read so far follows the skip");
    VP_ASSERT(r == !g_end && (!r || S.doc_num >= g_to), "the document found is at or beyond the target");
    VP_REACH("done");
}
