/*VP{
"property":"P13","also":["P11"],
"title":"merging a term's postings writes every remaining document of every segment with its merged number, frequency, positions and skip entries",
"functions":["sm_append_postings"],
"prune":{"src/index.c":["&","sm_append_postings"]},
"replace":["stde_next:vp_next","stpe_seek_ti:vp_seek","skip_buf_reset:vp_reset","skip_buf_add:vp_skipadd","frt_is2os_copy_vints:vp_copy"],
"loops":[{"file":"src/index.c","func":"sm_append_postings","loop":0,"of":2,"text":"__CPROVER_assigns(i, smi, base, doc_map, tde, doc, df, doc_code, last_doc, freq, G, H, T[0].doc_num, T[0].freq, T[1].doc_num, T[1].freq) __CPROVER_loop_invariant(i >= 0 && i <= match_size && g_seg == i && g_phase == 0 && g_last == last_doc && g_cnt == df && g_skip == 0 && df >= 0 && last_doc >= 0 && (df == 0 ==> last_doc == 0) && df <= last_doc + 1 && (i > 0 ==> g_end) && (i == 0 ==> df == 0) && (i > 0 ==> g_top == g_tops[i - 1] && df <= g_top && last_doc < g_top + (g_top == 0)))"},
{"file":"src/index.c","func":"sm_append_postings","loop":1,"of":2,"text":"__CPROVER_assigns(doc, df, doc_code, last_doc, freq, G, T[0].doc_num, T[0].freq, T[1].doc_num, T[1].freq) __CPROVER_loop_invariant(g_phase == 0 && g_last == last_doc && g_cnt == df && g_skip == 0 && df >= 0 && g_cur >= -1 && g_cur < g_max && last_doc >= 0 && last_doc < 0x3fffffff && (df == 0 ==> last_doc == 0) && df <= last_doc + 1 && df <= g_top && last_doc < g_top + (g_top == 0) && !g_end)"}],
"variants":[{"name":"i2","defs":["IV=2"]},{"name":"i16","defs":["IV=16"]}],
"limit":"skip intervals 2 and 16; at most 2 segments (any number of documents)",
"proof":{"unwind":20},
"bounded":{"K":3,"unwind":5}
}VP*/
#define VP_FREE_PTR
#include "env.h"
static struct { int phase, last, cnt, exp, frq, cur, skip, end; } G; static struct { int max, top, seg; } H; static int g_iv, g_tops[2];
#define g_max H.max
#define g_top H.top
#define g_seg H.seg

#define g_phase G.phase
#define g_last G.last
#define g_cnt G.cnt
#define g_exp G.exp
#define g_frq G.frq
#define g_cur G.cur
#define g_skip G.skip
#define g_end G.end

#include "index.h"
#include "internal.h"
static SegmentTermDocEnum T[2];
#include "index.c"
static SegmentMergeInfo M[2]; static SegmentTermEnum E[2]; static char F, P, PI[2], SB;
void vp_reset(SkipBuffer *sb) { VP_ASSERT(sb == (SkipBuffer *)&SB && g_seg == 0 && g_phase == -1, "the skip entries of the last term go first"); g_phase = 0; }
void vp_seek(SegmentTermDocEnum *tde, TermInfo *ti)
{
    VP_ASSERT(g_phase == 0 && g_seg < 2 && tde == &T[g_seg] && ti == &TE(&E[g_seg])->curr_ti && (g_seg == 0 || g_end), "the segments in order, each at its term");
    g_cur = -1; g_end = 0; g_max = M[g_seg].max_doc; g_top = M[g_seg].base + M[g_seg].doc_cnt; g_seg++;
}
bool vp_next(TermDocEnum *tde)
{
    SegmentMergeInfo *m = &M[g_seg - 1]; int d, k;
    VP_ASSERT(tde == (TermDocEnum *)&T[g_seg - 1] && g_phase == 0 && !g_end, "one document after the other"); VP_ASSERT(g_skip == 0, "a skip entry belongs to a document");
    if (vp_bool()) { g_end = 1; return false; }
    d = (int)vp_range(0, 0x3fffffff); VP_ASSUME(d > g_cur && d < g_max); g_cur = d;
    k = m->doc_map ? m->doc_map[d] : d; VP_ASSUME(k >= 0 && k < m->doc_cnt && m->base + k + 1 > g_cnt && (g_cnt == 0 || m->base + k > g_last));  /* the map numbers the remaining documents in order: unit merge_map */
    g_exp = m->base + k; g_frq = (int)vp_range(1, 0x7fffffff); T[g_seg - 1].doc_num = d; T[g_seg - 1].freq = g_frq; g_phase = 1;
    if ((g_cnt + 1) % g_iv == 0) g_phase = 2;
    return true;
}
void vp_skipadd(SkipBuffer *sb, int doc) { VP_ASSERT(sb == (SkipBuffer *)&SB && g_phase == 2 && doc == g_last, "every skip-interval documents there is a skip entry with the document before it"); g_phase = 1; }
void frt_os_write_vint(OutStream *os, register unsigned int v)
{
    VP_ASSERT(os == (OutStream *)&F, "the frequency file");
    if (g_phase == 1) { VP_ASSERT((long)(v >> 1) + g_last == g_exp, "the document's number in the merged segment"); VP_ASSERT(!(v & 1) || g_frq == 1, "the flag says that the frequency is one"); g_phase = v & 1 ? 4 : 3; }
    else { VP_ASSERT(g_phase == 3 && v == (unsigned)g_frq, "then the frequency"); g_phase = 4; }
}
void vp_copy(InStream *is, OutStream *os, int n) { VP_ASSERT(g_phase == 4 && is == (InStream *)&PI[g_seg - 1] && os == (OutStream *)&P && n == g_frq, "then its positions are copied"); g_phase = 0; g_last = g_exp; g_cnt++; }
HARNESS
{
    SegmentMerger sm; Config c; SegmentMergeInfo *ms[2]; int n = (int)vp_range(1, 2), i, r, base = (int)vp_range(0, VP_SZ(0xfffffff, 3));
    sm.config = &c; c.skip_interval = g_iv = IV; sm.skip_buf = (SkipBuffer *)&SB; sm.frq_out = (OutStream *)&F; sm.prx_out = (OutStream *)&P;
    for (i = 0; i < 2; i++) { int md = (int)vp_range(0, VP_SZ(0xfffffff, 3)), dc = md;
        ms[i] = &M[i]; M[i].base = base; M[i].max_doc = md; M[i].doc_map = NULL; if (vp_bool()) { dc = (int)vp_range(0, md); M[i].doc_map = (int *)malloc(sizeof(int) * (size_t)(md + 1));
#ifndef VP_PROOF
            { int k, r = 0; for (k = 0; k < md; k++) M[i].doc_map[k] = vp_bool() ? r++ : -1; dc = r; }
#endif
        } M[i].doc_cnt = dc; g_tops[i] = base + dc; base += dc + (int)vp_range(0, 2);
        M[i].tde = (TermDocEnum *)&T[i]; M[i].te = TE(&E[i]); T[i].count = 1; T[i].prx_in = (InStream *)&PI[i]; }
    g_seg = 0; g_phase = -1; g_last = g_cnt = g_skip = g_end = 0; g_cur = -1; g_max = g_top = 0;
    r = sm_append_postings(&sm, ms, n);
    VP_ASSERT(g_phase == 0 && g_seg == n && g_end, "all segments are read to the end"); VP_ASSERT(r == g_cnt, "the document frequency");
    VP_REACH("done");
}
