/*VP{
"property":"P18",
"title":"flushing and merging switch to the new list of segments before any file of the old one is removed",
"functions":["iw_merge_segments","iw_flush_ram_segment","sis_del_from_to","sis_del_at","sis_clear","iw_commit_i","ir_commit_i"],
"variants":[{"name":"merge","defs":["OP=0"],"prune":{"src/index.c":["&","iw_merge_segments"]},
"replace":["frt_sis_new_segment:vp_newseg","sm_create:vp_smc","sm_merge:vp_smm","sm_destroy:vp_smd","si_delete_files:vp_sidel","iw_commit_compound_file:vp_cfs","frt_sis_write:vp_write","deleter_commit_pending_deletions:vp_pending","frt_sis_del_from_to:vp_dft"],
"loops":[{"file":"src/index.c","func":"iw_merge_segments","loop":0,"of":1,"text":"__CPROVER_assigns(i, g_q, g_qw) __CPROVER_loop_invariant(i >= min_seg && i <= max_seg && g_q == i - min_seg && g_qw >= 0 && g_qw <= g_q && (g_w >= min_seg && g_w < i ==> g_qw >= 1))"}]},
{"name":"drop","defs":["OP=1"],"prune":{"src/index.c":["&","sis_del_from_to","sis_del_at","sis_clear"]},"replace":["frt_si_deref:vp_deref"],
"loops":[{"file":"src/index.c","func":"sis_del_from_to","loop":0,"of":2,"text":"__CPROVER_assigns(i, g_q, g_qw) __CPROVER_loop_invariant(i >= from && i <= to && g_q == i - from && g_qw >= 0 && g_qw <= g_q && (g_w >= from && g_w < i ==> g_qw >= 1))"},
{"file":"src/index.c","func":"sis_del_from_to","loop":1,"of":2,"text":"__CPROVER_assigns(i, __CPROVER_object_whole(sis->segs)) __CPROVER_loop_invariant(i >= from && (i <= sis_size || i == from) && (g_w < from ==> sis->segs[g_w] == (void *)g_p) && (g_w >= from && g_w < i && g_w + num_to_del < g_n ==> sis->segs[g_w] == (void *)g_p2) && (g_w + num_to_del >= i && g_w + num_to_del >= from && g_w + num_to_del < g_n ==> sis->segs[g_w + num_to_del] == (void *)g_p2))"},
{"file":"src/index.c","func":"sis_del_at","loop":0,"of":1,"text":"__CPROVER_assigns(i, __CPROVER_object_whole(sis->segs)) __CPROVER_loop_invariant(i >= at && (i <= sis_size || i == at) && (g_w < at ==> sis->segs[g_w] == (void *)g_p) && (g_w >= at && g_w < i && g_w + 1 < g_n ==> sis->segs[g_w] == (void *)g_p2) && (g_w + 1 >= i && g_w + 1 > at && g_w + 1 < g_n ==> sis->segs[g_w + 1] == (void *)g_p2))"},
{"file":"src/index.c","func":"sis_clear","loop":0,"of":1,"text":"__CPROVER_assigns(i, g_q, g_qw) __CPROVER_loop_invariant(i >= 0 && i <= sis_size && g_q == i && g_qw >= 0 && g_qw <= g_q)"}]},
{"name":"flush","defs":["OP=2","RD=0"],"prune":{"src/index.c":["&","iw_commit_i"]},
"replace":["dw_flush:vp_dwf","iw_commit_compound_file:vp_cfs","frt_sis_write:vp_write","deleter_commit_pending_deletions:vp_pending","iw_maybe_merge_segments:vp_mm","frt_sis_curr_seg_file_name:vp_cur","frt_deleter_delete_file:vp_delf","frt_deleter_new:vp_dnew"]},
{"name":"reader","defs":["OP=2","RD=1"],"prune":{"src/index.c":["&","ir_commit_i"]},
"replace":["frt_sis_write:vp_write","frt_sis_curr_seg_file_name:vp_cur","frt_deleter_delete_file:vp_delf","frt_deleter_new:vp_dnew"]}],
"proof":{"unwind":4},
"bounded":{"K":3,"unwind":5}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "index.h"
#include "internal.h"
static int g_w, g_q, g_qw, g_n; static void *g_p, *g_p2;
#include "index.c"
static IndexWriter IW; static SegmentInfos SIS; static SegmentInfo NSI; static Deleter DL; static Store ST; static SegmentMerger SM; static FieldInfos FIS; static DocWriter DW;
static int phase, mn, mx, cfs, md;
#if OP == 0
SegmentInfo *vp_newseg(SegmentInfos *s, int dc, Store *st) { VP_ASSERT(s == &SIS && st == &ST && phase == 0, "a new segment"); phase = 1; SIS.size++; return &NSI; }
SegmentMerger *vp_smc(IndexWriter *iw, SegmentInfo *si, SegmentInfo **l, int n) { VP_ASSERT(si == &NSI && l == SIS.segs + mn && n == mx - mn && phase == 1, "the segments to merge"); phase = 2; return &SM; }
int vp_smm(SegmentMerger *m) { VP_ASSERT(phase == 2, "merged"); phase = 3; return md; }
void vp_smd(SegmentMerger *m) { VP_ASSERT(phase == 7, "released at the end"); phase = 8; }
void vp_sidel(SegmentInfo *si, FieldInfos *f, Deleter *d) { VP_ASSERT(phase == 3 && d == &DL, "the files of the merged segments are queued once the merge is complete"); if (si == (SegmentInfo *)g_p) g_qw++; g_q++; }
void vp_dft(SegmentInfos *s, int a, int b) { VP_ASSERT(phase == 3 && a == mn && b == mx && g_q == mx - mn, "the merged segments leave the list, the files of all of them queued"); phase = 4; SIS.size -= b - a; }
void vp_cfs(IndexWriter *iw, SegmentInfo *si) { VP_ASSERT(cfs && si == &NSI && phase == 4 && !si->use_compound_file, "the compound file of the new segment, built from its files"); phase = 5; }
void vp_write(SegmentInfos *s, Store *st, Deleter *d) { VP_ASSERT(s == &SIS && st == &ST && d == &DL && phase == (cfs ? 5 : 4) && NSI.doc_cnt == md && !NSI.use_compound_file == !cfs, "the new list is written when the new segment is complete"); phase = 6; }
void vp_pending(Deleter *d) { VP_ASSERT(phase == 6, "old files are removed only after the new list is written"); phase = 7; }
#elif OP == 1
void vp_deref(SegmentInfo *si) { g_q++; if (si == g_p) g_qw++; }
#else
void vp_dwf(DocWriter *dw) { VP_ASSERT(phase == 0 && NSI.doc_cnt == md, "the buffered documents"); phase = 1; }
void vp_cfs(IndexWriter *iw, SegmentInfo *si) { VP_ASSERT(cfs && si == &NSI && phase == 1 && !si->use_compound_file, "the compound file of the new segment"); phase = 2; }
static int rd; void vp_write(SegmentInfos *s, Store *st, Deleter *d) { VP_ASSERT(s == &SIS && st == &ST && d == &DL && (rd ? phase == 2 : phase == (cfs ? 2 : 1) && !NSI.use_compound_file == !cfs), "the list is written when all files are complete"); phase = 3; }
void vp_pending(Deleter *d) { VP_ASSERT(phase == 3, "files are removed only after the new list is written"); phase = 4; }
void vp_mm(IndexWriter *iw) { VP_ASSERT(phase == 4, "merging starts from the committed list"); phase = 5; }
char *vp_cur(char *b, Store *s) { VP_ASSERT(phase == 0, "the list in use before the commit"); phase = 1; b[0] = 'o'; b[1] = 0; return b; }
static void commit(IndexReader *ir) { VP_ASSERT(phase == (ir->is_owner ? 1 : 0), "the changes are written first"); phase = 2; }
void vp_delf(Deleter *d, char *n) { VP_ASSERT(phase == 3 && n[0] == 'o' && d == &DL, "the old list goes after the new one is written"); phase = 4; }
static int rel; static void release(Lock *l) { VP_ASSERT(phase == 4, "the lock is held until the commit is complete"); rel++; } void frt_close_lock(Lock *l) { rel++; }
Deleter *vp_dnew(SegmentInfos *s, Store *st) { VP_ASSERT(s == &SIS && st == &ST, "deleter"); return &DL; } static void setdel(IndexReader *ir, Deleter *d) { ir->deleter = d; }
#endif
int pthread_mutex_lock(pthread_mutex_t *m) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { return 0; }
HARNESS
{
    phase = 0; g_q = g_qw = 0;
#if OP == 0
    int n = (int)vp_range(1, VP_SZ(100000000, 4)); mn = (int)vp_range(0, VP_SZ(100000000, 4)); mx = (int)vp_range(0, VP_SZ(100000000, 4)); VP_ASSUME(mn <= mx && mx <= n); g_w = (int)vp_range(0, VP_SZ(100000000, 4)); VP_ASSUME(g_w < n);
    SIS.segs = (SegmentInfo **)malloc(sizeof(SegmentInfo *) * (size_t)n); SIS.size = n; g_p = SIS.segs[g_w]; md = (int)vp_range(0, 1000000); cfs = vp_bool(); NSI.use_compound_file = 0; NSI.doc_cnt = 0;
    IW.sis = &SIS; IW.store = &ST; IW.deleter = &DL; IW.fis = &FIS; IW.config.use_compound_file = cfs;
    iw_merge_segments(&IW, mn, mx);
    VP_ASSERT(!(g_w >= mn && g_w < mx) || g_qw >= 1, "every merged segment's files are given up"); VP_ASSERT(phase == 8 && SIS.size == n + 1 - (mx - mn), "complete");
#elif OP == 1
    int a, b, op = (int)vp_range(0, 2), d; g_n = (int)vp_range(0, VP_SZ(100000000, 4)); a = (int)vp_range(0, VP_SZ(100000000, 4)); b = (int)vp_range(0, VP_SZ(100000000, 4)); VP_ASSUME(a <= b && b <= g_n); if (op == 1) { VP_ASSUME(a < g_n); b = a + 1; }
    SIS.segs = (SegmentInfo **)malloc(sizeof(SegmentInfo *) * (size_t)(g_n + 1)); SIS.size = g_n; g_w = (int)vp_range(0, VP_SZ(100000000, 4)); VP_ASSUME(g_w < g_n); d = b - a; g_p = SIS.segs[g_w]; g_p2 = g_w + d < g_n ? SIS.segs[g_w + d] : NULL;
    if (op == 0) sis_del_from_to(&SIS, a, b); else if (op == 1) sis_del_at(&SIS, a); else { sis_clear(&SIS); VP_ASSERT(SIS.size == 0 && g_q == g_n, "all segments are released"); return; }
    VP_ASSERT(SIS.size == g_n - d && g_q == d, "as many segments leave the list as asked for, each released");
    if (g_w >= a && g_w < b) VP_ASSERT(g_qw >= 1, "the ones named");
    if (g_w < SIS.size) VP_ASSERT(SIS.segs[g_w] == (g_w < a ? g_p : g_p2), "the others stay, in order");
#else
    int n = vp_bool() ? 1 : 2; SegmentInfo *l[2], oth; md = (int)vp_range(0, 1000); cfs = vp_bool(); l[0] = &oth; l[n - 1] = &NSI; SIS.segs = l; SIS.size = n; NSI.doc_cnt = 0; NSI.use_compound_file = 0; rd = RD;
#if !RD
    { int nodw = vp_bool(); IW.sis = &SIS; IW.store = &ST; IW.deleter = &DL; IW.config.use_compound_file = cfs; IW.dw = nodw ? NULL : &DW; DW.doc_num = md;
        iw_commit_i(&IW); VP_ASSERT(phase == (nodw || md == 0 ? 0 : 5), "buffered documents become a segment"); }
#else
    { IndexReader R; Lock lk; int ch = vp_bool(), own = vp_bool(), hd = vp_bool(), hl = vp_bool(); rel = 0; R.has_changes = ch; R.is_owner = own; R.deleter = hd ? &DL : NULL; R.store = &ST; R.sis = &SIS; R.commit_i = commit; R.set_deleter_i = setdel; R.write_lock = hl ? &lk : NULL; lk.release = release;
        ir_commit_i(&R); VP_ASSERT(phase == (!ch ? 0 : own ? 4 : 2) && !R.has_changes && rel == (ch && own && hl ? 2 : 0) && (!(ch && own) || R.write_lock == NULL), "changes are committed, then the lock is given back"); }
#endif
#endif
    VP_REACH("done");
}
