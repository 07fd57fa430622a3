/*VP{
"property":"P13","also":["P10"],
"title":"merging the dictionaries writes every term of every segment once, in order, with the postings of all segments that have it",
"functions":["sm_merge_term_infos","sm_merge_term_info","sm_cache_term","smi_next","smi_lt"],
"variants":[{"name":"terms","defs":["OP=0"],"prune":{"src/index.c":["&","sm_merge_term_infos","smi_lt"]},"limit":"2 segments with at most 2 terms and 1 term, one field","proof":{"unwind":4},
"replace":["smi_load_term_input:vp_load","smi_close_term_input:vp_unload","ste_set_field:vp_setf","ste_next:vp_snext","frt_tiw_start_field:vp_start","sm_merge_term_info:vp_info"]},
{"name":"info","defs":["OP=2"],"prune":{"src/index.c":["&","sm_merge_term_info"]},"replace":["frt_tiw_add:vp_add","sm_append_postings:vp_app","skip_buf_write:vp_skipw","sm_cache_term:vp_cache"]},
{"name":"cache","defs":["OP=1"],"prune":{"src/index.c":["&","sm_cache_term"]}}],
"proof":{"unwind":6},
"bounded":{"K":3,"unwind":6}
}VP*/
#define VP_FREE_PTR
#define VP_WATCH_W 1
#if OP == 0
#define VP_EXACT_MEM
#endif
#include "env.h"
#include <string.h>
#if OP == 0
#define strcmp(a, b) ((int)(unsigned char)(a)[0] - (int)(unsigned char)(b)[0])
#endif
#include "index.c"
#if OP == 0
static SegmentMergeInfo M[2]; static SegmentTermEnum E[2]; static char TM[2][2][2]; static int nt[2], at[2], lastt, nload, started; static PriorityQueue Q; static SegmentMergeInfo *H[3];
#define now(k) (at[k] >= 0 && at[k] < nt[k] ? (int)TM[k][at[k]][0] : 0)
void vp_load(SegmentMergeInfo *s) { nload += s == &M[0] ? 1 : 16; } void vp_unload(SegmentMergeInfo *s) { nload -= s == &M[0] ? 1 : 16; }
TermEnum *vp_setf(TermEnum *te, int f) { int k = te == TE(&E[1]); VP_ASSERT(f == 0 && nload == 17 && at[k] == -2, "every segment starts at the field"); at[k] = -1; return te; }
char *vp_snext(TermEnum *te) { int k = te == TE(&E[1]); VP_ASSERT(at[k] >= -1 && at[k] < nt[k], "not past the end"); VP_ASSERT(at[k] == -1 || now(k) <= lastt, "no term is passed over"); at[k]++; return at[k] < nt[k] ? TM[k][at[k]] : NULL; }
void vp_start(TermInfosWriter *t, int f) { VP_ASSERT(f == 0 && !started, "each field once"); started = 1; }
void vp_info(SegmentMerger *sm, SegmentMergeInfo **m, int n)
{
    int a = now(0), b = now(1), lo; VP_ASSERT(started && (a || b), "while there are terms");
    lo = !b || (a && a <= b) ? a : b;
    if (a == b) VP_ASSERT(n == 2 && m[0] == &M[0] && m[1] == &M[1], "all segments that have the term, in order");
    else VP_ASSERT(n == 1 && m[0] == (lo == a ? &M[0] : &M[1]), "the segment that has the least term");
    VP_ASSERT(lo > lastt, "the terms ascend"); lastt = lo;
}
void frt_pq_push(PriorityQueue *q, void *e) { int k = q->size; VP_ASSERT(q == &Q && k < 2, "room"); if (k && smi_lt(e, H[0])) { H[1] = H[0]; H[0] = e; } else H[k] = e; q->size++; }
void *frt_pq_pop(PriorityQueue *q) { void *r = H[0]; if (!q->size) return NULL; H[0] = H[1]; q->size--; return r; }
void *frt_pq_top(PriorityQueue *q) { return q->size ? H[0] : NULL; }
#elif OP == 2
static SegmentMergeInfo M[2], *mp[2]; static SegmentTermEnum E[2]; static char F, P, T0, T1; static int df, step, n0; static off_t fpos, ppos, spos, f0, p0_;
int vp_app(SegmentMerger *sm, SegmentMergeInfo **m, const int n) { VP_ASSERT(step == 0 && m == mp && n == n0, "the postings of the matching segments"); f0 = fpos; p0_ = ppos; fpos += 5; ppos += 7; df = (int)vp_range(0, 0x7fffffff); step = 1; return df; }
off_t vp_skipw(SkipBuffer *s) { VP_ASSERT(step == 1, "the skip entries follow the postings"); spos = fpos; fpos += 3; step = df > 0 ? 2 : 4; return spos; }
char *vp_cache(SegmentMerger *sm, char *t, int len) { VP_ASSERT(t == &T0 && len == TE(&E[0])->curr_term_len, "the term"); return &T1; }
void vp_add(TermInfosWriter *t, const char *term, int len, TermInfo *ti) { VP_ASSERT(step == 2, "a term is added when a document is left"); VP_ASSERT(len == TE(&E[0])->curr_term_len && term == &T1, "with its text, kept"); VP_ASSERT(ti->doc_freq == df && ti->frq_ptr == f0 && ti->prx_ptr == p0_ && ti->skip_offset == spos - f0, "and where its postings start"); step = 4; }
off_t frt_os_pos(OutStream *os) { return os == (OutStream *)&F ? fpos : ppos; }
#endif
HARNESS
{
    SegmentMerger sm;
#if OP == 0
    SegmentMergeInfo *sp[2]; FieldInfos fs; int i;
    for (i = 0; i < 2; i++) { sp[i] = &M[i]; M[i].te = TE(&E[i]); E[i].te.curr_term_len = 1; M[i].base = i * 10; M[i].term = NULL; nt[i] = (int)vp_range(0, 2 - i); at[i] = -2; TM[i][0][0] = (char)vp_range(1, 4); TM[i][1][0] = (char)vp_range(1, 4); TM[i][0][1] = TM[i][1][1] = 0; VP_ASSUME(TM[i][0][0] < TM[i][1][0]); }
    fs.size = 1; sm.fis = &fs; sm.smis = sp; sm.seg_cnt = 2; sm.queue = &Q; Q.size = 0; nload = started = lastt = 0;
    sm_merge_term_infos(&sm);
    VP_ASSERT(nload == 0 && started && !now(0) && !now(1) && at[0] >= 0 && at[1] >= 0, "all terms of all segments are merged");
#elif OP == 2
    int i; for (i = 0; i < 2; i++) { mp[i] = &M[i]; M[i].te = TE(&E[i]); } M[0].term = &T0; TE(&E[0])->curr_term_len = (int)vp_range(0, 254); n0 = (int)vp_range(1, 2); sm.frq_out = (OutStream *)&F; sm.prx_out = (OutStream *)&P; fpos = (off_t)vp_range(0, 1ll << 40); ppos = (off_t)vp_range(0, 1ll << 40); step = 0;
    sm_merge_term_info(&sm, mp, n0); VP_ASSERT(step == 4, "a term is added exactly when a document is left");
#else
    int iv = (int)vp_range(1, VP_SZ(100000, 3)), sz = (iv + 1) * MAX_WORD_SIZE, p0, len = (int)vp_range(0, MAX_WORD_SIZE - 1), w = (int)vp_range(0, MAX_WORD_SIZE - 1), o = (int)vp_range(0, VP_SZ(30000000, 1300)); char t[MAX_WORD_SIZE + 1], *r, old; VP_ASSUME(w <= len);
    sm.term_buf_size = sz; sm.term_buf = (char *)malloc((size_t)sz + MAX_WORD_SIZE); p0 = (int)vp_range(0, VP_SZ(30000000, 1300)); VP_ASSUME(p0 <= sz && o < sz + MAX_WORD_SIZE); sm.term_buf_ptr = p0;
    { int i; for (i = 0; i < 5; i++) t[i] = 'x'; } t[w] = 'q'; sm.term_buf[o] = old = 'z'; vp_watch(o); vp_watch((long long)w); vp_watch((long long)p0 + w);
    r = sm_cache_term(&sm, t, len);
    VP_ASSERT(r[w] == 'q', "the term is copied with its terminator"); VP_ASSERT(r >= sm.term_buf && r + len + 1 <= sm.term_buf + sz + MAX_WORD_SIZE, "inside the buffer");
    VP_ASSERT(r == sm.term_buf + p0 && sm.term_buf_ptr >= 0 && sm.term_buf_ptr <= sz && (sm.term_buf_ptr == p0 + len + 1 || (sm.term_buf_ptr == 0 && p0 + len + 1 > sz)), "the buffer is used in turn");
    if (o < p0 || o > p0 + len) VP_ASSERT(sm.term_buf[o] == old, "the other terms stay");
#endif
    VP_REACH("done");
}
