/*VP{
"property":"P13",
"title":"the documents of the merged segments are numbered consecutively, deleted ones left out",
"functions":["smi_load_doc_map","sm_create","smi_new","smi_lt"],
"variants":[{"name":"map","defs":["OP=0"],"prune":{"src/index.c":["&","smi_load_doc_map"]},"replace":["frt_bv_get:vp_bvget"],
"loops":[{"file":"src/index.c","func":"smi_load_doc_map","loop":0,"of":1,"text":"__CPROVER_assigns(i, j, g_next, g_live, g_dw, g_rank, __CPROVER_object_whole(smi->doc_map)) __CPROVER_loop_invariant(i >= 0 && i <= max_doc && j >= 0 && j <= i && g_next == i && g_live == j && (g_w < i ==> (g_dw == 0 || g_dw == 1) && smi->doc_map[g_w] == (g_dw ? -1 : g_rank)))"}]},
{"name":"base","defs":["OP=1","NSEG=3"],"prune":{"src/index.c":["&","sm_create"]},"replace":["smi_new:vp_smi"],"limit":"3 segments","proof":{"unwind":5}},
{"name":"open","defs":["OP=2"],"prune":{"src/index.c":["&","smi_new"]},"replace":["bv_read:vp_bvread","smi_load_doc_map:vp_map","frt_fn_for_generation:vp_fn","frt_open_cmpd_store:vp_cmpd"],"nobits":["src/index.c"]},
{"name":"order","defs":["OP=3"],"prune":{"src/index.c":["&","smi_lt"]}}],
"proof":{"unwind":5},
"bounded":{"K":4,"unwind":7}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include <string.h>
static int g_w, g_next, g_live, g_dw, g_rank;
#if OP == 3
static int g_cmp; static const char TA[4], TB[4];
#define strcmp(a, b) vp_cmp(a, b)
static int vp_cmp(const char *a, const char *b) { return a == b ? 0 : a == TA ? g_cmp : -g_cmp; }
#endif
#include "index.c"
#if OP == 0
int vp_bvget(BitVector *bv, int bit) { int d = vp_bool(); VP_ASSERT(bv == (BitVector *)&g_w && bit == g_next, "every document is looked at once"); if (bit == g_w) { g_dw = d; g_rank = g_live; } g_next++; if (!d) g_live++; return d; }
#elif OP == 1
static Store ST[4]; static SegmentInfo SI[4], *sip[4]; static SegmentMergeInfo M[4]; static int n_new;
SegmentMergeInfo *vp_smi(int base, Store *st, SegmentInfo *si) { int k = n_new++; VP_ASSERT(k < 4 && si == &SI[k] && st == &ST[k], "each segment in turn, from its own store"); M[k].base = base; M[k].doc_cnt = (int)vp_range(0, 1000000); return &M[k]; }
#elif OP == 2
static Store ST, CST; static char last; static int n_read, n_map, cfs; static BitVector BV; static u64 g_docs;
#ifdef VP_NATIVE
static int strstr_fdx(const char *n) { return strcmp(n, "_1.fdx") == 0; }
#else
static int strstr_fdx(const char *n) { return n[0] == 'f' && n[1] == 'd' && n[2] == 'x'; }
int sprintf(char *b, const char *f, ...) { b[0] = f[3]; b[1] = f[4]; b[2] = f[5]; b[3] = 0; return 3; }
#endif
char *vp_fn(char *b, const char *base, const char *ext, i64 gen) { VP_ASSERT(gen == 7 && ext[0] == 'd', "the current deletions file"); b[0] = 'D'; b[1] = 0; return b; }
static int ex(Store *s, const char *n) { VP_ASSERT(s == &ST, "the segment's store"); return cfs; }
static off_t len(Store *s, const char *n) { VP_ASSERT(s == (cfs ? &CST : &ST), "members of a compound file are read from it"); VP_ASSERT(strstr_fdx(n), "the document index"); return (off_t)g_docs * 12; }
Store *vp_cmpd(Store *s, const char *n) { VP_ASSERT(s == &ST && cfs, "only when there is one"); return &CST; }
BitVector *vp_bvread(Store *s, char *n) { VP_ASSERT(s == &ST && n[0] == 'D', "deletions lie outside the compound file"); n_read++; return &BV; }
void vp_map(SegmentMergeInfo *smi) { VP_ASSERT(smi->deleted_docs == &BV && smi->max_doc == (int)g_docs, "the map is made from the deletions"); n_map++; smi->doc_cnt = 1; }
#endif
HARNESS
{
#if OP == 0
    SegmentMergeInfo m; int n = (int)vp_range(0, VP_SZ(1 << 28, 4)); g_w = (int)vp_range(0, VP_SZ(1 << 28, 4)); VP_ASSUME(g_w < n || n == 0); if (n == 0) g_w = 0x7fffffff;
    g_next = g_live = g_rank = 0; g_dw = -1; m.max_doc = n; m.deleted_docs = (BitVector *)&g_w; m.doc_cnt = n; m.doc_map = NULL;
    smi_load_doc_map(&m);
    VP_ASSERT(g_next == n && m.doc_cnt == g_live && m.max_doc == n, "the count is that of the documents that are left");
    if (n) VP_ASSERT(m.doc_map[g_w] == (g_dw ? -1 : g_rank), "a document is numbered by how many remain before it, a deleted one has no number");
#elif OP == 1
    IndexWriter iw; SegmentMerger *sm; SegmentInfo si; int n = NSEG, i, sum = 0; n_new = 0;
    for (i = 0; i < 4; i++) { SI[i].store = &ST[i]; sip[i] = &SI[i]; }
    sm = sm_create(&iw, &si, sip, n);
    VP_ASSERT(n_new == n && sm->seg_cnt == n && sm->si == &si && sm->store == iw.store && sm->fis == iw.fis && sm->config == &iw.config, "a merger of exactly these segments");
    for (i = 0; i < n; i++) { VP_ASSERT(sm->smis[i] == &M[i] && M[i].base == sum, "each segment starts where the ones before it end"); sum += M[i].doc_cnt; }
    VP_ASSERT(sm->doc_cnt == sum, "the merged segment has all of them");
#elif OP == 2
    SegmentInfo si; SegmentMergeInfo *m; char nm[4] = "_1"; int del = vp_bool(), base = (int)vp_range(0, 1 << 30); cfs = vp_bool(); n_read = n_map = 0; g_docs = vp_range(0, 1 << 28);
    si.name = nm; si.del_gen = del ? 7 : -1; ST.exists = ex; ST.length = len; CST.length = len; CST.exists = NULL;
    m = smi_new(base, &ST, &si);
    VP_ASSERT(m->base == base && m->si == &si && m->max_doc == (int)g_docs && m->orig_store == &ST && m->store == (cfs ? &CST : &ST), "one entry of the document index per document");
    VP_ASSERT(n_read == del && n_map == del && (del ? m->deleted_docs == &BV : m->deleted_docs == NULL && m->doc_map == NULL && m->doc_cnt == (int)g_docs), "deletions are taken into account");
#else
    SegmentMergeInfo a, b; int same = vp_bool(); g_cmp = vp_bool() ? 1 : -1; a.base = vp_int(); b.base = vp_int(); a.term = (char *)TA; b.term = (char *)(same ? TA : TB);
    VP_ASSERT(smi_lt(&a, &b) == (same ? a.base < b.base : g_cmp < 0), "by term, then by segment");
#endif
    VP_REACH("done");
}
