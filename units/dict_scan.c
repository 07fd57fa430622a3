/*VP{
"property":"P10",
"title":"looking for a term stops at the first term that is not before it, wherever the enumeration stands; the n-th term is found from anywhere",
"functions":["ste_scan_to","te_skip_to","ste_get_term","ste_index_seek","sti_get_index_offset"],
"prune":{"src/index.c":["&","ste_scan_to","ste_get_term"]},
"replace":["ste_next:vp_snext"],
"loops":[{"file":"src/index.c","func":"te_skip_to","loop":0,"of":1,"text":"__CPROVER_assigns(curr_term, E.pos, G, E.te.curr_term_len, E.te.curr_ti.frq_ptr, *(int *)E.te.curr_term) __CPROVER_loop_invariant(E.pos >= -1 && E.pos < E.size && G.sp == E.pos + 1 && VAL(E.pos) < g_key && *(int *)E.te.curr_term == VAL(E.pos) && E.te.curr_ti.frq_ptr == 8 * (long)E.pos) __CPROVER_decreases(E.size - E.pos)"},
{"file":"src/index.c","func":"ste_get_term","loop":0,"of":1,"text":"__CPROVER_assigns(E.pos, G, E.te.curr_term_len, E.te.curr_ti.frq_ptr, *(int *)E.te.curr_term) __CPROVER_loop_invariant(E.pos >= -1 && E.pos <= pos && E.pos < E.size && G.sp == E.pos + 1 && *(int *)E.te.curr_term == VAL(E.pos) && E.te.curr_ti.frq_ptr == 8 * (long)E.pos) __CPROVER_decreases(pos - E.pos)"}],
"variants":[{"name":"scan1","defs":["OP=0","IV=1"]},{"name":"scan3","defs":["OP=0","IV=3"]},{"name":"scan128","defs":["OP=0","IV=128"]},{"name":"nth1","defs":["OP=1","IV=1"]},{"name":"nth3","defs":["OP=1","IV=3"]},{"name":"nth128","defs":["OP=1","IV=128"]}],
"limit":"index intervals 1, 3 and 128; at most 3 index entries",
"assume":["the terms are points of a total order"],
"proof":{"unwind":6},
"bounded":{"K":3,"unwind":6,"unwindset":"te_skip_to.0:12"}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "index.h"
#include "internal.h"
#define VAL(p) ((p) < 0 ? 0 : 4 * (p) + 5)
#define TX(p) (*(const int *)(p))
static SegmentTermEnum E; static struct { int sp; } G; static int g_key;
#define strcmp(a, b) (TX(a) < TX(b) ? -1 : TX(a) > TX(b))
#define memcpy(d, s, n) ((void)(n), *(int *)(void *)(d) = *(const int *)(const void *)(s))
#include "index.c"
#undef memcpy
static char IN; static SegmentTermIndex T; static SegmentFieldIndex F; static int txt[4];
void frt_is_seek(InStream *is, off_t p) { VP_ASSERT(is == (InStream *)&IN, "the dictionary"); G.sp = (int)p; }
char *vp_snext(TermEnum *te)
{
    VP_ASSERT(te == TE(&E), "the enumeration"); E.pos++;
    if (E.pos >= E.size) { *(int *)te->curr_term = 0; te->curr_term_len = 0; return NULL; }
    VP_ASSERT(G.sp == E.pos && *(int *)te->curr_term == VAL(E.pos - 1) && te->curr_ti.frq_ptr == 8 * (off_t)(E.pos - 1), "reading on from the term before");
    G.sp++; *(int *)te->curr_term = VAL(E.pos); te->curr_ti.frq_ptr = 8 * (off_t)E.pos; return te->curr_term;
}
void *frt_h_get_int(Hash *h, const unsigned long k) { VP_ASSERT(h == (Hash *)&T && k == 7, "the field"); return &T; }
void *frt_h_get(Hash *h, const void *k) { return frt_h_get_int(h, (unsigned long)k); }
HARNESS
{
    int sz = (int)vp_range(1, 3 * IV), p = (int)vp_range(-1, 3 * IV), i, lens[4], key; char *tp[4], *r; TermInfo tis[4]; off_t ptrs[4]; TermEnum *te = TE(&E);
#ifndef VP_PROOF
    if (sz > 7) sz = 7;
#endif
    VP_ASSUME(p <= sz); E.size = T.size = sz; T.index_cnt = (sz + IV - 1) / IV; F.index_interval = IV; F.field_dict = (Hash *)&T; E.sfi = &F; E.is = (InStream *)&IN; te->field_num = 7; te->next = vp_snext;
    for (i = 0; i < 4; i++) { txt[i] = VAL(i * IV - 1); tp[i] = (char *)&txt[i]; lens[i] = 3; tis[i].frq_ptr = 8 * ((off_t)i * IV - 1); tis[i].doc_freq = 1; tis[i].prx_ptr = tis[i].skip_offset = 0; ptrs[i] = i * IV; }
    T.index_terms = tp; T.index_term_lens = lens; T.index_term_infos = tis; T.index_ptrs = ptrs;
    /* anywhere: before the first term, on a term, or beyond the end */
    E.pos = p; *(int *)te->curr_term = p < sz ? VAL(p) : 0; te->curr_term_len = p < 0 || p >= sz ? 0 : 3; te->curr_ti.frq_ptr = 8 * (off_t)p; G.sp = p + 1;
#if OP == 0
    key = (int)vp_range(0, 4 * 3 * IV + 9); VP_ASSUME(key == 0 || key % 2 == 1); g_key = key;
    r = ste_scan_to(te, (const char *)&key);
    if (r) { VP_ASSERT(r == te->curr_term && E.pos >= 0 && E.pos < sz && *(int *)r == VAL(E.pos), "on a term"); VP_ASSERT(VAL(E.pos) >= key && (E.pos == 0 || VAL(E.pos - 1) < key), "the first that is not before the one looked for"); VP_ASSERT(te->curr_ti.frq_ptr == 8 * (off_t)E.pos && G.sp == E.pos + 1, "with its postings"); }
    else VP_ASSERT(VAL(sz - 1) < key, "no term is left that is not before it");
#else
    key = (int)vp_range(0, 3 * IV + 5); g_key = 0;
    r = ste_get_term(te, key);
    if (key >= sz) VP_ASSERT(r == NULL, "no such term");
    else VP_ASSERT(r == te->curr_term && E.pos == key && *(int *)r == VAL(key) && te->curr_ti.frq_ptr == 8 * (off_t)key && G.sp == key + 1, "the term of that number, with its postings");
#endif
    VP_REACH("done");
}
