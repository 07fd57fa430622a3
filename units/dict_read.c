/*VP{
"property":"P10",
"title":"reading a term gives the start of the last one with the new rest, its frequency and where its postings are; the index entry at or before a term is found; a field starts at its first term; counting beyond the last term ends the field",
"functions":["ste_next","term_read","ste_reset","ste_set_field","ste_index_seek","sti_get_index_offset","te_get_term","te_get_ti","ste_new","ste_clone","ste_allocate","ste_close"],
"prune":{"src/index.c":["&","ste_next","ste_reset","ste_set_field","ste_index_seek","sti_get_index_offset","te_get_term","te_get_ti","ste_new","ste_clone","ste_close"]},
"variants":[{"name":"next","defs":["OP=0"],"proof":{"unwind":11},"limit":"term buffers of 8 bytes"},{"name":"pos","defs":["OP=1"],"proof":{"unwind":11},"limit":"term buffers of 8 bytes"},
{"name":"find","defs":["OP=2"],"loops":[{"file":"src/index.c","func":"sti_get_index_offset","loop":0,"of":1,"text":"__CPROVER_assigns(lo, hi, mid, delta) __CPROVER_loop_invariant(lo >= 0 && hi >= -1 && hi < sti->index_cnt && lo <= hi + 1 && (lo > 0 ==> (unsigned long)index_terms[lo - 1] < (unsigned long)term) && (hi < sti->index_cnt - 1 ==> (unsigned long)index_terms[hi + 1] > (unsigned long)term)) __CPROVER_decreases(hi - lo + 1)"}]},
{"name":"new","defs":["OP=3"]}],
"assume":["find: the terms are compared as points of an arbitrary total order (strcmp is one)"],
"proof":{"unwind":8},
"bounded":{"K":3,"unwind":11}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#if OP < 2
#undef FRT_MAX_WORD_SIZE
#define FRT_MAX_WORD_SIZE 8
#endif
#if OP < 2 && !defined(VP_NATIVE)
static void *vp_cp(char *d, const char *s, size_t n) { int k; VP_ASSERT(n <= 9 && __CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copies stay inside"); for (k = 0; k < 9; k++) if ((size_t)k < n) d[k] = s[k]; return d; }
#define memcpy(d, s, n) (__builtin_constant_p(n) ? (memcpy)((d), (s), (n)) : vp_cp((char *)(d), (const char *)(s), (n)))
#elif OP == 2
#include <string.h>
#define strcmp(a, b) ((unsigned long)(a) < (unsigned long)(b) ? -1 : (unsigned long)(a) > (unsigned long)(b))
#endif
#include "index.c"
#if OP == 0
static char IN, D[9]; static int step, st, ln, df, sk; static off_t fd, pd, so;
unsigned int frt_is_read_vint(InStream *is) { VP_ASSERT(is == (InStream *)&IN, "the dictionary"); step++; if (step == 1) return (unsigned)st; if (step == 2) return (unsigned)ln; VP_ASSERT(step == 4, "the frequency follows the term"); return (unsigned)df; }
off_t frt_is_read_voff_t(InStream *is) { VP_ASSERT(is == (InStream *)&IN, "the dictionary"); step++; if (step == 5) return fd; if (step == 6) return pd; VP_ASSERT(step == 7 && df >= sk, "the skip entry only where one was written"); return so; }
uchar *frt_is_read_bytes(InStream *is, uchar *b, int n) { int k; step++; VP_ASSERT(is == (InStream *)&IN && step == 3 && n == ln, "the rest of the term"); for (k = 0; k < 9; k++) if (k < n) b[k] = (uchar)D[k]; return b; }
#elif OP == 1
static char IN; static off_t sought; static SegmentTermIndex T; static int has, fn;
void frt_is_seek(InStream *is, off_t p) { VP_ASSERT(is == (InStream *)&IN, "the dictionary"); sought = p; }
void *frt_h_get_int(Hash *h, const unsigned long k) { VP_ASSERT(h == (Hash *)&T && k == (unsigned long)fn, "the field"); return has ? &T : NULL; }
void *frt_h_get(Hash *h, const void *k) { VP_ASSERT(h == (Hash *)&T, "the field list"); return frt_h_get_int(h, (unsigned long)k); }
#elif OP == 3
static char IN, IN2; static int closed;
InStream *frt_is_clone(InStream *is) { VP_ASSERT(is == (InStream *)&IN, "the stream of the enumeration"); return (InStream *)&IN2; }
void frt_is_close(InStream *is) { VP_ASSERT(is == (InStream *)&IN2 && !closed, "closed once"); closed = 1; }
#endif
HARNESS
{
#if OP == 0
    SegmentTermEnum e; TermEnum *te = TE(&e); int p = (int)vp_range(0, 0x7ffffff0) - 1, sz = (int)vp_range(0, 0x7fffffff), len0 = (int)vp_range(0, MAX_WORD_SIZE - 1), w = (int)vp_range(0, MAX_WORD_SIZE - 1), k; char old, *r; TermInfo t0;
    for (k = 0; k < MAX_WORD_SIZE; k++) te->curr_term[k] = (char)vp_byte(); for (k = 0; k < 9; k++) D[k] = (char)vp_byte();
    te->curr_term[len0] = 0; te->curr_term_len = len0; old = te->curr_term[w]; e.pos = p; e.size = sz; e.is = (InStream *)&IN; sk = (int)vp_range(1, 0x7fffffff); e.skip_interval = sk;
    st = (int)vp_range(0, MAX_WORD_SIZE - 1); ln = (int)vp_range(0, MAX_WORD_SIZE - 1); VP_ASSUME(st <= len0 && st + ln < MAX_WORD_SIZE); df = (int)vp_range(0, 0x7fffffff); fd = (off_t)vp_range(0, 1ll << 40); pd = (off_t)vp_range(0, 1ll << 40); so = (off_t)vp_range(0, 1ll << 40); step = 0;
    te->curr_ti.doc_freq = (int)vp_range(0, 0x7fffffff); te->curr_ti.frq_ptr = (off_t)vp_range(0, 1ll << 40); te->curr_ti.prx_ptr = (off_t)vp_range(0, 1ll << 40); te->curr_ti.skip_offset = (off_t)vp_range(0, 1ll << 40); t0 = te->curr_ti;
    r = ste_next(te);
    VP_ASSERT(e.size == sz && e.skip_interval == sk && e.is == (InStream *)&IN, "the enumeration stays");
    if (p + 1 >= sz) VP_ASSERT(r == NULL && te->curr_term[0] == 0 && te->curr_term_len == 0 && step == 0 && e.pos >= sz, "the end");
    else {
        VP_ASSERT(e.pos == p + 1 && r == te->curr_term && te->curr_term_len == st + ln && te->curr_term[st + ln] == 0, "the next term, terminated");
        if (w < st) VP_ASSERT(te->curr_term[w] == old, "starting like the last one"); else if (w < st + ln) VP_ASSERT(te->curr_term[w] == D[w - st], "and going on as written");
        if (w <= len0) VP_ASSERT(te->prev_term[w] == old, "the last one is kept");
        VP_ASSERT(te->curr_ti.doc_freq == df && te->curr_ti.frq_ptr == t0.frq_ptr + fd && te->curr_ti.prx_ptr == t0.prx_ptr + pd && (df < sk || te->curr_ti.skip_offset == so) && step == (df >= sk ? 7 : 6), "its frequency and where its postings are"); }
#elif OP == 1
    SegmentTermEnum e; TermEnum *te = TE(&e); SegmentFieldIndex f; int k, i = (int)vp_range(0, 2), lens[3], iv = (int)vp_range(1, 1 << 20), w = (int)vp_range(0, MAX_WORD_SIZE - 1); char tx[MAX_WORD_SIZE], *tp[3]; TermInfo tis[3]; off_t ptrs[3]; TermInfo *c; char *cp;
    for (k = 0; k < MAX_WORD_SIZE; k++) tx[k] = (char)vp_byte(); f.index_interval = iv; f.field_dict = (Hash *)&T; e.sfi = &f; e.is = (InStream *)&IN; has = vp_bool(); fn = (int)vp_range(0, 1 << 20); T.size = (int)vp_range(0, 1 << 20); T.ptr = (off_t)vp_range(0, 1ll << 40); sought = -1; e.pos = 5; e.size = 7; te->curr_term[0] = 'x'; te->curr_term_len = 1; te->field_num = 3; te->curr_ti.frq_ptr = 4; te->curr_ti.prx_ptr = 4;
    for (k = 0; k < 3; k++) { lens[k] = (int)vp_range(0, MAX_WORD_SIZE - 1); tp[k] = tx; tis[k].doc_freq = (int)vp_range(0, 99); tis[k].frq_ptr = (off_t)vp_range(0, 1ll << 40); tis[k].prx_ptr = (off_t)vp_range(0, 1ll << 40); tis[k].skip_offset = 9; ptrs[k] = (off_t)vp_range(0, 1ll << 40); }
    VP_ASSERT(ste_set_field(te, fn) == te, "the enumeration");
    VP_ASSERT(e.pos == -1 && te->curr_term[0] == 0 && te->curr_term_len == 0 && te->field_num == fn && te->curr_ti.frq_ptr == 0 && te->curr_ti.prx_ptr == 0, "before the first term of the field");
    VP_ASSERT(has ? e.size == T.size && sought == T.ptr : e.size == 0, "with as many terms as the field has, none if it is not there");
    T.index_term_lens = lens; T.index_terms = tp; T.index_term_infos = tis; T.index_ptrs = ptrs;
    ste_index_seek(te, &T, i);
    VP_ASSERT(sought == ptrs[i] && e.pos == iv * i - 1 && te->curr_term_len == lens[i], "at the term before the indexed one");
    if (w <= lens[i]) VP_ASSERT(te->curr_term[w] == tx[w], "with its text");
    VP_ASSERT(te->curr_ti.doc_freq == tis[i].doc_freq && te->curr_ti.frq_ptr == tis[i].frq_ptr && te->curr_ti.prx_ptr == tis[i].prx_ptr, "and its postings");
    cp = te_get_term(te); if (w <= lens[i]) VP_ASSERT(cp[w] == tx[w] && cp != te->curr_term, "a copy of the term");
    c = te_get_ti(te); VP_ASSERT(c != &te->curr_ti && c->doc_freq == tis[i].doc_freq && c->frq_ptr == tis[i].frq_ptr && c->prx_ptr == tis[i].prx_ptr && c->skip_offset == 9, "a copy of where the postings are");
#elif OP == 2
    SegmentTermIndex t; int n = (int)vp_range(1, VP_SZ(1 << 24, 4)), r; static char base[64]; const char *key; t.index_cnt = n; t.index_terms = (char **)malloc(sizeof(char *) * (size_t)n);
#ifndef VP_PROOF
    { int k, p = 0; for (k = 0; k < n; k++) { t.index_terms[k] = base + p; p += (int)vp_range(1, 4); } key = base + vp_range(0, 20); }
#else
    key = (const char *)nondet_u64(); VP_ASSUME((unsigned long)key >= (unsigned long)t.index_terms[0]);   /* the first index term is the empty one: unit dict_write */
#endif
    r = sti_get_index_offset(&t, key);
    VP_ASSERT(r >= 0 && r < n, "one of the index terms");
    VP_ASSERT(strcmp(t.index_terms[r], key) <= 0 && (strcmp(t.index_terms[r], key) == 0 || r + 1 == n || strcmp(t.index_terms[r + 1], key) > 0), "the last index term that is not after the term");
#else
    SegmentFieldIndex f; TermEnum *te, *c; int nul = vp_bool(); f.skip_interval = (int)vp_range(1, 1 << 20); closed = 0;
    te = ste_new((InStream *)&IN, nul ? NULL : &f);
    VP_ASSERT(te->field_num == -1 && STE(te)->is == (InStream *)&IN && STE(te)->size == 0 && STE(te)->pos == -1 && STE(te)->sfi == (nul ? NULL : &f), "on no field yet");
    VP_ASSERT(STE(te)->skip_interval == (nul ? INT_MAX : f.skip_interval) && te->next == &ste_next && te->set_field == &ste_set_field && te->close == &ste_close && te->curr_term[0] == 0 && te->curr_term_len == 0, "with the segment's skip interval");
    STE(te)->pos = 4; STE(te)->size = 9; te->field_num = 6; te->curr_term[0] = 'q'; te->curr_term_len = 1; te->curr_ti.frq_ptr = 77;
    c = ste_clone(te);
    VP_ASSERT(c != te && STE(c)->is == (InStream *)&IN2 && STE(c)->pos == 4 && STE(c)->size == 9 && c->field_num == 6 && c->curr_term[0] == 'q' && c->curr_term_len == 1 && c->curr_ti.frq_ptr == 77 && STE(c)->sfi == STE(te)->sfi && STE(c)->skip_interval == STE(te)->skip_interval && c->next == te->next && c->skip_to == te->skip_to, "a copy with a stream of its own");
    ste_close(c); VP_ASSERT(closed, "closes its stream");
#endif
    VP_REACH("done");
}
