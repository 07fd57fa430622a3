/*VP{
"property":"P11","also":["P13"],
"title":"walking the postings of a term returns its documents with their frequencies in order, leaves out exactly the deleted ones, and keeps the position stream aligned",
"functions":["stde_next","stde_read","stde_seek_ti","stde_doc_num","stde_freq","stpe_next","stpe_next_position","stpe_skip_prox","stpe_seek_ti","stpe_seek","stpe_seek_te"],
"variants":[
 {"name":"next","defs":["OP=0"],"prune":{"src/index.c":["stde_next","stpe_next","stpe_next_position","stde_skip_prox","stpe_skip_prox","stde_doc_num","stde_freq"]},
  "loops":[{"file":"src/index.c","func":"stde_next","loop":0,"of":1,"text":"__CPROVER_assigns(doc_code, stde->doc_num, stde->freq, stde->count, g_n, g_doc, g_frq, g_pend, g_bal, g_seen, g_freqread, g_nd, g_wp, curdel) __CPROVER_loop_invariant(stde->count >= g_c0 && stde->count <= g_c0 + g_left && g_n == stde->count - g_c0 && g_doc == stde->doc_num && g_doc >= 0 && g_doc <= 2000000000 && !g_pend && (g_pos ==> g_bal == 0) && (g_n > g_w ==> g_wdel)) __CPROVER_decreases(g_left - g_n)"}]},
 {"name":"read","defs":["OP=1"],"prune":{"src/index.c":["stde_read"]},
  "loops":[{"file":"src/index.c","func":"stde_read","loop":0,"of":1,"text":"__CPROVER_assigns(i, doc_code, stde->doc_num, stde->freq, stde->count, g_n, g_doc, g_frq, g_pend, g_seen, g_freqread, g_wp, g_nd, g_bal, curdel, __CPROVER_object_whole(docs), __CPROVER_object_whole(freqs)) __CPROVER_loop_invariant(i >= 0 && i <= req_num && stde->count >= g_c0 && stde->count <= g_c0 + g_left && g_n == stde->count - g_c0 && g_doc == stde->doc_num && g_doc >= 0 && g_doc <= 2000000000 && !g_pend && i <= g_n && i == g_n - g_nd && g_nd >= 0 && (g_n > g_w && !g_wdel ==> g_wp >= 0 && g_wp < i && docs[g_wp] == g_wdoc && freqs[g_wp] == g_wfrq)) __CPROVER_decreases(g_left - g_n)"}]},
 {"name":"seek","defs":["OP=2"],"replace":["tir_get_ti_field:vp_ti"],"bounded":{"K":3,"unwind":5,"replace":["tir_get_ti_field:vp_ti"]},"nosearch":true,"prune":{"src/index.c":["stpe_seek_ti","stpe_seek","stde_seek","stde_seek_te","stde_next","&","stpe_new","stpe_seek_te"]},
  "loops":[{"file":"src/index.c","func":"stde_next","loop":0,"of":1,"text":"__CPROVER_assigns(doc_code, stde->doc_num, stde->freq, stde->count, g_n, g_doc, g_frq, g_pend, g_bal, g_nd, g_wp, curdel, seekp, g_freqread) __CPROVER_loop_invariant(1)"}]}],
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":7},
"assume":["document numbers up to 2000000000","vint streams by the contract of P01, the deleted-document set by that of P05"]
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "index.h"
static int g_n, g_c0, g_d0, g_left, g_doc, g_frq, g_pend, g_w, g_wdel, g_seen, g_freqread, g_wp, g_wdoc, g_wfrq, g_nd, curdel, seekp, g_pos; static unsigned g_bal;
#include "internal.h"
int vp_bvget(FrtBitVector *bv, int bit);
#undef bv_get
#define bv_get vp_bvget
static int FRQ, PRX;   /* the streams */
#include "index.c"
static SegmentTermDocEnum D; static int pos, seekf, misst; static TermInfo TI; static int poss; static int Lgap[9], Lfrq[9], Ldel[9];
/* the posting list: the watched posting (number g_w from here) has document g_wdoc, frequency g_wfrq and is deleted iff g_wdel */
unsigned int frt_is_read_vint(InStream *is)
{
    if (is == (InStream *)&PRX) { poss = (int)vp_range(0, 1000); return poss; }
    VP_ASSERT(is == (InStream *)&FRQ, "the frequency stream");
    if (g_pend) { g_pend = 0; g_freqread = 1; return g_frq; }
    VP_ASSERT(g_n < g_left, "not more postings are read than there are");
    {
        int gap, one;
#ifdef VP_PROOF
        gap = (int)vp_range(0, 1000000000); VP_ASSUME(gap <= 2000000000 - g_doc);
        g_frq = (int)vp_range(1, 1000); if (vp_bool()) g_frq = 1;
        if (g_n == g_w) { VP_ASSUME(g_doc + gap == g_wdoc && g_frq == g_wfrq); }
        else VP_ASSUME(g_doc + gap != g_wdoc);
        curdel = g_n == g_w ? g_wdel : vp_bool();
#else
        gap = Lgap[g_n]; g_frq = Lfrq[g_n]; curdel = Ldel[g_n];
#endif
        one = g_frq == 1; g_doc += gap; g_n++; g_pend = !one;
        return (unsigned)(gap << 1) | one;
    }
}
int vp_bvget(BitVector *bv, int bit) { VP_ASSERT(bit == g_doc, "the document just read is looked up"); if (g_n == g_w + 1) g_wp = g_n - 1 - g_nd; if (curdel) { g_nd++; g_bal -= (unsigned)g_frq; } return curdel; }
void frt_is_skip_vints(InStream *is, register int cnt) { VP_ASSERT(is == (InStream *)&PRX, "the position stream"); g_bal += cnt > 0 ? cnt : 0; }
void frt_is_seek(InStream *is, off_t o) { if (is == (InStream *)&FRQ) { seekf++; VP_ASSERT(o == TI.frq_ptr, "the frequency stream is set to the start of the postings"); } else { VP_ASSERT(is == (InStream *)&PRX && o == TI.prx_ptr, "the position stream is set to the start of the positions"); seekp++; } }
FrtTermInfo *vp_ti(TermInfosReader *tir, int f, const char *t) { VP_ASSERT(f == 3 && t == (char *)&FRQ, "the term"); return misst ? NULL : &TI; }
static BitVector BV;
InStream *frt_is_clone(InStream *is) { return is; }
HARNESS
{
    TermDocEnum *t = (TermDocEnum *)&D; int havedel;
    memset(&D, 0, sizeof(D)); g_n = g_pend = g_seen = g_freqread = g_nd = 0; g_bal = 0; g_wp = -1;
    D.frq_in = (InStream *)&FRQ; D.prx_in = (InStream *)&PRX;
    g_c0 = D.count = (int)vp_range(0, VP_SZ(1000000, 3)); g_left = (int)vp_range(0, VP_SZ(1000000, 4)); D.doc_freq = g_c0 + g_left;
    g_d0 = D.doc_num = g_doc = (int)vp_range(0, 1000000); havedel = vp_bool(); D.deleted_docs = &BV; D.skip_interval = 16; D.freq = (int)vp_range(0, 9);
    g_w = (int)vp_range(0, VP_SZ(1000000, 3)); g_wdel = vp_bool(); g_wdoc = (int)vp_range(0, 0x7fffffff); g_wfrq = (int)vp_range(1, 1000);
#ifndef VP_PROOF
    { int i, d = g_d0; for (i = 0; i < g_left; i++) { Lgap[i] = (int)vp_range(0, 1000); Lfrq[i] = (int)vp_range(1, 3); Ldel[i] = vp_bool(); d += Lgap[i]; if (i == g_w) { g_wdoc = d; g_wfrq = Lfrq[i]; g_wdel = Ldel[i]; } } }
#endif
    if (OP == 0) {
        int positions = vp_bool(); bool r; D.skip_prox = positions ? stpe_skip_prox : stde_skip_prox; pos = D.prx_cnt = (int)vp_range(-1, 5); D.position = 17; g_pos = positions; if (positions && pos > 0) g_bal = 0u - (unsigned)pos;
        r = positions ? stpe_next(t) : stde_next(t);
        VP_ASSERT(D.count == g_c0 + g_n && D.doc_num == g_doc, "the enumerator stays in step with the list");
        if (positions) VP_ASSERT(g_bal == 0, "the position stream passes the positions of the current document that were not read and those of the deleted documents");
        if (r) {
            VP_ASSERT(g_n > 0 && !curdel && !g_pend, "the document returned is not deleted and its frequency is read");
            VP_ASSERT(stde_doc_num(t) == g_doc && stde_freq(t) == g_frq, "with its number and frequency");
            VP_ASSERT(g_n - 1 <= g_w || g_wdel, "no document that is not deleted is passed over");
            if (positions) {
                VP_ASSERT(D.prx_cnt == g_frq && D.position == 0, "its positions are ahead");
                { int p = stpe_next_position(t), q = poss, p2; VP_ASSERT(p == q && D.prx_cnt == g_frq - 1, "positions are read one by one");
                  p2 = stpe_next_position(t); if (g_frq > 1) VP_ASSERT(p2 == q + poss, "as running sums of the gaps"); else VP_ASSERT(p2 == -1, "up to the frequency"); }
            }
        }
        else { VP_ASSERT(g_n == g_left, "the end is reported only when the list is exhausted"); VP_ASSERT(g_n <= g_w || g_wdel, "no document that is not deleted is passed over"); if (positions) VP_ASSERT(D.prx_cnt == 0 && stpe_next_position(t) == -1, "no positions are left"); }
    }
    if (OP == 1) {
        int req = (int)vp_range(1, VP_SZ(100000, 4)), *docs = VP_NEW_N(int, req), *freqs = VP_NEW_N(int, req), r;
        r = stde_read(t, docs, freqs, req);
        VP_ASSERT(D.count == g_c0 + g_n && D.doc_num == g_doc && r == g_n - g_nd, "as many documents as are not deleted");
        VP_ASSERT(r == req || g_n == g_left, "reading stops only when the buffer is full or the list exhausted");
        if (g_n > g_w && !g_wdel) VP_ASSERT(g_wp >= 0 && g_wp < r && docs[g_wp] == g_wdoc && freqs[g_wp] == g_wfrq, "each document that is not deleted is returned in its place with its frequency");
    }
    if (OP == 2) {
        int how = (int)vp_range(0, 4); TermEnum te; misst = vp_bool(); seekf = seekp = 0;
        TI.doc_freq = (int)vp_range(1, 1000000); TI.frq_ptr = (off_t)vp_range(0, 1000000); TI.prx_ptr = (off_t)vp_range(0, 1000000); TI.skip_offset = (off_t)vp_range(0, 1000000);
        te.set_field = ste_set_field; te.curr_ti = TI; D.prx_cnt = (int)vp_range(-1, 5); D.tir = NULL; D.have_skipped = vp_bool(); D.skip_doc = (int)vp_range(0, 9); D.skip_count = (int)vp_range(0, 9);
        if (how == 0) stde_seek(t, 3, (char *)&FRQ);
        if (how == 1) { misst = 0; stde_seek_te(t, &te); }
        if (how == 2) stpe_seek(t, 3, (char *)&FRQ);
        if (how == 3) stpe_seek_ti(&D, misst ? NULL : &TI);
        if (how == 4) { misst = 0; { TermDocEnum *s = frt_stpe_new(NULL, (InStream *)&FRQ, (InStream *)&PRX, NULL, 16); ((SegmentTermDocEnum *)s)->prx_cnt = D.prx_cnt; s->seek_te(s, &te); D = *(SegmentTermDocEnum *)s; } }
        if (misst) VP_ASSERT(!stde_next(t), "a term that is not there has no postings");
        else {
            VP_ASSERT(D.count == 0 && D.doc_freq == TI.doc_freq && D.doc_num == 0 && seekf == 1, "the walk starts at the first posting of the term");
            VP_ASSERT(D.num_skips == TI.doc_freq / 16 && D.skip_doc == 0 && D.skip_count == 0 && !D.have_skipped && D.skip_ptr == TI.frq_ptr + TI.skip_offset && D.frq_ptr == TI.frq_ptr && D.prx_ptr == TI.prx_ptr, "with the skip data of the term");
            if (how >= 2) VP_ASSERT(seekp == 1, "the position stream is set to the term");
        }
        if (how >= 2) VP_ASSERT(D.prx_cnt <= 0, "no positions of an earlier term are left to skip");
    }
    VP_REACH("done");
}
