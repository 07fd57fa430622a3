/*VP{
"property":"P11",
"title":"adding an occurrence of a term appends it to the posting of the current document, or starts a new posting at the end of the term's list",
"functions":["dw_add_posting","p_new","pl_new","pl_add_occ","pl_add_posting","occ_new"],
"prune":{"src/index.c":["dw_add_posting"]},
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":5}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "internal.h"
#define frt_mp_alloc vp_mpa
#include "index.h"
static void *vp_mpa(FrtMemoryPool *mp, int n) { return malloc(n); }
#include "index.c"
static HashEntry HC, HF; static int inC, inF; static char CP, FP, MP; static const char *TXT; static int seen_c, seen_f, LEN;
bool frt_h_set_ext(Hash *h, const void *k, HashEntry **e)
{
    VP_ASSERT(k == TXT, "the term is looked up");
    if (h == (Hash *)&CP) { seen_c++; *e = &HC; return !inC; }
    VP_ASSERT(h == (Hash *)&FP, "in the table of the document or the field"); seen_f++; *e = &HF; return !inF;
}
void *frt_mp_memdup(MemoryPool *mp, const void *p, int len) { char *d = malloc(len); VP_ASSERT(p == TXT && len == LEN + 1, "the whole term is kept"); return d; }
HARNESS
{
    PostingList PL; Posting P0; Occurence O0; char text[8]; int doc = (int)vp_range(0, 0x7ffffffe), pos = (int)vp_range(-1, 0x7ffffffe), f0; PostingList *pl; Posting *p; Occurence *o;
    inF = vp_bool(); inC = inF && vp_bool(); seen_c = seen_f = 0; TXT = text; text[7] = 0; LEN = (int)vp_range(1, 7);
    memset(&HC, 0, sizeof(HC)); memset(&HF, 0, sizeof(HF));
    O0.next = NULL; O0.pos = (int)vp_range(0, 100); P0.next = NULL; P0.first_occ = &O0; P0.freq = f0 = (int)vp_range(1, 100000); P0.doc_num = inC ? doc : (int)vp_range(0, 100);
    PL.term = "x"; PL.term_len = 1; PL.first = PL.last = &P0; PL.last_occ = &O0;
    if (inF) HF.value = &PL; if (inC) HC.value = &PL;
    dw_add_posting((MemoryPool *)&MP, (Hash *)&CP, (Hash *)&FP, doc, text, LEN, pos);
    VP_REACH("done");
    if (inC) {
        VP_ASSERT(P0.freq == f0 + 1 && P0.next == NULL && PL.last == &P0 && PL.first == &P0, "the posting of the document counts one more occurrence");
        VP_ASSERT(O0.next == PL.last_occ && O0.next != &O0 && O0.next && O0.next->pos == pos && O0.next->next == NULL && P0.first_occ == &O0, "which is appended");
    }
    else {
        pl = (PostingList *)HC.value; VP_ASSERT(pl != NULL && HF.value == pl, "the list of the term"); VP_ASSUME(pl != NULL && HF.value == pl);
        VP_ASSERT(HC.key == (void *)pl->term && HF.key == (inF ? HF.key : (void *)pl->term), "is keyed by the kept copy of the term");
        if (inF) { VP_ASSERT(pl == &PL && P0.freq == f0 && O0.next == NULL && P0.next != NULL && PL.first == &P0, "earlier postings are kept"); p = P0.next; }
        else { VP_ASSERT(pl->term_len == LEN && pl->first == pl->last, "a new list has one posting"); p = pl->first; }
        VP_ASSERT(pl->last == p && p->next == NULL && p->doc_num == doc && p->freq == 1, "a new posting for the document is the last"); o = p->first_occ;
        VP_ASSERT(pl->last_occ == o && o->next == NULL && o->pos == pos, "with the occurrence");
    }
}
