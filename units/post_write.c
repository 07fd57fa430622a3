/*VP{
"property":"P11",
"title":"the posting lists written for a new segment hold every document of every term with its frequency and positions, with a skip entry before every interval-th document",
"functions":["dw_flush","skip_buf_add","skip_buf_reset","skip_buf_write","skip_buf_new"],
"prune":{"src/index.c":["dw_flush"]},
"level":"bounded",
"bounded":{"K":3,"unwind":4,"replace":["dw_sort_postings:vp_sort","frt_tiw_open:vp_tiwo","frt_tiw_start_field:vp_tiws","frt_tiw_add:vp_tiwa","frt_tiw_close:vp_tiwc","dw_flush_streams:vp_fls","dw_write_norms:vp_nrm"],"timeout":200},
"nosearch":true
}VP*/
/* bound: two terms with at most 3 documents of at most 2 positions each, skip interval 2 or 3 */
#define VP_FREE_PTR
#include "env.h"
#include "index.c"
#define MAXD 3
/* the writes are checked as they come: term T, document D of it, phase of the document */
static int nf, np, nk, T, D_, ph, occn, sint, sd, sf, sp, due, nterms; static char FS, PS, SS; static int base_f, base_p, closed, term_at, norms_written;
static PostingList pl[2]; static Posting po[2][MAXD]; static Occurence oc[2][MAXD][2]; static int cnt[2];
static TermInfo got[2]; static int f0, p0, skat;
void frt_os_write_vint(OutStream *os, register unsigned int v)
{
    Posting *p; int last;
    VP_ASSERT(T < nterms && D_ <= cnt[T], "nothing is written beyond the postings"); VP_ASSUME(T < nterms && D_ <= cnt[T]);
    if (os == (OutStream *)&SS) {
        VP_ASSERT(D_ < cnt[T] && ph == 0 && (D_ + 1) % sint == 0 && nk == due * 3 + (nk % 3), "a skip entry is written before every interval-th document"); VP_ASSUME(D_ < cnt[T]);
        last = D_ ? po[T][D_ - 1].doc_num : 0;
        if (nk % 3 == 0) { VP_ASSERT((int)v == last - sd, "a skip entry holds the document before it"); sd = last; }
        else if (nk % 3 == 1) { VP_ASSERT((int)v == nf - sf, "and the offset of the postings that follow"); sf = nf; }
        else { VP_ASSERT((int)v == np - sp, "and that of their positions"); sp = np; due++; }
        nk++; return;
    }
    VP_ASSERT(D_ < cnt[T], "not more than the documents of the term"); VP_ASSUME(D_ < cnt[T]);
    p = &po[T][D_]; last = D_ ? po[T][D_ - 1].doc_num : 0;
    if (os == (OutStream *)&FS) {
        VP_ASSERT(due == (D_ + 1) / sint && nk == due * 3, "no skip entry is left out");
        if (ph == 0) { VP_ASSERT((int)v == (p->doc_num - last) * 2 + (p->freq == 1), "a document: its gap and a flag if it occurs once"); ph = p->freq == 1 ? 2 : 1; }
        else { VP_ASSERT(ph == 1 && (int)v == p->freq, "its frequency"); ph = 2; }
        nf++;
    }
    else {
        VP_ASSERT(os == (OutStream *)&PS && ph == 2 && occn < p->freq, "its positions"); VP_ASSUME(occn < 2 && occn >= 0);
        VP_ASSERT((int)v == oc[T][D_][occn].pos - (occn ? oc[T][D_][0].pos : 0), "as gaps"); np++;
        if (++occn == p->freq) { occn = 0; ph = 0; D_++; }
    }
}
off_t frt_os_pos(OutStream *os) { return os == (OutStream *)&FS ? base_f + nf : os == (OutStream *)&PS ? base_p + np : nk; }
void frt_os_close(OutStream *os) { closed++; }
OutStream *frt_ram_new_buffer() { return (OutStream *)&SS; }
void frt_ram_destroy_buffer(OutStream *os) { }
void frt_ramo_reset(OutStream *os) { VP_ASSERT(os == (OutStream *)&SS, "the skip buffer"); nk = due = 0; sd = 0; sf = nf; sp = np; f0 = base_f + nf; p0 = base_p + np; }
void frt_ramo_write_to(OutStream *os, OutStream *o) { VP_ASSERT(os == (OutStream *)&SS && o == (OutStream *)&FS && D_ == cnt[T] && ph == 0, "skip data follows the postings"); skat = base_f + nf; nf += nk; }
static int outs; static OutStream *nout(Store *s, const char *n) { outs++; return (OutStream *)(outs == 1 ? &FS : &PS); }
static PostingList *PLS[2]; static FieldInverter FI; static Hash HP;
PostingList **vp_sort(Hash *h) { VP_ASSERT(h == &HP, "the terms of the field"); return PLS; }
TermInfosWriter *vp_tiwo(Store *s, const char *seg, int ii, int si) { return (TermInfosWriter *)&got; }
void vp_tiws(TermInfosWriter *t, int f) { VP_ASSERT(f == 5, "the field"); }
void vp_tiwa(TermInfosWriter *t, const char *term, int len, TermInfo *ti) { VP_ASSERT(term_at < nterms && term == PLS[term_at]->term && len == PLS[term_at]->term_len, "the terms in order"); VP_ASSERT(ti->frq_ptr == f0 && ti->prx_ptr == p0 && ti->doc_freq == cnt[term_at] && ti->frq_ptr + ti->skip_offset == skat && D_ == cnt[T], "the dictionary entry points at the postings, positions and skip data of the term and holds its document count"); term_at++; T++; D_ = 0; }
void vp_tiwc(TermInfosWriter *t) { }
void vp_fls(DocWriter *dw) { }
void vp_nrm(DocWriter *dw, FieldInverter *f) { norms_written++; }
void *frt_h_get_int(Hash *h, const unsigned long k) { VP_ASSERT(k == 5, "the field"); return &FI; }
int sprintf(char *s, const char *f, ...) { return 0; }
HARNESS
{
    DocWriter dw; FieldInfos fis; FieldInfo fi, *fis_a[1]; Store st; SegmentInfo sinf; int t, i, j;
    nterms = (int)vp_range(1, 2); T = D_ = ph = occn = outs = nf = np = nk = term_at = closed = norms_written = 0; base_f = (int)vp_range(0, 50); base_p = (int)vp_range(0, 50); sint = (int)vp_range(2, 3);
    for (t = 0; t < 2; t++) {
        int last = 0;
        cnt[t] = (int)vp_range(1, MAXD); pl[t].term = t ? "b" : "a"; pl[t].term_len = 1; pl[t].first = &po[t][0]; PLS[t] = &pl[t];
        for (i = 0; i < MAXD; i++) {
            int lp = 0;
            po[t][i].doc_num = last + (int)vp_range(i ? 1 : 0, 100); last = po[t][i].doc_num; po[t][i].freq = (int)vp_range(1, 2); po[t][i].next = i + 1 < cnt[t] ? &po[t][i + 1] : NULL; po[t][i].first_occ = &oc[t][i][0];
            for (j = 0; j < 2; j++) { oc[t][i][j].pos = lp + (int)vp_range(0, 100); lp = oc[t][i][j].pos; oc[t][i][j].next = j + 1 < po[t][i].freq ? &oc[t][i][1] : NULL; }
        }
    }
    memset(&dw, 0, sizeof(dw)); memset(&fis, 0, sizeof(fis)); memset(&fi, 0, sizeof(fi)); memset(&FI, 0, sizeof(FI)); fis.size = 1; fis.fields = fis_a; fis_a[0] = &fi; fi.number = 5; fi.bits = FI_IS_INDEXED_BM | FI_IS_TOKENIZED_BM; FI.plists = &HP; FI.fi = &fi; HP.size = nterms;
    st.new_output = nout; sinf.name = (char *)"x"; dw.store = &st; dw.si = &sinf; dw.fis = &fis; dw.skip_interval = sint;
    dw_flush(&dw);
    VP_ASSERT(term_at == nterms && closed == 2 && norms_written == 1, "every term is entered in the dictionary and the files are closed");
    VP_REACH("done");
}
