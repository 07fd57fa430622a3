/*VP{
"property":"P23",
"also":["P11"],
"title":"adding a document inverts every indexed field once, writes the vector of every field that asks for one, sets its norm and leaves nothing for the next field",
"functions":["dw_add_doc","dw_reset_postings","dw_get_fld_inv"],
"prune":{"src/index.c":["&","dw_add_doc"]},
"replace":["frt_fw_add_doc:vp_fad","frt_fw_add_postings:vp_fap","frt_fw_write_tv_index:vp_fti","frt_dw_invert_field:vp_inv","dw_sort_postings:vp_sort","fld_inv_new:vp_fin","frt_fis_get_field:vp_get"],
"limit":"documents of at most 2 fields",
"proof":{"unwind":5,"args":["--unwindset","vp_zero.0:14"]},
"bounded":{"K":3,"unwind":14}
}VP*/
#define VP_LIB_MEM
#include "env.h"
static void *vp_zero(void *d, int c, size_t n) { int k; VP_ASSERT(c == 0 && n % 8 == 0 && n <= 96, "cleared"); for (k = 0; k < 12; k++) if (k < n / 8) ((void **)d)[k] = NULL; return d; }
#undef memset
#define memset vp_zero
#include "index.c"
static DocWriter DW; static FieldInfo FI[2]; static FieldInverter IV[2]; static DocField D[2], *dp[2]; static Document DOC; static char N[2], FWd, SO; static Hash H; static HashEntry tb[4]; static uchar NR[2][4]; static Offset OF[3];
static int added, tvw, inv[2], tvd[2], nrm[2], known[2], isn[2]; static Similarity S; static Hash FH;
void vp_fad(FieldsWriter *fw, Document *d) { VP_ASSERT(!added && fw == (FieldsWriter *)&FWd && d == &DOC, "the document is stored first"); added = 1; }
FieldInfo *vp_get(FieldInfos *f, Symbol n) { VP_ASSERT(added && (n == &N[0] || n == &N[1]), "a field of the document"); return &FI[n == &N[1]]; }
void *frt_h_get(Hash *h, const void *k) { VP_ASSERT(h == &FH && (unsigned long)k < 2, "by number"); return known[(unsigned long)k] ? &IV[(unsigned long)k] : NULL; }
void *frt_h_get_int(Hash *h, unsigned long k) { return frt_h_get(h, (void *)k); }
FieldInverter *vp_fin(DocWriter *dw, FieldInfo *fi) { VP_ASSERT(!known[fi == &FI[1]], "made once"); return &IV[fi == &FI[1]]; }
HashKeyStatus frt_h_set(Hash *h, const void *k, void *v) { VP_ASSERT(h == &FH && v == (void *)&IV[(unsigned long)k], "kept by number"); known[(unsigned long)k] = 1; isn[(unsigned long)k] = 1; return 0; }
HashKeyStatus frt_h_set_int(Hash *h, unsigned long k, void *v) { return frt_h_set(h, (void *)k, v); }
Hash *vp_inv(DocWriter *dw, FieldInverter *f, DocField *d)
{
    int i = f == &IV[1], k; VP_ASSERT(dw == &DW && f == &IV[i] && d == &D[i] && !inv[i] && known[i], "every field is inverted once, with nothing left of another"); inv[i] = 1; ;
    for (k = 0; k < 4; k++) VP_ASSERT(tb[k].value == NULL && tb[k].key == NULL, "no terms of another field"); VP_ASSERT(H.size == 0 && H.fill == 0 && DW.offsets_size == 0, "no terms of another field");
    for (k = 0; k < 3; k++) VP_ASSERT(OF[k].start == 0 && OF[k].end == 0, "no offsets of another field");
    H.size = i + 1; H.fill = i + 1; tb[1].value = tb[1].key = &N[0]; if (i) tb[3].value = tb[3].key = &N[1]; DW.offsets_size = i ? 1 : 3; for (k = 0; k < DW.offsets_size; k++) OF[k].end = 7 + k; f->length = 5 + i; return &H;
}
PostingList **vp_sort(Hash *h) { VP_ASSERT(h == &H, "the terms of the field"); return (PostingList **)&SO; }
void vp_fap(FieldsWriter *fw, int num, PostingList **pl, int n, Offset *o, int on) { int i = num; VP_ASSERT(fw == (FieldsWriter *)&FWd && (num == 0 || num == 1) && inv[i] && !tvd[i] && pl == (PostingList **)&SO && n == i + 1 && o == OF && on == DW.offsets_size && !tvw, "the vector of the field just inverted, with its offsets"); tvd[i] = 1; }
void vp_fti(FieldsWriter *fw) { VP_ASSERT(fw == (FieldsWriter *)&FWd && !tvw, "closed once"); tvw = 1; }
float vp_ln(Similarity *s, Symbol f, int n) { int i = f == &N[1]; VP_ASSERT(s == &S && f == &N[i] && n == 5 + i && inv[i], "the length of the field"); return 1.0f; }
uchar vp_en(Similarity *s, float b) { return (uchar)b; }
HARNESS
{
    int i, k, dn = (int)vp_range(0, 3), ds = (int)vp_range(0, 2);
    added = tvw = 0; S.length_norm = vp_ln; S.encode_norm = vp_en; DW.fw = (FieldsWriter *)&FWd; DW.fields = &FH; DW.similarity = &S; DW.doc_num = dn; DW.offsets = OF; DW.offsets_size = 0; DW.curr_plists = &H; H.table = tb; H.mask = 3; H.size = H.fill = 0;
    for (k = 0; k < 4; k++) { tb[k].value = tb[k].key = NULL; tb[k].hash = 0; } for (k = 0; k < 3; k++) OF[k].start = OF[k].end = 0;
    DOC.size = ds; DOC.fields = dp; DOC.boost = 2.0f;
    for (i = 0; i < 2; i++) { inv[i] = tvd[i] = isn[i] = 0; known[i] = vp_bool(); FI[i].number = i; FI[i].name = (Symbol)&N[i]; FI[i].bits = vp_u32(); FI[i].boost = 3.0f; D[i].name = (Symbol)&N[i]; D[i].boost = (float)(i + 2); dp[i] = &D[i]; IV[i].fi = &FI[i]; IV[i].norms = NR[i]; IV[i].store_term_vector = vp_bool(); IV[i].has_norms = vp_bool(); for (k = 0; k < 4; k++) NR[i][k] = 1; }
    dw_add_doc(&DW, &DOC);
    VP_ASSERT(added && tvw && DW.doc_num == dn + 1, "stored, closed and counted");
    for (i = 0; i < 2; i++) { int x = i < ds && fi_is_indexed(&FI[i]); VP_ASSERT(inv[i] == x, "exactly the indexed fields are inverted"); VP_ASSERT(tvd[i] == (x && IV[i].store_term_vector), "a vector exactly for the fields that ask for one");
        for (k = 0; k < 4; k++) VP_ASSERT(NR[i][k] == (x && IV[i].has_norms && k == dn ? 6 * (i + 2) : 1), "the norm of the document, from every boost and the length, and no other"); }
    VP_ASSERT(H.size == 0 && DW.offsets_size == 0, "nothing is left for the next document");
    VP_REACH("done");
}
