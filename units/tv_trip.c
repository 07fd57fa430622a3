/*VP{
"property":"P23",
"title":"the term vectors of a document are read back as they were written, one by one and all together",
"functions":["fw_add_postings","fw_write_tv_index","fr_read_term_vector","fr_get_tv","fr_get_field_tv"],
"variants":[
 {"name":"one-both","defs":["OP=0","BP=1","BO=1","NA=2","NB=1"]},
 {"name":"one-pos","defs":["OP=0","BP=1","BO=0","NA=2","NB=2"]},
 {"name":"one-off","defs":["OP=0","BP=0","BO=1","NA=1","NB=2"]},
 {"name":"one-none","defs":["OP=0","BP=0","BO=0","NA=2","NB=2"]},
 {"name":"one-empty","defs":["OP=0","BP=1","BO=1","NA=0","NB=2"]},
 {"name":"all-both","defs":["OP=1","BP=1","BO=1","NA=2","NB=1"]},
 {"name":"all-pos","defs":["OP=1","BP=1","BO=0","NA=1","NB=2"]},
 {"name":"all-off","defs":["OP=1","BP=0","BO=1","NA=2","NB=2"]},
 {"name":"all-none","defs":["OP=1","BP=0","BO=0","NA=2","NB=2"]},
 {"name":"all-empty","defs":["OP=1","BP=1","BO=1","NA=0","NB=2"]},
 {"name":"all-empty2","defs":["OP=1","BP=1","BO=0","NA=2","NB=0"]}],
"prune":{"src/index.c":["&","fw_add_postings","fw_write_tv_index","fr_get_tv","fr_get_field_tv"]},
"replace":["frt_hlp_string_diff:vp_diff","frt_ary_resize_i:vp_resize"],
"limit":"two fields with at most 2 terms of at most 2 bytes and 2 occurrences",
"assume":["the common prefix is the longest one (unit dict_diff)","streams by their contracts (P01-P03)"],
"proof":{"unwind":5},
"bounded":{"K":3,"unwind":5}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "index.c"
#define NQ 48
static u64 Q[NQ]; static uchar QB[NQ][3]; static int nq, pos_, dn, base; static u32 fxo; static int fxw; static char OD, OX, ID, IX, HD; static struct { int a[3]; TVField f[4]; } tvs;
static FieldInfo FI[3]; static FieldInfo *fip[3]; static FieldInfos FS; static char NM[3];
static char T[2][2][3]; static int TL[2][2], FR[2][2], PO[2][2][2]; static Offset OF[2][3]; static int cnt[2] = { NA, NB }, fnum[2] = { 2, 0 };
const char *EMPTY_STRING;
static int put(OutStream *o, u64 v) { VP_ASSERT(o == (OutStream *)&OD && nq < NQ, "the document file"); Q[nq] = v; return nq++; }
void frt_os_write_vint(OutStream *o, register unsigned int v) { put(o, v); }
void frt_os_write_vll(OutStream *o, register u64 v) { put(o, v); }
void frt_os_write_bytes(OutStream *o, const uchar *b, int n) { int k, s; VP_ASSERT(n >= 0 && n <= 2, "the rest of the term"); s = put(o, (u64)n); for (k = 0; k < 2; k++) if (k < n) QB[s][k] = b[k]; }
void frt_os_write_u32(OutStream *o, u32 v) { VP_ASSERT(o == (OutStream *)&OX && !fxw, "one entry for the document"); fxo = v; fxw = 1; }
off_t frt_os_pos(OutStream *o) { VP_ASSERT(o == (OutStream *)&OD, "the document file"); return nq; }
int vp_diff(const char *a, const char *b) { int i = 0; if (a[0] && a[0] == b[0]) { i = 1; if (a[1] && a[1] == b[1]) i = 2; } return i; }
void vp_resize(void ***a, int n) { VP_ASSERT(n < 4, "grown by one"); tvs.a[2] = n + 1; }
void frt_is_seek(InStream *is, off_t p) { if (is == (InStream *)&IX) VP_ASSERT(p == (off_t)dn * 12, "the entry of the document"); else { VP_ASSERT(p >= 0 && p < nq, "inside the file"); pos_ = (int)p; } }
u64 frt_is_read_u64(InStream *is) { VP_ASSERT(is == (InStream *)&IX, "the entry of the document"); return (u64)base; }
u32 frt_is_read_u32(InStream *is) { VP_ASSERT(is == (InStream *)&IX, "the entry of the document"); return fxo; }
unsigned int frt_is_read_vint(InStream *is) { VP_ASSERT(is == (InStream *)&ID && pos_ >= 0 && pos_ < nq, "inside the file"); return (unsigned)Q[pos_++]; }
u64 frt_is_read_vll(InStream *is) { VP_ASSERT(is == (InStream *)&ID && pos_ >= 0 && pos_ < nq, "inside the file"); return Q[pos_++]; }
uchar *frt_is_read_bytes(InStream *is, uchar *b, int n) { int k; VP_ASSERT(is == (InStream *)&ID && pos_ >= 0 && pos_ < nq && n == (int)Q[pos_], "the rest of the term"); for (k = 0; k < 2; k++) if (k < n) b[k] = QB[pos_][k]; pos_++; return b; }
static void *hk[2], *hv[2]; static int nh;
Hash *frt_h_new_ptr(free_ft f) { return (Hash *)&HD; }
Hash *frt_h_new(hash_ft a, eq_ft b, free_ft c, free_ft d) { return (Hash *)&HD; }
HashKeyStatus frt_h_set(Hash *h, const void *k, void *v) { VP_ASSERT(nh < 2, "no more vectors than were stored"); hk[nh] = (void *)k; hv[nh++] = v; return 0; }
static void same(int f, TermVector *tv)
{
    int i, j; VP_ASSERT(tv != NULL && tv->field_num == fnum[f] && tv->field == (Symbol)&NM[fnum[f]] && tv->term_cnt == cnt[f], "the vector of the field, with all its terms");
    for (i = 0; i < cnt[f]; i++) { VP_ASSERT(tv->terms[i].freq == FR[f][i], "the frequency"); for (j = 0; j <= TL[f][i]; j++) VP_ASSERT(tv->terms[i].text[j] == T[f][i][j], "the term");
        if (BP) { for (j = 0; j < FR[f][i]; j++) VP_ASSERT(tv->terms[i].positions[j] == PO[f][i][j], "the positions"); } else VP_ASSERT(tv->terms[i].positions == NULL, "no positions"); }
    if (BO && cnt[f]) { VP_ASSERT(tv->offset_cnt == 2, "the offsets"); for (i = 0; i < 2; i++) VP_ASSERT(tv->offsets[i].start == OF[f][i].start && tv->offsets[i].end == OF[f][i].end, "the offsets"); }
    else VP_ASSERT(tv->offset_cnt == 0 && tv->offsets == NULL, "no offsets");
}
HARNESS
{
    FieldsWriter fw; FieldsReader fr; int f, i, j; static PostingList PL[2][2], *pp[2][2]; static Posting P[2][2]; static Occurence O[2][2][2];
    EMPTY_STRING = ""; nq = 1; base = 1; fxw = 0; nh = 0; pos_ = -1; tvs.a[0] = sizeof(TVField); tvs.a[1] = 4; tvs.a[2] = 0; dn = (int)vp_range(0, 1000000);
    for (i = 0; i < 3; i++) { FI[i].number = i; FI[i].name = (Symbol)&NM[i]; FI[i].bits = FI_STORE_TERM_VECTOR_BM | (BP ? FI_STORE_POSITIONS_BM : 0) | (BO ? FI_STORE_OFFSETS_BM : 0); fip[i] = &FI[i]; }
    FS.fields = fip; FS.size = 3; fw.fis = fr.fis = &FS; fw.fdt_out = (OutStream *)&OD; fw.fdx_out = (OutStream *)&OX; fw.tv_fields = tvs.f; fw.start_ptr = base; fr.fdt_in = (InStream *)&ID; fr.fdx_in = (InStream *)&IX; fr.size = dn + 1;
    for (f = 0; f < 2; f++) {
        for (i = 0; i < 2; i++) {
            TL[f][i] = (int)vp_range(0, 2); T[f][i][0] = (char)vp_byte(); T[f][i][1] = (char)vp_byte(); T[f][i][TL[f][i]] = 0; T[f][i][2] = 0;
            VP_ASSUME(TL[f][i] < 1 || T[f][i][0]); VP_ASSUME(TL[f][i] < 2 || T[f][i][1]);
            FR[f][i] = 2 - ((f + i) & 1); P[f][i].freq = FR[f][i]; P[f][i].first_occ = &O[f][i][0]; PL[f][i].last = &P[f][i]; PL[f][i].term = T[f][i]; PL[f][i].term_len = TL[f][i]; pp[f][i] = &PL[f][i];
            for (j = 0; j < 2; j++) { PO[f][i][j] = (int)vp_u32(); VP_ASSUME(PO[f][i][j] >= 0); O[f][i][j].pos = PO[f][i][j]; O[f][i][j].next = j + 1 < FR[f][i] ? &O[f][i][j + 1] : NULL; }
            VP_ASSUME(PO[f][i][0] <= PO[f][i][1]);
            OF[f][i].start = vp_range(0, 1LL << 40); OF[f][i].end = vp_range(0, 1LL << 40);
        }
    }
    fw_add_postings(&fw, fnum[0], pp[0], cnt[0], OF[0], cnt[0] ? 2 : 0);
    fw_add_postings(&fw, fnum[1], pp[1], cnt[1], OF[1], cnt[1] ? 2 : 0);
    fw_write_tv_index(&fw);
    VP_ASSERT(fxw, "the document has an entry");
#if OP == 0
    same(0, fr_get_field_tv(&fr, dn, fnum[0])); same(1, fr_get_field_tv(&fr, dn, fnum[1]));
    VP_ASSERT(fr_get_field_tv(&fr, dn, 1) == NULL, "no vector for the other field");
    VP_ASSERT(fr_get_field_tv(&fr, -1, fnum[0]) == NULL && fr_get_field_tv(&fr, dn + 1, fnum[0]) == NULL, "no vector outside the index");
#else
    fr_get_tv(&fr, dn); VP_ASSERT(nh == 2, "all the vectors");
    for (f = 0; f < 2; f++) { j = hk[0] == (void *)&NM[fnum[f]] ? 0 : 1; VP_ASSERT(hk[j] == (void *)&NM[fnum[f]], "by field"); same(f, (TermVector *)hv[j]); }
#endif
    VP_REACH("done");
}
