/*VP{
"property":"P13","also":["P22"],
"title":"merging segments copies the stored fields, term vectors and norms of every remaining document, in order, and nothing else",
"functions":["sm_merge_fields","sm_merge_norms","sm_merge"],
"variants":[{"name":"fields","defs":["OP=0"],"prune":{"src/index.c":["&","sm_merge_fields"]},"replace":["frt_bv_get:vp_bvget"]},
{"name":"norms","defs":["OP=1"],"prune":{"src/index.c":["&","sm_merge_norms"]},"replace":["frt_bv_get:vp_bvget","si_norm_file_name:vp_nfn","frt_si_advance_norm_gen:vp_adv"],"proof":{"unwind":4}},
{"name":"all","defs":["OP=2"],"prune":{"src/index.c":["&","sm_merge"]},"replace":["sm_merge_fields:vp_mf","sm_merge_terms:vp_mt","sm_merge_norms:vp_mn"],"limit":""}],
"limit":"2 segments of at most 2 documents, 2 fields",
"proof":{"unwind":9},
"bounded":{"K":3,"unwind":9}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include <stdarg.h>
#ifndef VP_NATIVE
int sprintf(char *o, const char *f, ...)
{
    va_list ap; char *o0 = o; va_start(ap, f);
    for (; *f; f++) {
        if (*f != '%') *o++ = *f;
        else { const char *s; VP_ASSERT(*++f == 's', "a name"); s = va_arg(ap, const char *); while (*s) *o++ = *s++; }
    }
    *o = 0; va_end(ap); return (int)(o - o0);
}
#endif
#include "index.c"
static Store SST[2], CST[2], OST; static SegmentInfo SI[2], NSI; static SegmentMergeInfo M[2]; static char NM[3][4] = { "0", "1", "N" };
static BitVector BV[2]; static int del[2][2], D[2], nopen, nclose, step;
static off_t vp_len(InStream *is); static const struct InStreamMethods IM = { NULL, NULL, vp_len, NULL };
static InStream FT[2], FX[2]; static OutStream OT, OX;
static int EL[5], NE, ep;   /* the remaining documents in order: 2 * segment + document */
static int live(int s, int d) { return !M[s].deleted_docs || !del[s][d]; }
int vp_bvget(BitVector *bv, int bit) { VP_ASSERT(bv == &BV[0] || bv == &BV[1], "the segment's deletions"); VP_ASSERT(bit >= 0 && bit < 2, "a document of the segment"); return del[bv == &BV[1]][bit]; }
#if OP == 0
static i64 ptr[2][3]; static u32 tvo[2][2]; static int rx[2], seekd; static i64 opos;
static OutStream *nout(Store *s, const char *n) { VP_ASSERT(s == &OST && n[0] == 'N' && n[1] == '.' && n[2] == 'f' && n[3] == 'd' && (n[4] == 't' || n[4] == 'x') && n[5] == 0, "files of the new segment"); nopen++; return n[4] == 't' ? &OT : &OX; }
static InStream *oin(Store *s, const char *n) { int k = n[0] - '0'; VP_ASSERT((k == 0 || k == 1) && s == &SST[k] && n[1] == '.' && n[2] == 'f' && n[3] == 'd' && (n[4] == 't' || n[4] == 'x') && n[5] == 0, "files of the segment, from where they are"); nopen++; return n[4] == 't' ? &FT[k] : &FX[k]; }
u64 frt_is_read_u64(InStream *is) { int k = is == &FX[1]; VP_ASSERT((is == &FX[0] || is == &FX[1]) && rx[k] % 2 == 0 && rx[k] / 2 < D[k], "an index entry starts with the position"); return (u64)ptr[k][rx[k]++ / 2]; }
u32 frt_is_read_u32(InStream *is) { int k = is == &FX[1]; VP_ASSERT((is == &FX[0] || is == &FX[1]) && rx[k] % 2 == 1, "followed by the offset of the term vectors"); return tvo[k][rx[k]++ / 2]; }
static off_t vp_len(InStream *is) { int k = is == &FT[1]; VP_ASSERT(is == &FT[0] || is == &FT[1], "the data file"); return ptr[k][D[k]]; }
off_t frt_os_pos(OutStream *os) { VP_ASSERT(os == &OT, "the data file"); return opos; }
#define xs (EL[ep] >> 1)
#define xd (EL[ep] & 1)
void frt_os_write_u64(OutStream *os, u64 v) { VP_ASSERT(os == &OX && step == 0, "an index entry"); VP_ASSERT(ep < NE && v == (u64)opos, "per remaining document: where its data starts in the new file"); step = 1; }
void frt_os_write_u32(OutStream *os, u32 v) { VP_ASSERT(os == &OX && step == 1 && v == tvo[xs][xd], "and the offset of its term vectors"); step = 2; }
void frt_is_seek(InStream *is, off_t p) { VP_ASSERT(is == &FT[0] || is == &FT[1], "the data file"); seekd = (is == &FT[xs]) && p == ptr[xs][xd]; }
void frt_is2os_copy_bytes(InStream *is, OutStream *os, int n) { VP_ASSERT(os == &OT && step == 2 && is == &FT[xs] && seekd && n == ptr[xs][xd + 1] - ptr[xs][xd], "and all of its data"); seekd = 0; opos += n; step = 0; ep++; }
#elif OP == 1
static off_t vp_len(InStream *is) { return 0; }
static uchar nb[2][2][2]; static int gens[2][2], adv[2], cur, ph, rk;
#define os_ (EL[ep] >> 1)
#define od (EL[ep] & 1)
static FieldInfo FI[2], *fp[2]; static FieldInfos FS;
void vp_adv(SegmentInfo *si, int f) { VP_ASSERT(si == &NSI && f >= 0 && f < 2 && fi_has_norms(&FI[f]), "the new segment has norms of the field"); adv[f]++; }
char *vp_nfn(SegmentInfo *si, char *b, int f) { int k = si == &NSI ? 2 : si == &SI[1]; VP_ASSERT(f >= 0 && f < 2, "a field"); if (k < 2 && gens[k][f] < 0) return NULL; VP_ASSERT(k < 2 || adv[f] == 1, "under a name of its own"); b[0] = NM[k][0]; b[1] = (char)('a' + f); b[2] = 0; return b; }
static OutStream *nout(Store *s, const char *n) { VP_ASSERT(s == &OST && n[0] == 'N' && ph == 0, "a norms file of the new segment"); cur = n[1] - 'a'; ep = 0; ph = 1; nopen++; return &OT; }
static InStream *oin(Store *s, const char *n) { int k = n[0] - '0', f = n[1] - 'a'; VP_ASSERT((k == 0 || k == 1) && f == cur, "the norms of that field"); VP_ASSERT(s == (SI[k].use_compound_file && gens[k][f] == 0 ? &CST[k] : &SST[k]), "norms set after the compound file was made lie beside it"); nopen++; rk = 0; return &FT[k]; }
uchar frt_is_read_byte(InStream *is) { int k = is == &FT[1]; VP_ASSERT(rk < D[k], "within the file"); return nb[k][cur][rk++]; }
static void outb(uchar b) { VP_ASSERT(ph == 1 && ep < NE, "one byte per remaining document"); VP_ASSERT(b == (gens[os_][cur] < 0 ? 0 : nb[os_][cur][od]), "its norm"); ep++; }
void frt_os_write_byte(OutStream *os, uchar b) { VP_ASSERT(os == &OT, "the new file"); outb(b); }
void frt_is2os_copy_bytes(InStream *is, OutStream *os, int n) { int i, k = is == &FT[1]; VP_ASSERT(os == &OT && rk == 0 && n >= 0 && n <= D[k], "within the file"); for (i = 0; i < 2; i++) if (i < n) outb(nb[k][cur][rk++]); }
#endif
#if OP < 2
void frt_is_close(InStream *is) { nclose++; }
#if OP == 0
void frt_os_close(OutStream *os) { nclose++; }
#else
void frt_os_close(OutStream *os) { VP_ASSERT(ph == 1 && ep == NE, "the file is complete"); ph = 0; nclose++; }
#endif
#else
static int seq; void vp_mf(SegmentMerger *s) { seq |= 1; } void vp_mt(SegmentMerger *s) { seq |= 2; } void vp_mn(SegmentMerger *s) { seq |= 4; }
#endif
HARNESS
{
#if OP < 2
    SegmentMerger sm; SegmentMergeInfo *sp[2]; int i, j; NE = ep = 0;
    for (i = 0; i < 2; i++) {
        int c = 0; D[i] = (int)vp_range(0, 2); sp[i] = &M[i]; SI[i].name = NM[i]; M[i].si = &SI[i]; M[i].max_doc = D[i]; M[i].deleted_docs = vp_bool() ? &BV[i] : NULL;
        for (j = 0; j < 2; j++) { del[i][j] = vp_bool(); if (j < D[i] && live(i, j)) { c++; EL[NE++] = 2 * i + j; } }
        M[i].doc_cnt = c; SST[i].open_input = oin; CST[i].open_input = oin; SI[i].use_compound_file = vp_bool(); M[i].orig_store = &SST[i]; M[i].store = OP == 1 && SI[i].use_compound_file ? &CST[i] : &SST[i];
    }
    for (i = 0; i < 2; i++) FT[i].m = FX[i].m = (struct InStreamMethods *)&IM;
    NSI.name = NM[2]; OST.new_output = nout; sm.store = &OST; sm.si = &NSI; sm.smis = sp; sm.seg_cnt = 2; nopen = nclose = step = 0;
#if OP == 0
    for (i = 0; i < 2; i++) { i64 p = (i64)vp_range(0, 5); for (j = 0; j < 3; j++) { ptr[i][j] = p; p += (i64)vp_range(0, 1000); } tvo[i][0] = vp_u32(); tvo[i][1] = vp_u32(); rx[i] = 0; }
    seekd = 0; opos = 0;
    sm_merge_fields(&sm);
    VP_ASSERT(ep == NE && step == 0, "every remaining document is copied"); VP_ASSERT(nopen == 6 && nclose == 6, "all files are closed");
#else
    for (i = 0; i < 2; i++) { FI[i].bits = vp_u32() & 0xff; FI[i].number = i; fp[i] = &FI[i]; adv[i] = 0; SI[i].norm_gens = gens[i]; SI[i].norm_gens_size = 2; for (j = 0; j < 2; j++) { gens[i][j] = (int)vp_range(-1, 2); nb[i][j][0] = vp_byte(); nb[i][j][1] = vp_byte(); } }
    FS.fields = fp; FS.size = 2; sm.fis = &FS; ph = 0;
    sm_merge_norms(&sm);
    VP_ASSERT(adv[0] == fi_has_norms(&FI[0]) && adv[1] == fi_has_norms(&FI[1]), "every field with norms gets a file"); VP_ASSERT(ph == 0 && nopen == nclose, "all files are closed");
#endif
#else
    SegmentMerger sm; seq = 0; sm.doc_cnt = vp_int(); VP_ASSERT(sm_merge(&sm) == sm.doc_cnt && seq == 7, "fields, terms and norms are merged");
#endif
    VP_REACH("done");
}
