/*VP{
"property":"P22",
"title":"a stored document is read back with exactly its stored fields and values, whole or field by field",
"functions":["fw_add_doc","fr_get_doc","fr_df_new","fr_read_zipped_fields","fr_get_lazy_doc","lazy_doc_new","lazy_df_new","lazy_doc_add_field","lazy_df_get_data","fr_clone"],
"variants":[{"name":"doc-plain","defs":["OP=0","B0=(VPS)","B1=(0)","S0=2","S1=0","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_doc"]}},
 {"name":"doc-zip","defs":["OP=0","B0=(VPS|VPC)","B1=(0)","S0=2","S1=0","ND=1"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_doc"]}},
 {"name":"doc-second","defs":["OP=0","B0=(0)","B1=(VPS)","S0=1","S1=1","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_doc"]}},
 {"name":"doc-both","defs":["OP=0","B0=(VPS)","B1=(VPS|VPC)","S0=1","S1=1","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_doc"]}},
 {"name":"doc-none","defs":["OP=0","B0=(0)","B1=(VPC)","S0=1","S1=1","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_doc"]}},
 {"name":"doc-two","defs":["OP=0","B0=(VPS)","B1=(VPS)","S0=1","S1=2","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_doc"]}},
 {"name":"doc-zipfirst","defs":["OP=0","B0=(VPS|VPC)","B1=(VPS)","S0=1","S1=2","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_doc"]}},
 {"name":"doc-empty","defs":["OP=0","B0=(VPS)","B1=(VPS)","S0=0","S1=1","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_doc"]}},
 {"name":"lazy-plain","defs":["OP=1","B0=(VPS)","B1=(0)","S0=2","S1=0","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_lazy_doc","lazy_df_get_data"]}},
 {"name":"lazy-zip","defs":["OP=1","B0=(VPS|VPC)","B1=(0)","S0=2","S1=0","ND=1"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_lazy_doc","lazy_df_get_data"]}},
 {"name":"lazy-second","defs":["OP=1","B0=(0)","B1=(VPS)","S0=1","S1=1","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_lazy_doc","lazy_df_get_data"]}},
 {"name":"lazy-both","defs":["OP=1","B0=(VPS)","B1=(VPS|VPC)","S0=1","S1=1","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_lazy_doc","lazy_df_get_data"]}},
 {"name":"lazy-none","defs":["OP=1","B0=(0)","B1=(VPC)","S0=1","S1=1","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_lazy_doc","lazy_df_get_data"]}},
 {"name":"lazy-two","defs":["OP=1","B0=(VPS)","B1=(VPS)","S0=1","S1=2","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_lazy_doc","lazy_df_get_data"]}},
 {"name":"lazy-zipfirst","defs":["OP=1","B0=(VPS|VPC)","B1=(VPS)","S0=1","S1=2","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_lazy_doc","lazy_df_get_data"]}},
 {"name":"lazy-empty","defs":["OP=1","B0=(VPS)","B1=(VPS)","S0=0","S1=1","ND=2"],"prune":{"src/index.c":["&","fw_add_doc","fr_get_lazy_doc","lazy_df_get_data"]}}],
"replace":["os_write_zipped_bytes:vp_zip","is_read_zipped_bytes:vp_unzip","frt_fis_get_or_add_field:vp_goa","frt_fis_get_field:vp_get"],
"limit":"documents of 1 or 2 fields with at most 2 values of at most 2 bytes",
"assume":["the codec gives back what it was given (unit zip_io for the framing)","streams by their contracts (P01-P03)"],
"proof":{"unwind":5,"args":["--unwindset","frt_ramo_write_to.0:18"]},
"bounded":{"K":3,"unwind":18}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "index.c"
#define NB 64
#define VPS FI_IS_STORED_BM
#define VPC FI_IS_COMPRESSED_BM
static int FD[NB], nfd, BU[16], nbu, pos_; static u64 fx; static int fxw, dn; static char OD, OX, OB, ID, IX, IC; static FieldInfo FI[2]; static FieldInfos FS; static FieldInfo *fip[2]; static DocField D[2], *dfp[2]; static const char N0 = 0, N1 = 1; static Document DOC; static char V[2][2][2], *vp_[2][2]; static int L[2][2]; static void *tvf[4]; static char HD;
void frt_os_write_vint(OutStream *o, register unsigned int v) { VP_ASSERT(o == (OutStream *)&OD && nfd < NB, "the document file"); FD[nfd++] = (int)v; }
void frt_os_write_u64(OutStream *o, u64 v) { VP_ASSERT(o == (OutStream *)&OX && !fxw, "one entry for the document"); fx = v; fxw = 1; }
void frt_os_write_bytes(OutStream *o, const uchar *b, int n) { int k; VP_ASSERT(o == (OutStream *)&OB, "values go behind the lengths"); for (k = 0; k < 2; k++) if (k < n) BU[nbu + k] = b[k]; nbu += n; }
void frt_os_write_byte(OutStream *o, uchar b) { VP_ASSERT(o == (OutStream *)&OB && nbu < 16, "values go behind the lengths"); BU[nbu++] = b; }
off_t frt_os_pos(OutStream *o) { return nfd; }
void frt_ramo_reset(OutStream *o) { VP_ASSERT(o == (OutStream *)&OB, "the buffer"); nbu = 0; }
void frt_ramo_write_to(OutStream *a, OutStream *b) { int k; VP_ASSERT(a == (OutStream *)&OB && b == (OutStream *)&OD, "the buffer to the file"); for (k = 0; k < 16; k++) if (k < nbu) FD[nfd + k] = BU[k]; nfd += nbu; }
/* the codec stand-in: one byte longer than the value */
int vp_zip(OutStream *o, uchar *d, int n) { int k; VP_ASSERT(o == (OutStream *)&OB, "values go behind the lengths"); BU[nbu] = 'Z'; for (k = 0; k < 2; k++) if (k < n) BU[nbu + 1 + k] = d[k] ^ 1; nbu += n + 1; return n + 1; }
char *vp_unzip(InStream *is, int zl, int *len) { char *r = (char *)malloc(3); int k; VP_ASSERT(zl >= 1 && zl <= 3 && FD[pos_] == 'Z', "a compressed value starts here, with its length"); for (k = 0; k < 2; k++) if (k < zl - 1) r[k] = (char)(FD[pos_ + 1 + k] ^ 1); r[zl - 1] = 0; pos_ += zl; *len = zl - 1; return r; }
FieldInfo *vp_goa(FieldInfos *f, Symbol n) { return n == &N0 ? &FI[0] : &FI[1]; }
FieldInfo *vp_get(FieldInfos *f, Symbol n) { return n == &N0 ? &FI[0] : &FI[1]; }
/* reading */
void frt_is_seek(InStream *is, off_t p) { if (is == (InStream *)&IX) VP_ASSERT(p == (off_t)dn * 12, "the entry of the document"); else pos_ = (int)p; }
u64 frt_is_read_u64(InStream *is) { VP_ASSERT(is == (InStream *)&IX, "the entry of the document"); return fx; }
unsigned int frt_is_read_vint(InStream *is) { VP_ASSERT(pos_ >= 0 && pos_ < nfd, "inside the file"); return (unsigned)FD[pos_++]; }
uchar *frt_is_read_bytes(InStream *is, uchar *b, int n) { int k; VP_ASSERT(n >= 1 && n <= 3 && pos_ + n <= nfd, "inside the file"); for (k = 0; k < 3; k++) if (k < n) b[k] = (uchar)FD[pos_ + k]; pos_ += n; return b; }
off_t frt_is_pos(InStream *is) { return pos_; }
InStream *frt_is_clone(InStream *is) { return (InStream *)&IC; }
#if OP == 0
static Document RD; static DocField *rdf[2];
Document *frt_doc_new(void) { RD.size = 0; RD.fields = rdf; return &RD; }
DocField *frt_doc_add_field(Document *d, DocField *f) { VP_ASSERT(d->size < 2, "no more fields than were stored"); rdf[d->size++] = f; return f; }
#else
Hash *frt_h_new_int(free_ft f) { return (Hash *)&HD; }
static void *hk[2], *hv[2]; static int nh;
HashKeyStatus frt_h_set(Hash *h, const void *k, void *v) { VP_ASSERT(nh < 2, "no more fields than were stored"); hk[nh] = (void *)k; hv[nh++] = v; return 0; }
#endif
static void one(int f, const char *name, int size, int comp) { VP_ASSERT(name == (f ? &N1 : &N0) && size == D[f].size && (comp != 0) == (fi_is_compressed(&FI[f]) != 0), "the field, with as many values as it had"); }
static void val(int f, int j, const char *d, int len, int slen) { int k; VP_ASSERT(len == L[f][j], "the length of the value"); for (k = 0; k < 2; k++) if (k < len) VP_ASSERT(d[k] == V[f][j][k], "the value"); VP_ASSERT(d[len] == 0, "terminated"); }
HARNESS
{
    FieldsWriter fw; FieldsReader fr; int i, j, n = 0, r = 0; struct { int a[3]; void *p[8]; } tv;
    nfd = 1; nbu = 0; fxw = 0; pos_ = -1; dn = (int)vp_range(0, 1000000);
    for (i = 0; i < 2; i++) { FI[i].number = i; FI[i].bits = i ? B1 | 0x10 : B0 | 0x08; FI[i].name = i ? &N1 : &N0; fip[i] = &FI[i]; dfp[i] = &D[i]; D[i].name = i ? &N1 : &N0; D[i].size = i ? S1 : S0; D[i].lengths = L[i]; D[i].data = vp_[i];
        for (j = 0; j < 2; j++) { L[i][j] = (int)vp_range(0, 2); vp_[i][j] = V[i][j]; V[i][j][0] = (char)vp_byte(); V[i][j][1] = (char)vp_byte(); } }
    FS.fields = fip; FS.size = 2; DOC.size = ND; DOC.fields = dfp; fw.fis = &FS; fw.fdt_out = (OutStream *)&OD; fw.fdx_out = (OutStream *)&OX; fw.buffer = (OutStream *)&OB; fw.tv_fields = (TVField *)&tv.p[0];
    fw_add_doc(&fw, &DOC);
    VP_ASSERT(fxw, "the document has an entry");
    fr.fis = &FS; fr.fdt_in = (InStream *)&ID; fr.fdx_in = (InStream *)&IX; fr.size = dn + 1;
    for (i = 0; i < 2; i++) if (i < DOC.size && fi_is_stored(&FI[i])) n++;
#if OP == 0
    { Document *d = fr_get_doc(&fr, dn); VP_ASSERT(d->size == n, "exactly the stored fields");
    for (i = 0; i < 2; i++) if (i < DOC.size && fi_is_stored(&FI[i])) { DocField *f = d->fields[r++]; one(i, f->name, f->size, f->is_compressed); for (j = 0; j < 2; j++) if (j < D[i].size) val(i, j, f->data[j], f->lengths[j], 0); } }
#else
    { LazyDoc *d; nh = 0; d = fr_get_lazy_doc(&fr, dn); VP_ASSERT(d->size == n && d->fields_in == (InStream *)&IC && nh == n, "exactly the stored fields");
    for (i = 0; i < 2; i++) if (i < DOC.size && fi_is_stored(&FI[i])) { LazyDocField *f = d->fields[r]; VP_ASSERT(hk[r] == (void *)f->name && hv[r] == f && f->doc == d, "found by name"); r++; one(i, f->name, f->size, f->is_compressed); j = vp_bool(); if (!f->is_compressed && f->size) VP_ASSERT(f->len == L[i][0] + (f->size > 1 ? L[i][1] + 1 : 0), "the length of the joined values"); VP_ASSERT(lazy_df_get_data(f, f->size) == NULL && lazy_df_get_data(f, -1) == NULL, "no value beyond the last");
        { int q; for (q = 0; q < 2; q++, j = 1 - j) if (j < D[i].size) { char *s = lazy_df_get_data(f, j); val(i, j, s, f->data[j].length, 0); pos_ = 0; VP_ASSERT(lazy_df_get_data(f, j) == s, "the value is kept"); } } } }
#endif
    VP_REACH("done");
}
