/*VP{
"property":"P22",
"title":"bytes asked of a lazily loaded field are those of its values joined by single spaces, compressed or not",
"functions":["lazy_df_get_bytes"],
"variants":[{"name":"zip","defs":["Z=1"]},{"name":"zip2","defs":["Z=2"]},{"name":"plain","defs":["Z=0"]}],
"prune":{"src/index.c":["&","lazy_df_get_bytes"]},
"replace":["frt_lazy_df_get_data:vp_data"],
"limit":"fields of at most 3 values of at most 2 bytes",
"proof":{"unwind":10},
"bounded":{"K":3,"unwind":10}
}VP*/
#define VP_LIB_MEM
#include "env.h"
#include "index.c"
static char T[3][3]; static char IN; static off_t sk; static int rl, got; static char *rb;
char *vp_data(LazyDocField *f, int i) { VP_ASSERT(i >= 0 && i < f->size, "a value of the field"); f->data[i].text = T[i]; got |= 1 << i; return T[i]; }
void frt_is_seek(InStream *is, off_t p) { VP_ASSERT(is == (InStream *)&IN, "the document file"); sk = p; }
uchar *frt_is_read_bytes(InStream *is, uchar *b, int n) { VP_ASSERT(is == (InStream *)&IN, "the document file"); rb = (char *)b; rl = n; return b; }
HARNESS
{
    LazyDoc d; int i, k, len, start, tot = 0; char exp[9], buf[9]; int bad; LazyDocField F; LazyDocFieldData da[3], *dd = da; LazyDocField *f = &F;
    f->data = dd;
    f->size = (int)vp_range(1, 3); d.fields_in = (InStream *)&IN; f->doc = &d; f->is_compressed = Z; sk = -1; rl = -1; rb = NULL; got = 0;
    for (i = 0; i < 3; i++) { T[i][0] = (char)vp_byte(); T[i][1] = (char)vp_byte(); f->data[i].length = (int)vp_range(0, 2); T[i][f->data[i].length] = 0; f->data[i].text = Z == 2 ? T[i] : NULL; f->data[i].start = Z ? 0 : vp_range(0, 1000000); }
    for (i = 0; i < 3; i++) if (i < f->size) { if (i) exp[tot++] = ' '; for (k = 0; k < 2; k++) if (k < f->data[i].length) exp[tot++] = T[i][k]; }
    f->len = Z == 1 ? (int)vp_u32() : tot;
    start = vp_bool() ? (int)vp_u32() : (int)vp_range(-2, 9); len = vp_bool() ? (int)vp_u32() : (int)vp_range(-1, 9); VP_ASSUME((i64)start + len <= 2147483647);
    for (i = 0; i < 9; i++) buf[i] = 'q';
    bad = start < 0 || start >= tot || len <= 0 || start + len > tot; vp_raise_ok = bad;
    lazy_df_get_bytes(f, buf, start, len);
    VP_ASSERT(!bad, "refused when the bytes are not all in the field");
    {
#if Z
        for (i = 0; i < 9; i++) VP_ASSERT(buf[i] == (i < len ? exp[start + i] : 'q'), "the bytes of the joined values, and no others");
#else
        VP_ASSERT(sk == f->data[0].start + start && rl == len && rb == buf, "read where they are stored");
#endif
    }
    VP_REACH("done");
}
