/*VP{
"property":"P12","also":["P21"],
"title":"opening several indexes as one joins their field lists: every field has all properties it has anywhere, and its number in each index is recorded",
"functions":["mr_open"],
"prune":{"src/index.c":["&","mr_open"]},
"replace":["mr_new:vp_mrnew","ir_setup:vp_setup"],
"limit":"2 indexes with at most 2 fields",
"proof":{"unwind":5},
"bounded":{"K":2,"unwind":5}
}VP*/
#define VP_FREE_PTR
#define VP_EXACT_MEM
#include "env.h"
#include "index.c"
static MultiReader M; static IndexReader SR_[2]; static FieldInfos F[2], *J; static FieldInfo FI[2][2], *fp[2][2]; static Hash H[2], HJ; static char SY[3];
IndexReader *vp_mrnew(IndexReader **s, const int n) { VP_ASSERT(n == 2 && s[0] == &SR_[0] && s[1] == &SR_[1], "of these indexes"); return (IndexReader *)&M; }
IndexReader *vp_setup(IndexReader *ir, Store *st, SegmentInfos *sis, FieldInfos *fis, int own) { VP_ASSERT(ir == (IndexReader *)&M && !own, "the reader"); J = fis; return ir; }
static FieldInfo *jv[4]; static int nj;
Hash *frt_h_new_int(free_ft f) { nj = 0; return &HJ; }
void *frt_h_get(Hash *h, const void *k) { int j; if (h == &HJ) { for (j = 0; j < 4; j++) if (j < nj && jv[j]->name == (Symbol)k) return jv[j]; return NULL; } { FieldInfos *f = h == &H[0] ? &F[0] : &F[1]; for (j = 0; j < 2; j++) if (j < f->size && f->fields[j]->name == (Symbol)k) return f->fields[j]; return NULL; } }
int frt_h_set_safe(Hash *h, const void *k, void *v) { VP_ASSERT(h == &HJ && nj < 4 && frt_h_get(h, k) == NULL, "a field is added once"); jv[nj++] = v; return 1; }
HARNESS
{
    IndexReader *sp[2] = { &SR_[0], &SR_[1] }; int i, j, k, same = 1;
    for (i = 0; i < 2; i++) { for (j = 0; j < 2; j++) { FI[i][j].name = (Symbol)&SY[vp_range(0, 2)]; FI[i][j].bits = vp_u32() & 0xff; FI[i][j].number = j; fp[i][j] = &FI[i][j]; } VP_ASSUME(FI[i][0].name != FI[i][1].name); F[i].fields = fp[i]; F[i].size = (int)vp_range(0, 2); F[i].field_dict = &H[i]; SR_[i].fis = &F[i]; }
    M.field_num_map = NULL; J = NULL;
    VP_ASSERT(mr_open(sp, 2) == (IndexReader *)&M && J != NULL && J->size == nj, "a reader with the joint list");
    for (k = 0; k < 4; k++) if (k < J->size) { unsigned b = 0; int have = 0;
        for (i = 0; i < 2; i++) { int at = -1; for (j = 0; j < 2; j++) if (j < F[i].size && FI[i][j].name == J->fields[k]->name) { at = j; b |= FI[i][j].bits; have = 1; } if (at != k) { if (at >= 0) same = 0; if (!M.field_num_map) VP_ASSERT(at < 0, "where the numbers differ there is a map"); } if (M.field_num_map) VP_ASSERT(M.field_num_map[i][k] == at, "to the number of the field in that index, or -1"); }
        VP_ASSERT(have && J->fields[k]->bits == b && J->fields[k]->number == k, "each field once, with all its properties"); }
    for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) if (j < F[i].size) { FieldInfo *x = frt_h_get(&HJ, FI[i][j].name); VP_ASSERT(x != NULL, "no field is lost"); }
    VP_REACH("done");
}
