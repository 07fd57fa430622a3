/*VP{
"property":"P16",
"title":"sorting by fields: the order within one index is the lexicographic order of the sort fields with ties by document, and merging across indexes uses the same order",
"functions":["fshq_lt","fdshq_lt","sf_int_compare","sf_byte_compare","sf_float_compare","sf_score_compare","sf_doc_compare","sf_string_compare","sf_int_get_val","sf_byte_get_val","sf_float_get_val","sf_score_get_val","sf_doc_get_val","sf_string_get_val","sort_field_new","comparator_new"],
"proof":{"unwind":5},
"bounded":{"K":2,"unwind":5},
"assume":["two sort keys; strings are compared by strcoll, taken as an arbitrary but fixed order"]
}VP*/
#define VP_EXACT_MEM
#include "env.h"
static int sgn(long x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
#ifndef VP_NATIVE
static int sco;  /* order of the strings "a" and "b" */
int vp_strcoll(const char *a, const char *b) { return *a == *b ? 0 : *a == 'a' ? sco : -sco; }
#define strcoll vp_strcoll
#endif
#include "field_index.h"
#include "internal.h"
const FieldIndexClass BYTE_FIELD_INDEX_CLASS, INTEGER_FIELD_INDEX_CLASS, FLOAT_FIELD_INDEX_CLASS, STRING_FIELD_INDEX_CLASS;
#include "sort.c"
static Hit h[2]; static long li[2][2]; static float fl[2][2]; static char *vals[3]; static long si[2][2]; static StringIndex S[2];
/* what one key says about hits 0 and 1: < 0 when hit 0 comes first */
static int key(int k, int type, int rev)
{
    int c = 0;
    switch (type) {
    case SORT_TYPE_SCORE: c = h[0].score > h[1].score ? -1 : h[0].score < h[1].score; break;
    case SORT_TYPE_DOC: c = sgn((long)h[0].doc - h[1].doc); break;
    case SORT_TYPE_BYTE: case SORT_TYPE_INTEGER: c = li[k][0] < li[k][1] ? -1 : li[k][0] > li[k][1]; break;
    case SORT_TYPE_FLOAT: c = fl[k][0] < fl[k][1] ? -1 : fl[k][0] > fl[k][1]; break;
    default: { char *a = vals[si[k][0]], *b = vals[si[k][1]]; c = !a ? (b ? 1 : 0) : !b ? -1 : sgn(strcoll(a, b)); }
    }
    return rev ? -c : c;
}
HARNESS
{
    Sorter so; Comparator *cs[2]; SortField *sf[2]; int n = (int)vp_range(0, 2), i, t, rev, c = 0, j; bool a, b; FieldDoc *fd[2]; static long pad[8];
    static const int types[6] = { SORT_TYPE_SCORE, SORT_TYPE_DOC, SORT_TYPE_BYTE, SORT_TYPE_INTEGER, SORT_TYPE_FLOAT, SORT_TYPE_STRING };
#ifndef VP_NATIVE
    sco = vp_bool() ? 4 : -9;
#endif
    h[0].doc = 0; h[1].doc = 1; if (vp_bool()) { h[0].doc = 1; h[1].doc = 0; }
    h[0].score = (float)vp_int(); h[1].score = (float)vp_int();
    vals[0] = NULL; vals[1] = "a"; vals[2] = "b";
    so.c_cnt = n; so.comparators = cs;
    fd[0] = malloc(sizeof(FieldDoc) + 2 * sizeof(Comparable)); fd[1] = malloc(sizeof(FieldDoc) + 2 * sizeof(Comparable));
    for (i = 0; i < 2; i++) {
        for (j = 0; j < 2; j++) { li[i][j] = vp_i64(); fl[i][j] = (float)vp_int(); si[i][j] = (long)vp_range(0, 2); fd[j]->hit = h[j]; fd[j]->size = n; }
        S[i].index = si[i]; S[i].values = vals;
    }
    for (i = 0; i < n; i++) {
        long ix[2]; t = types[(int)vp_range(0, 5)]; rev = vp_bool();
        sf[i] = sort_field_new(NULL, t, rev);
        VP_ASSERT(sf[i]->type == t && !!sf[i]->reverse == rev, "a sort field has its type and direction");
        if (c == 0) c = key(i, t, rev);
    }
    for (i = 0; i < n; i++) {
        void *index; t = sf[i]->type;
        /* per-document arrays are indexed by document number */
        if (h[0].doc == 1) { long x = li[i][0]; float f = fl[i][0]; li[i][0] = li[i][1]; li[i][1] = x; fl[i][0] = fl[i][1]; fl[i][1] = f; x = si[i][0]; si[i][0] = si[i][1]; si[i][1] = x; }
        index = t == SORT_TYPE_FLOAT ? (void *)fl[i] : t == SORT_TYPE_STRING ? (void *)&S[i] : (void *)li[i];
        cs[i] = comparator_new(index, sf[i]->reverse, sf[i]->compare);
        for (j = 0; j < 2; j++) { sf[i]->get_val(index, &h[j], &fd[j]->comparables[i]); fd[j]->comparables[i].type = t; fd[j]->comparables[i].reverse = sf[i]->reverse; }
    }
    if (c == 0) c = sgn((long)h[0].doc - h[1].doc);
    a = fshq_lt(&so, &h[0], &h[1]); b = fdshq_lt(fd[0], fd[1]);
    VP_ASSERT(!!a == (c > 0), "a hit is less (worse) exactly when it sorts after the other");
    VP_ASSERT(!!b == (c > 0), "hits from several indexes are merged in the same order");
    VP_REACH("done");
}
