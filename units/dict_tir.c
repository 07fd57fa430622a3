/*VP{
"property":"P10",
"title":"the entry of a term is given exactly when the field has the term",
"functions":["tir_get_ti","tir_get_ti_field","tir_set_field","tir_get_term","tir_enum"],
"prune":{"src/index.c":["&","tir_get_ti","tir_get_ti_field","tir_set_field","tir_get_term"]},
"replace":["ste_scan_to:vp_scan","ste_set_field:vp_setf","frt_ste_clone:vp_clone","ste_get_term:vp_nth"],
"limit":"terms of at most 2 bytes",
"proof":{"unwind":6},
"bounded":{"K":3,"unwind":6}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "threading.h"
void *vp_tget(void); int vp_tset(const void *p);
#undef frt_thread_getspecific
#undef frt_thread_setspecific
#define frt_thread_getspecific(k) vp_tget()
#define frt_thread_setspecific(k, p) vp_tset(p)
#include "index.c"
static SegmentTermEnum E, O; static TermInfosReader R; static int fld, have, cl, pushed; static char found[3], word[3]; static void *tls;
char *vp_scan(TermEnum *te, const char *t) { VP_ASSERT(te == TE(&E) && t == word, "the term, in the enumeration of this thread"); return have ? found : NULL; }
TermEnum *vp_setf(TermEnum *te, int f) { VP_ASSERT(te == TE(&E), "the enumeration of this thread"); fld = f; te->field_num = f; return te; }
TermEnum *vp_clone(TermEnum *te) { VP_ASSERT(te == TE(&O) && !cl, "one enumeration for each thread"); cl = 1; return TE(&E); }
char *vp_nth(TermEnum *te, int p) { VP_ASSERT(te == TE(&E) && p >= 0, "the enumeration of this thread"); return found; }
void *vp_tget(void) { return tls; }
int vp_tset(const void *p) { tls = (void *)p; return 0; }
void frt_ary_push_i(void ***a, void *v) { VP_ASSERT(v == TE(&E), "kept for closing"); pushed++; }
HARNESS
{
    int f0 = (int)vp_range(0, 100) - 1, f = (int)vp_range(0, 100), k, op = (int)vp_range(0, 3), eq, fl0; TermInfo *t; static void *bucket;
    for (k = 0; k < 2; k++) { found[k] = (char)vp_byte(); word[k] = (char)vp_byte(); } found[2] = word[2] = 0; have = vp_bool(); cl = pushed = 0; R.orig_te = TE(&O); R.field_num = f0; fld = -2; TE(&O)->field_num = -1;
    if (vp_bool()) { tls = TE(&E); fld = vp_bool() ? f0 : (int)vp_range(0, 100) - 1; } else { tls = NULL; fld = -1; } TE(&E)->field_num = fld; fl0 = fld;   /* another thread may have used the reader on another field since */
    R.te_bucket = &bucket; eq = have && found[0] == word[0] && (found[0] == 0 || found[1] == word[1]);
    if (op == 0) { t = tir_get_ti(&R, word); VP_ASSERT(t == (eq ? &TE(&E)->curr_ti : NULL) && (fld == f0 || fld == fl0) && R.field_num == f0, "the entry of the term if the current field has it"); }
    else if (op == 1) { t = tir_get_ti_field(&R, f, word); VP_ASSERT(t == (eq ? &TE(&E)->curr_ti : NULL) && fld == f, "the entry of the term if the field has it"); }
    else if (op == 2) { VP_ASSERT(tir_set_field(&R, f) == &R && R.field_num == f && (fld == f || (f == f0 && tls == NULL)), "on the field"); }
    else { int p = vp_int(); char *c = tir_get_term(&R, p); VP_ASSERT(c == (p < 0 ? NULL : found), "the term of that number, none below zero"); }
    VP_ASSERT(cl == pushed && (!cl || tls == TE(&E)), "a new enumeration is kept for the thread and for closing");
    VP_REACH("done");
}
