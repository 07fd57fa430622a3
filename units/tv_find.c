/*VP{
"property":"P23",
"title":"a term is found in a vector exactly when it is there, and a scan stops at the first term not before it",
"functions":["tv_scan_to_term_index","tv_get_term_index","tv_get_tv_term"],
"limit":"vectors of at most 12 terms",
"proof":{"unwind":14},
"bounded":{"K":3,"unwind":14}
}VP*/
#include "env.h"
#include "index.h"
#include "internal.h"
static char TX[13]; static int at, eq, n;
static int vp_cmp(const char *a, const char *b)
{
    int i, s = 1; if (b == &TX[12]) { const char *t = a; a = b; b = t; s = -1; }
    VP_ASSERT(a == &TX[12] && b >= TX && b < TX + n, "the term is compared with terms of the vector"); i = (int)(b - TX);
    return i < at ? s * 5 : i == at && eq ? 0 : s * -3;
}
#undef strcmp
#define strcmp vp_cmp
#include "term_vectors.c"
HARNESS
{
    TermVector tv; TVTerm t[12]; int i, r; TVTerm *p;
    n = (int)vp_range(0, 12); at = (int)vp_range(0, 12); eq = vp_bool(); VP_ASSUME(at <= n && (!eq || at < n));
    for (i = 0; i < 12; i++) t[i].text = &TX[i]; tv.term_cnt = n; tv.terms = t;
    r = tv_scan_to_term_index(&tv, &TX[12]); VP_ASSERT(r == at, "the first term that is not before it");
    r = tv_get_term_index(&tv, &TX[12]); VP_ASSERT(eq ? r == at : r < 0, "found exactly when it is there");
    p = tv_get_tv_term(&tv, &TX[12]); VP_ASSERT(p == (eq ? &t[at] : NULL), "found exactly when it is there");
    VP_REACH("done"); if (eq) VP_REACH("there"); else VP_REACH("absent");
}
