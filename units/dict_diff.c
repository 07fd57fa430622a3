/*VP{
"property":"P10","also":["P11","P13"],
"title":"the shared prefix of two terms is measured exactly",
"functions":["hlp_string_diff"],
"loops":[{"file":"src/helper.c","func":"hlp_string_diff","loop":0,"of":1,"text":"__CPROVER_assigns(i) __CPROVER_loop_invariant(i >= 0 && i <= g_n && i <= g_m && (g_w >= 0 && g_w < i ==> (s1[g_w] == s2[g_w] && s1[g_w] != 0))) __CPROVER_decreases(g_n - i)"}],
"proof":{"unwind":6},
"bounded":{"K":4,"unwind":7}
}VP*/
static int g_n, g_m, g_w;
#include "env.h"
#include "helper.c"
HARNESS
{
    int n = (int)vp_range(0, VP_SZ(100000, 4)), m = (int)vp_range(0, VP_SZ(100000, 4)), w = (int)vp_range(0, VP_SZ(100000, 4)), r; char *a = (char *)malloc((size_t)n + 1), *b = (char *)malloc((size_t)m + 1);
#ifndef VP_PROOF
    { int k; for (k = 0; k < n; k++) { a[k] = (char)vp_range(0, 2); } for (k = 0; k < m; k++) b[k] = (char)vp_range(0, 2); }
#endif
    a[n] = 0; b[m] = 0; g_n = n; g_m = m; g_w = w;
    r = hlp_string_diff(a, b);
    VP_ASSERT(r >= 0 && r <= n && r <= m, "inside both terms");
    if (w < r) VP_ASSERT(a[w] == b[w] && a[w] != 0, "the terms agree up to there");
    VP_ASSERT(a[r] == 0 || a[r] != b[r], "and no further");
    VP_REACH("done");
}
