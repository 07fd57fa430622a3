/*VP{
"property":"P25",
"title":"the similarity of a word is that of its edit distance whenever the distance is within the limit, and the limit follows from the similarity asked for",
"functions":["fuzq_score","fuzq_score_mn","fuzq_get_max_distance"],
"variants":[{"name":"11","defs":["M=1","N=1"]},{"name":"12","defs":["M=1","N=2"]},{"name":"21","defs":["M=2","N=1"]},{"name":"22","defs":["M=2","N=2"]},{"name":"13","defs":["M=1","N=3"]},{"name":"31","defs":["M=3","N=1"]},{"name":"23","defs":["M=2","N=3"]},{"name":"32","defs":["M=3","N=2"]},{"name":"33","defs":["M=3","N=3"]},{"name":"0","defs":["M=0","N=3"]},{"name":"empty","defs":["M=2","N=0"]}],
"limit":"words of at most 3 characters after the prefix",
"proof":{"unwind":6},
"bounded":{"K":3,"unwind":6}
}VP*/
#define VP_LIB_MEM
#include "env.h"
#include "q_fuzzy.c"
static int m3(int a, int b, int c) { int r = a < b ? a : b; return r < c ? r : c; }
HARNESS
{
    static FuzzyQuery f; char a[4], b[4]; int d[4][4], i, j, da[8], mx, len; float r, e;
    f.da = da; f.text = b; f.text_len = N; f.pre_len = (int)vp_range(0, 2); mx = (int)vp_range(0, 4); f.max_distances[M] = mx;
    for (i = 0; i < 4; i++) { a[i] = (char)vp_range('a', 'c'); b[i] = (char)vp_range('a', 'c'); } a[M] = 0; b[N] = 0;
    for (i = 0; i <= M; i++) for (j = 0; j <= N; j++) d[i][j] = !i ? j : !j ? i : m3(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]));
    len = f.pre_len + (M < N ? M : N); e = len ? 1.0f - (float)d[M][N] / (float)len : 0.0f;
    r = fuzq_score(&f, a);
    VP_ASSERT(r == e || (d[M][N] > mx && M && N && r == 0.0f), "the similarity of the edit distance");
    VP_REACH("done"); if (r == e) VP_REACH("scored");
}
