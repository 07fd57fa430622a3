/*VP{
"property":"P25",
"title":"a wildcard pattern matches exactly the texts it describes: ? one character, * any number",
"functions":["wc_match"],
"variants":[{"name":"a","defs":["PAT=PA"]},{"name":"b","defs":["PAT=PB"]},{"name":"c","defs":["PAT=PC"]},{"name":"d","defs":["PAT=PD"]}],
"limit":"16 shapes of patterns of at most 4 characters, texts of at most 3 characters of any kind",
"proof":{"unwind":8},
"bounded":{"K":3,"unwind":8}
}VP*/
#define VP_LIB_MEM
#include "env.h"
#include "q_wildcard.c"
#define PA "", "a", "?", "*", "ab"
#define PB "a*", "*a", "?*", "*?", "**"
#define PC "a?b", "*a*", "a*b"
#define PD "*a*b", "a*?", "**a"
/* the text does not start its object: the scan back ends one before it */
static void one(const char *PP, const int pl, const int tl)
{
    char buf[6], *TT = buf + 1; bool MM[5][5]; int i, j;
    for (i = 0; i < tl; i++) { TT[i] = vp_bool() ? 'a' : (char)vp_byte(); VP_ASSUME(TT[i]); }
    TT[tl] = 0;
    for (i = pl; i >= 0; i--) for (j = tl; j >= 0; j--)
        MM[i][j] = i == pl ? j == tl : PP[i] == '*' ? MM[i + 1][j] || (j < tl && MM[i][j + 1]) : j < tl && (PP[i] == '?' || PP[i] == TT[j]) && MM[i + 1][j + 1];
    VP_ASSERT(wc_match(PP, TT) == MM[0][0], "matched exactly when the pattern describes the text");
}
HARNESS
{
    static const char *const pats[] = { PAT }; int q, tl, pl;
    for (q = 0; q < (int)(sizeof(pats) / sizeof(*pats)); q++) for (tl = 0; tl < 4; tl++) { for (pl = 0; pats[q][pl]; pl++); one(pats[q], pl, tl); }
    VP_REACH("done");
}
