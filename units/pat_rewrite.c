/*VP{
"property":"P25",
"title":"a wildcard, prefix or fuzzy query is turned into exactly the terms of its field that fit, with its boost",
"functions":["wcq_rewrite","prq_rewrite","fuzq_rewrite"],
"variants":[
 {"name":"wild-tail","defs":["K=0","PAT=\"a*\"","PRE=1"],"replace":["frt_wc_match:vp_m"]},
 {"name":"wild-all","defs":["K=0","PAT=\"*\"","PRE=0"],"replace":["frt_wc_match:vp_m"]},
 {"name":"wild-head","defs":["K=0","PAT=\"?b\"","PRE=0"],"replace":["frt_wc_match:vp_m"]},
 {"name":"wild-mix","defs":["K=0","PAT=\"ab?*\"","PRE=2"],"replace":["frt_wc_match:vp_m"]},
 {"name":"wild-mix2","defs":["K=0","PAT=\"a*?\"","PRE=1"],"replace":["frt_wc_match:vp_m"]},
 {"name":"wild-limit","defs":["K=0","PAT=\"abc*\"","PRE=3"],"replace":["frt_wc_match:vp_m"]},
 {"name":"wild-long","defs":["K=0","PAT=\"abcd*\"","PRE=4"],"replace":["frt_wc_match:vp_m"]},
 {"name":"wild-longer","defs":["K=0","PAT=\"abcdefgh?\"","PRE=8"],"replace":["frt_wc_match:vp_m"]},
 {"name":"wild-none","defs":["K=0","PAT=\"ab\"","PRE=-1"],"replace":["frt_wc_match:vp_m"]},
 {"name":"prefix","defs":["K=1","PAT=\"a\"","PRE=1"]},
 {"name":"prefix-2","defs":["K=1","PAT=\"ab\"","PRE=2"]},
 {"name":"prefix-all","defs":["K=1","PAT=\"\"","PRE=0"]},
 {"name":"fuzzy","defs":["K=2","PAT=\"abc\"","PRE=0"],"replace":["frt_fuzq_score:vp_s"]},
 {"name":"fuzzy-pre","defs":["K=2","PAT=\"abc\"","PRE=1"],"replace":["frt_fuzq_score:vp_s"]},
 {"name":"fuzzy-whole","defs":["K=2","PAT=\"ab\"","PRE=2"],"replace":["frt_fuzq_score:vp_s"]}],
"limit":"dictionaries of at most 3 terms of at most 2 characters, words of at most 3",
"assume":["the dictionary gives the terms in order from the given one (P10)"],
"proof":{"unwind":30},
"bounded":{"K":3,"unwind":30}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#undef FRT_MAX_WORD_SIZE
#define FRT_MAX_WORD_SIZE 4
#if K == 0
#include "q_wildcard.c"
#define SELF WildCardQuery
#elif K == 1
#include "q_prefix.c"
#define SELF PrefixQuery
#else
#undef TYPICAL_LONGEST_WORD
#include "q_fuzzy.c"
#define SELF FuzzyQuery
#endif
static char TX[3][3]; static int n, at, closed, opened, added, fits[3], fnum, seen; static TermEnum E; static IndexReader IR; static FieldInfos FS; static SELF Q; static Query R, TQ_; static const char FN = 0; static char *const pat = PAT;
static void load(TermEnum *te) { int k; if (at < n) for (k = 0; k < 3; k++) te->curr_term[k] = TX[at][k]; else te->curr_term[0] = 0; }
static char *nx(TermEnum *te) { VP_ASSERT(opened && !closed && at < n + 1, "the open enumeration"); at++; if (at > n) at = n; load(te); return at < n ? te->curr_term : NULL; }
static void cl(TermEnum *te) { VP_ASSERT(opened && !closed, "closed once"); closed = 1; }
static bool has_prefix(int i) { int k; for (k = 0; k < PRE && k < 3; k++) if (TX[i][k] != pat[k]) return false; return PRE <= 2; }
static int before(int i) { int k; for (k = 0; k < PRE; k++) { if (k > 2 || TX[i][k] == 0) return 1; if ((uchar)TX[i][k] != (uchar)pat[k]) return (uchar)TX[i][k] < (uchar)pat[k]; } return 0; }
static TermEnum *tf(IndexReader *ir, int f, const char *t) { int k; VP_ASSERT(ir == &IR && f == fnum && !opened && PRE >= 0, "the terms of the field"); for (k = 0; k < PRE; k++) VP_ASSERT(t[k] == pat[k], "from the prefix"); VP_ASSERT(t[PRE < 0 ? 0 : PRE] == 0, "from the prefix"); opened = 1; at = 0; while (at < n && before(at)) at++; load(&E); return &E; }
static TermEnum *tm(IndexReader *ir, int f) { VP_ASSERT(ir == &IR && f == fnum && !opened, "the terms of the field"); opened = 1; at = -1; E.curr_term[0] = 0; return &E; }
int frt_fis_get_field_num(FieldInfos *f, Symbol s) { VP_ASSERT(f == &FS && s == &FN, "the field of the query"); return fnum; }
Query *frt_multi_tq_new_conf(Symbol f, int max, float mb) { VP_ASSERT(f == &FN && max == 17 && (K == 2 ? mb == 0.5f : mb == 0.0f), "terms of the field, at most as many as asked for"); R.boost = 1.0f; return &R; }
Query *frt_tq_new(Symbol f, const char *t) { VP_ASSERT(f == &FN && strcmp(t, pat) == 0, "the term itself"); TQ_.boost = 1.0f; return &TQ_; }
Query *frt_bq_new(bool c) { return &R; }
static void got(const char *t) { int i = at; VP_ASSERT(opened && !closed && t == E.curr_term, "a term of the dictionary"); if (i < 0 || i >= n) { VP_ASSERT(t[0] == 0, "nothing"); return; } VP_ASSERT(!(added >> i & 1), "a term comes once"); added |= 1 << i; }
void frt_multi_tq_add_term(Query *q, const char *t) { VP_ASSERT(q == &R, "the new query"); got(t); }
void frt_multi_tq_add_term_boost(Query *q, const char *t, float b) { VP_ASSERT(q == &R, "the new query"); if (K == 2) { VP_ASSERT(at < 0 || at >= n || b == (float)(at + 2), "with its similarity"); } else VP_ASSERT(b == 1.0f, "unweighted"); got(t); }
bool vp_m(const char *p, const char *t) { VP_ASSERT(PRE >= 0 && p == pat + PRE && t == E.curr_term + PRE, "the rest of the term with the rest of the pattern"); if (at < 0 || at >= n) return vp_bool(); return fits[at]; }
float vp_s(FuzzyQuery *f, const char *t)
{
#if K == 2
    VP_ASSERT(f == &Q && f->text == f->term + PRE && f->text_len == 3 - PRE && t == E.curr_term + PRE, "the rest of the term with the rest of the word"); f->da[2 * f->text_len + 1] = 0;
#endif
    return (float)(at + 2);
}
HARNESS
{
    int i; Query *q, *s = (Query *)&Q; n = (int)vp_range(0, 3); closed = opened = added = 0; fnum = (int)vp_range(-1, 2);
    for (i = 0; i < 3; i++) { TX[i][0] = (char)vp_byte(); TX[i][1] = (char)vp_byte(); TX[i][2] = 0; VP_ASSUME(TX[i][0]); fits[i] = vp_bool(); if (i) VP_ASSUME((uchar)TX[i - 1][0] < (uchar)TX[i][0] || (TX[i - 1][0] == TX[i][0] && (uchar)TX[i - 1][1] < (uchar)TX[i][1])); }
    IR.fis = &FS; IR.terms_from = tf; IR.terms = tm; E.next = nx; E.close = cl; s->boost = 6.0f; MTQMaxTerms(s) = 17; Q.field = &FN;
#if K == 0
    Q.pattern = pat; q = wcq_rewrite(s, &IR);
#elif K == 1
    Q.prefix = pat; q = prq_rewrite(s, &IR);
#else
    Q.term = pat; Q.pre_len = PRE; Q.min_sim = 0.5f; Q.da = NULL; q = fuzq_rewrite(s, &IR);
#endif
    VP_ASSERT(opened == closed, "the enumeration is closed");
    if (fnum < 0 && !(K == 0 && PRE < 0)) { VP_ASSERT(!opened && !added, "no terms without the field"); }
    else { VP_ASSERT(q->boost == 6.0f, "the boost is kept"); if (PRE < 0 || (K == 2 && PRE == 2)) VP_ASSERT(q == &TQ_ && !opened, "a single term"); else { VP_ASSERT(q == &R, "all the terms");
        for (i = 0; i < n; i++) VP_ASSERT((added >> i & 1) == (has_prefix(i) && (K != 0 || fits[i])), "exactly the terms that fit"); } }
    VP_REACH("done");
}
