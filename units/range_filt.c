/*VP{
"property":"P25",
"title":"a range takes exactly the documents with a term between its bounds, ends included or not as asked, and keeps its boost",
"functions":["rfilt_get_bv_i","rq_rewrite","trq_rewrite","rq_get_matchv_i"],
"variants":[{"name":"docs","defs":["OP=0"],"replace":["frt_bv_set:vp_set"]},{"name":"rewrite","defs":["OP=1"],"replace":["frt_rfilt_new:vp_rf","frt_trfilt_new:vp_trf"]},{"name":"marks","defs":["OP=2"]}],
"limit":"dictionaries of at most 3 terms with at most 2 documents each",
"assume":["the dictionary gives the terms in order from the given one (P10)"],
"proof":{"unwind":6},
"bounded":{"K":3,"unwind":6}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "search.h"
#include "internal.h"
const char *EMPTY_STRING;
/* terms by rank: rank 2i+1 is the i-th term of the dictionary, the bounds are anywhere */
static char TM[12]; static int n, at, lo, hi;
static int vp_rank(const char *s);
static int vp_cmp(const char *a, const char *b) { int x = vp_rank(a), y = vp_rank(b); return x < y ? -4 : x > y ? 9 : 0; }
#undef strcmp
#define strcmp vp_cmp
#include "q_range.c"
static char L, U; static TermEnum E; static TermDocEnum T; static IndexReader IR; static FieldInfos FS; static FieldInfo FI; static int has, cl, clt, docs[3][2], nd[3], cur, dp; static BitVector B; static int bits[4]; static const char FN = 0, GN = 1;
static int vp_rank(const char *s) { if (s == &L) return lo; if (s == &U) return hi; if (s == EMPTY_STRING) return -1; if (s == E.curr_term) return 2 * at + 1; return 2 * (int)(s - TM) + 1; }
static char *sk(TermEnum *te, const char *t) { VP_ASSERT(te == &E && t, "the terms of the field"); at = 0; while (at < n && 2 * at + 1 < vp_rank(t)) at++; return at < n ? te->curr_term : NULL; }
static char *nx(TermEnum *te) { at++; return at < n ? te->curr_term : NULL; }
static void ec(TermEnum *te) { VP_ASSERT(!cl, "closed once"); cl = 1; }
static TermEnum *tm(IndexReader *ir, int f) { VP_ASSERT(ir == &IR && f == 3 && has, "the terms of the field"); at = -1; cl = 0; return &E; }
static void ste(TermDocEnum *t, TermEnum *te) { VP_ASSERT(t == &T && te == &E && at >= 0 && at < n, "a term of the field"); cur = at; dp = -1; }
static bool tn(TermDocEnum *t) { dp++; return dp < nd[cur]; }
static int td(TermDocEnum *t) { VP_ASSERT(dp >= 0 && dp < nd[cur], "a document"); return docs[cur][dp]; }
static void tc(TermDocEnum *t) { VP_ASSERT(!clt, "closed once"); clt = 1; }
static TermDocEnum *tds(IndexReader *ir) { clt = 0; return &T; }
static int md(IndexReader *ir) { return 4; }
BitVector *frt_bv_new_capa(int c) { VP_ASSERT(c >= 1, "room for the documents"); return &B; }
FieldInfo *frt_fis_get_field(FieldInfos *f, Symbol s) { VP_ASSERT(s == &FN, "the field of the range"); return has ? &FI : NULL; }
/* the bits by the contract of the bit vector (P05) */
static u32 words[2];
void vp_set(BitVector *b, int i) { VP_ASSERT(b == &B && i >= 0 && i < 32, "a document"); words[0] |= 1u << i; }
static Filter F1, F2; static ConstantScoreQuery C; static Range R; static RangeQuery RQ_; static RangeFilter RF_;
Filter *vp_rf(Symbol f, const char *l, const char *u, bool il, bool iu) { VP_ASSERT(f == R.field && l == R.lower_term && u == R.upper_term && il == R.include_lower && iu == R.include_upper, "the same range"); return &F1; }
Filter *vp_trf(Symbol f, const char *l, const char *u, bool il, bool iu) { VP_ASSERT(f == R.field && l == R.lower_term && u == R.upper_term && il == R.include_lower && iu == R.include_upper, "the same range"); return &F2; }
static Filter *fw;
Query *frt_csq_new_nr(Filter *f) { fw = f; C.super.boost = 1.0f; C.original = NULL; return (Query *)&C; }
static int mpos[3][2], marked; static TVTerm VT[3]; static TermVector V;
MatchVector *frt_matchv_add(MatchVector *mv, int s, int e) { VP_ASSERT(s == e && s >= 0 && s < 6 && !(marked >> s & 1), "one position, once"); marked |= 1 << s; return mv; }
int frt_tv_scan_to_term_index(TermVector *tv, const char *t) { int i = 0; VP_ASSERT(tv == &V, "the vector"); while (i < n && 2 * i + 1 < vp_rank(t)) i++; return i; }
static int in(int i) { int r = 2 * i + 1; return (!R.lower_term || (R.include_lower ? r >= lo : r > lo)) && (!R.upper_term || (R.include_upper ? r <= hi : r < hi)); }
HARNESS
{
    int i, k; u32 want = 0; EMPTY_STRING = ""; n = (int)vp_range(0, 3); lo = (int)vp_range(0, 7); hi = (int)vp_range(0, 7); has = vp_bool(); cl = clt = 1; at = -1;
    R.field = &FN; R.lower_term = vp_bool() ? &L : NULL; R.upper_term = vp_bool() ? &U : NULL; R.include_lower = R.lower_term && vp_bool(); R.include_upper = R.upper_term && vp_bool(); VP_ASSUME(R.lower_term || R.upper_term); VP_ASSUME(!R.lower_term || !R.upper_term || lo <= hi);
    IR.fis = &FS; FI.number = 3; IR.terms = tm; IR.term_docs = tds; IR.max_doc = md; E.skip_to = sk; E.next = nx; E.close = ec; T.seek_te = ste; T.next = tn; T.doc_num = td; T.close = tc; RF_.range = &R; RQ_.range = &R; RQ_.f.boost = 6.0f;
    for (i = 0; i < 3; i++) { nd[i] = (int)vp_range(0, 2); for (k = 0; k < 2; k++) docs[i][k] = (int)vp_range(0, 3); if (i < n && has && in(i)) for (k = 0; k < nd[i]; k++) want |= 1u << docs[i][k]; }
#if OP == 0
    words[0] = words[1] = 0;
    { BitVector *b = rfilt_get_bv_i((Filter *)&RF_, &IR); VP_ASSERT(b == &B && words[0] == want && words[1] == 0, "exactly the documents with a term in the range"); VP_ASSERT(cl && clt, "everything is closed"); }
#elif OP == 1
    { Query *q = rq_rewrite((Query *)&RQ_, &IR); VP_ASSERT(q == (Query *)&C && fw == &F1 && q->boost == 6.0f && C.original == (Query *)&RQ_, "the same range and boost"); q = trq_rewrite((Query *)&RQ_, &IR); VP_ASSERT(q == (Query *)&C && fw == &F2 && q->boost == 6.0f && C.original == (Query *)&RQ_, "the same range and boost"); }
#else
    { static char MV; int wm = 0; MatchVector *m; C.original = (Query *)&RQ_; V.terms = VT; V.term_cnt = n; V.field = vp_bool() ? &FN : &GN; marked = 0;
    for (i = 0; i < 3; i++) { VT[i].text = &TM[i]; VT[i].freq = (int)vp_range(0, 2); VT[i].positions = mpos[i]; mpos[i][0] = 2 * i; mpos[i][1] = 2 * i + 1; if (i < n && V.field == &FN && in(i)) wm |= (VT[i].freq == 2 ? 3 : VT[i].freq) << (2 * i); }
    m = rq_get_matchv_i((Query *)&C, (MatchVector *)&MV, &V); VP_ASSERT(m == (MatchVector *)&MV && marked == wm, "exactly the places of the terms in the range are marked"); }
#endif
    VP_REACH("done");
}
