/*VP{
"property":"P11","also":["P24"],
"title":"indexing a field adds every token at its position (the running sum of the increments), records its offsets there, and no term is longer than a term may be",
"functions":["dw_invert_field"],
"variants":[{"name":"untok","level":"bounded","loops":[],"defs":["TOK=0"],"bounded":{"K":3,"unwind":4,"replace":["dw_add_posting:vp_add","dw_add_offsets:vp_off"]}},{"name":"tok","defs":["TOK=1"]}],
"prune":{"src/index.c":["dw_invert_field"]},
"loops":[
{"file":"src/index.c","func":"dw_invert_field","loop":0,"of":4,"text":"__CPROVER_assigns(i, tk, pos, num_terms, start_offset, VP_G) __CPROVER_loop_invariant(0 <= i && i <= df_size && val == i && VP_INV && start_offset == g_start)"},
{"file":"src/index.c","func":"dw_invert_field","loop":1,"of":4,"text":"__CPROVER_assigns(tk, pos, num_terms, VP_G) __CPROVER_loop_invariant(val == i && VP_INV && start_offset == g_start)"},
{"file":"src/index.c","func":"dw_invert_field","loop":2,"of":4,"text":"__CPROVER_assigns(tk, pos, num_terms, VP_G) __CPROVER_loop_invariant(val == i && VP_INV && start_offset == g_start)"}],
"replace":["dw_add_posting:vp_add","dw_add_offsets:vp_off"],
"proof":{"unwind":14,"timeout":100},
"bounded":{"K":3,"unwind":4,"replace":["dw_add_posting:vp_add","dw_add_offsets:vp_off"],"timeout":60},
"nosearch":true
}VP*/
/* bound (untok only): a field with at most 2 values; with VP_PROOF: any number of values and tokens */
#ifdef VP_PROOF
#define VP_LAST 0
#else
#define VP_LAST (total >= 2 * (val + 1))
#endif
#define VP_FREE_PTR
#define VP_WATCH_W 8
#include "env.h"
#include "analysis.h"
static int n_add, exp_pos, total, val, off_n; static long long g_start, exp_s, exp_e; static FrtToken TK;
#define VP_G n_add, exp_pos, total, val, off_n, g_start, exp_s, exp_e, TK
#define VP_INV pos == exp_pos && pos >= -1 && num_terms == n_add && n_add == total && total >= 0 && (total == 0) == (pos == -1) && off_n == (store_offsets ? n_add : 0)
#include "index.c"
static int doc; static DocField DF; static char **DATA; static int *LENS; static char CP, FP; static TokenStream TS;
void vp_add(MemoryPool *mp, Hash *c, Hash *f, int d, const char *t, int len, int pos)
{
    VP_ASSERT(c == (Hash *)&CP && f == (Hash *)&FP && d == doc, "into the tables of the document and the field");
    VP_ASSERT(len >= 0 && len < MAX_WORD_SIZE, "a term fits a term buffer with its terminator");
    if (TOK) { VP_ASSERT(t == TK.text && len == TK.len && pos == exp_pos, "each token at its position"); }
    else {
        VP_ASSERT(pos == n_add && pos < DF.size, "each value at its number"); 
        VP_ASSERT(len == (LENS[pos] < MAX_WORD_SIZE ? LENS[pos] : MAX_WORD_SIZE - 1), "with its text up to the limit");
        VP_ASSERT(t[0] == DATA[pos][0] && t[len - 1] == DATA[pos][len - 1], "the text of the value");
    }
    n_add++;
}
static Token *nxt(TokenStream *ts)
{
    int inc;
    VP_ASSERT(ts == &TS, "tokens of the analysed value");
    if (VP_LAST || vp_bool()) return NULL;
    inc = vp_int(); VP_ASSUME(inc >= (total ? 0 : 1) && inc <= 0x7fffffff - (exp_pos > 0 ? exp_pos : 0) && total < 0x7ffffffe); TK.pos_inc = inc; TK.len = (int)vp_range(1, 9); TK.start = (off_t)vp_range(0, 0x7fffffff); TK.end = (off_t)vp_range(0, 0x7fffffff);
    exp_pos += inc; total++; exp_s = g_start + TK.start; exp_e = g_start + TK.end;
    return &TK;
}
TokenStream *vp_ts(Analyzer *a, Symbol f, char *text) { VP_ASSERT(text == DATA[val], "the value is analysed"); VP_ASSUME(g_start >= 0 && g_start < (1ll << 50)); return &TS; }
void frt_ts_deref(TokenStream *ts) { VP_ASSUME(val >= 0 && val < DF.size && LENS[val] >= 0 && LENS[val] < 0x7fffffff); g_start += LENS[val] + 1; val++; }
static DocWriter dw;
/* contract of dw_add_offsets, proved by post_offsets */
void vp_off(DocWriter *d, int pos, off_t s, off_t e)
{
    VP_ASSERT(d == &dw && pos == (TOK ? exp_pos : off_n), "offsets at the position of the token");
    if (TOK) VP_ASSERT(s == exp_s && e == exp_e, "the offsets of the token, shifted by the values before");
    else { off_t b = off_n ? LENS[0] + 1 : 0; VP_ASSERT(s == b && e == b + LENS[off_n & 1], "the offsets of the value"); }
    off_n++; VP_ASSERT(off_n == n_add, "recorded with the token");
}
HARNESS
{
    static FieldInverter fi; static Analyzer an; static char D0[300], D1[300]; Hash *r;
    n_add = total = val = off_n = 0; g_start = 0; exp_pos = -1; doc = (int)vp_range(0, 1000);
#if TOK
    DF.size = vp_int(); VP_ASSUME(DF.size >= 1); VP_LIMIT(DF.size, 2);
    DATA = malloc(sizeof(char *) * (size_t)DF.size); LENS = malloc(sizeof(int) * (size_t)DF.size);
#else
    DF.size = (int)vp_range(1, 2); DATA = malloc(sizeof(char *) * 2); LENS = malloc(sizeof(int) * 2);
    DATA[0] = D0; DATA[1] = D1; D0[0] = (char)vp_byte(); D1[0] = (char)vp_byte(); LENS[0] = vp_bool() ? (int)vp_range(1, 3) : (int)vp_range(MAX_WORD_SIZE - 1, MAX_WORD_SIZE + 1); LENS[1] = (int)vp_range(1, 3);
#endif
    DF.data = DATA; DF.lengths = LENS; an.get_ts = vp_ts;
    dw.curr_plists = (Hash *)&CP; fi.plists = (Hash *)&FP; dw.doc_num = doc; dw.analyzer = &an; dw.max_field_length = TOK ? vp_int() : 1000; TS.next = nxt;
    off_n = 0;
    fi.is_tokenized = TOK; fi.store_offsets = vp_bool();
    r = dw_invert_field(&dw, &fi, &DF);
    VP_ASSERT(r == (Hash *)&CP && fi.length == n_add && n_add == (TOK ? total : DF.size), "every token is added and counted");
    VP_ASSERT(off_n == (fi.store_offsets ? n_add : 0), "offsets are recorded for every token or for none");
    VP_REACH("done");
}
