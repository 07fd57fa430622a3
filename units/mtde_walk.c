/*VP{
"property":"P12","also":["P11"],
"title":"walking the postings of a term in a multi-reader visits the sub-indexes that have the term one after the other and shifts their document numbers",
"functions":["mtde_next_tde","mtde_skip_to","mtde_read","mtde_seek","mtde_seek_te","mtde_doc_num","mtde_freq","mtde_next"],
"variants":[
 {"name":"advance","defs":["OP=0"],"prune":{"src/index.c":["mtde_next_tde","mtde_doc_num","mtde_freq"]},
  "loops":[{"file":"src/index.c","func":"mtde_next_tde","loop":0,"of":1,"text":"__CPROVER_assigns(mtde->ptr) __CPROVER_loop_invariant(mtde->ptr > g_p0 && mtde->ptr <= mtde->ir_cnt && (g_w > g_p0 && g_w < mtde->ptr ==> !mtde->state[g_w])) __CPROVER_decreases(mtde->ir_cnt - mtde->ptr)"}]},
 {"name":"next","defs":["OP=4"],"prune":{"src/index.c":["mtde_next","mtde_next_tde"]},"replace":["mtde_next_tde:vp_ntde"],
  "level":"bounded","nosearch":true,"bounded":{"K":4,"unwind":8,"replace":["mtde_next_tde:vp_ntde"]}},
 {"name":"skip","defs":["OP=1"],"level":"bounded","bounded":{"K":4,"unwind":8,"replace":["mtde_next_tde:vp_ntde"]},"prune":{"src/index.c":["mtde_skip_to","mtde_next_tde"]},"replace":["mtde_next_tde:vp_ntde"],
  "loops":[{"file":"src/index.c","func":"mtde_skip_to","loop":0,"of":1,"text":"__CPROVER_assigns(curr_tde, mtde->ptr, mtde->curr_tde, mtde->base, g_calls, g_hit, g_hitp, ntde) __CPROVER_loop_invariant(mtde->ptr >= g_p0 && mtde->ptr <= mtde->ir_cnt && (mtde->ptr == g_w ==> g_has) && !g_hit && ((mtde->curr_tde != 0) == (mtde->ptr < mtde->ir_cnt)) && (mtde->curr_tde != 0 ==> mtde->base == mtde->starts[mtde->ptr] && mtde->curr_tde == (mtde->ptr == g_w ? (TermDocEnum *)&SW : (TermDocEnum *)&SO)) && g_calls == (mtde->ptr > g_w && g_w >= g_p0 && g_has && g_to < g_e))"}]},
 {"name":"read","defs":["OP=2"],"prune":{"src/index.c":["mtde_read","mtde_next_tde"]},"replace":["mtde_next_tde:vp_ntde"],
  "loops":[{"file":"src/index.c","func":"mtde_read","loop":0,"of":2,"text":"__CPROVER_assigns(i, end, last_end, b, mtde->ptr, mtde->curr_tde, mtde->base, g_sum, g_in, g_last, g_stop, ntde, __CPROVER_object_whole(docs), __CPROVER_object_whole(freqs)) __CPROVER_loop_invariant(mtde->ptr >= g_p0 && mtde->ptr <= mtde->ir_cnt && (mtde->ptr == g_w ==> g_has) && end == last_end && end >= 0 && end < req_num && g_sum == end && ((mtde->curr_tde != 0) == (mtde->ptr < mtde->ir_cnt)) && (mtde->curr_tde != 0 ==> mtde->base == mtde->starts[mtde->ptr] && mtde->curr_tde == (mtde->ptr == g_w ? (TermDocEnum *)&SW : (TermDocEnum *)&SO)) && g_stop == (mtde->ptr > g_w && g_has && g_w >= g_p0) && (g_in ==> g_in == 1 && g_P < end && docs[g_P] == g_D + mtde->starts[g_w] && freqs[g_P] == g_F))"},
   {"file":"src/index.c","func":"mtde_read","loop":1,"of":2,"text":"__CPROVER_assigns(i, __CPROVER_object_whole(docs)) __CPROVER_loop_invariant(i >= last_end && i <= end && (g_in ==> g_P < end && (g_P >= last_end ==> mtde->ptr == g_w) && docs[g_P] == ((g_P >= last_end && g_P >= i) ? g_D : g_D + mtde->starts[g_w]))) __CPROVER_decreases(end - i)"}]},
 {"name":"seek","defs":["OP=3"],"prune":{"src/index.c":["mtde_seek","mtde_next_tde"]},"replace":["mtde_next_tde:vp_ntde"],
  "loops":[{"file":"src/index.c","func":"mtde_seek_te","loop":0,"of":1,"text":"__CPROVER_assigns(i, g_calls, __CPROVER_object_whole(mtde->state)) __CPROVER_loop_invariant(i >= -1 && i < g_k && g_calls == (g_pos >= 0 && i < g_pos) && mtde->state[g_w] == (g_pos >= 0 && i < g_pos)) __CPROVER_decreases(i + 1)"}]}],
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":6,"replace":["mtde_next_tde:vp_ntde"]},
"nosearch":true,
"assume":["the postings of each sub-index by contract (P11)","in the variants other than advance, moving to the next sub-index by the contract proved in variant advance"]
}VP*/
#define VP_FREE_PTR
#define VP_WATCH_W 1
#include "env.h"
#include "index.h"
static int g_w, g_p0, g_calls, g_hit, g_hitp, g_has, g_to, g_e, g_sum, g_in, g_last, g_stop, g_P, g_D, g_F, g_k, g_pos, ntde; static FrtTermDocEnum SW, SO;
#include "index.c"
static MultiTermDocEnum D; static struct { MultiTermEnum m; } E; static int fld, cnt, found, *DB, *FB, rq; static TermEnum STW, STO;
/* contract of mtde_next_tde (variant advance), seen from the watched sub-index: it is stopped at iff it has the term */
TermDocEnum *vp_ntde(MultiTermDocEnum *m)
{
    int p = (int)vp_range(0, VP_SZ(0x7ffffffe, 5));
    VP_ASSERT(m == &D && m->ptr >= -1 && m->ptr < m->ir_cnt, "moving on from a valid sub-index"); ntde++;
    VP_ASSUME(p > m->ptr && p <= m->ir_cnt && (!(g_w > m->ptr && g_w < p) || !g_has) && (p != g_w || g_has));
    m->ptr = p;
    if (p == m->ir_cnt) return m->curr_tde = NULL;
    m->base = m->starts[p]; return m->curr_tde = p == g_w ? &SW : &SO;
}
static bool s_skip(TermDocEnum *t, int to)
{
    bool r = vp_bool();
    VP_ASSERT(!g_hit, "nothing is skipped after a hit");
    if (t == &SW) { g_calls++; VP_ASSERT(g_to < g_e, "an index that ends before the target is passed over"); VP_ASSERT(to == g_to - D.starts[g_w], "the target is shifted into the range of the index"); }
    if (r) { g_hit = 1; g_hitp = D.ptr; }
    return r;
}
static int s_read(TermDocEnum *t, int *d, int *f, int n)
{
    int k = (int)vp_range(0, VP_SZ(n, n < 2 ? n : 2));
    VP_ASSERT(d == DB + g_sum && f == FB + g_sum && n == rq - g_sum && n > 0, "each index fills the rest of the buffers");
    if (t == &SW) { VP_ASSERT(!g_stop, "an exhausted index is not read again"); if (g_P >= g_sum && g_P < g_sum + k) { g_in++; DB[g_P] = g_D; FB[g_P] = g_F; } if (!k) g_stop = 1; }
    g_last = k; g_sum += k; return k;
}
static void s_seek(TermDocEnum *t, int f, const char *term) { if (t == &SW) { VP_ASSERT(f == 7 && term == E.m.te.curr_term, "each index is positioned on the term with its own field number"); g_calls++; } }
static void s_close(TermDocEnum *t) { }
static bool s_next(TermDocEnum *t) { bool r = vp_bool(); if (t == &SW) g_calls++; if (r) { g_hit = 1; g_hitp = D.ptr; } return r; }
static int s_doc(TermDocEnum *t) { return t == &SW ? g_D : 0; }
static int s_frq(TermDocEnum *t) { return t == &SW ? g_F : 0; }
static TermEnum *e_set(TermEnum *te, int f) { VP_ASSERT(f == fld, "the field"); return te; }
static char *e_skip(TermEnum *te, const char *t) { te->curr_term[0] = found ? 'a' : 'b'; te->curr_term[1] = 0; if (!found && vp_bool()) return NULL; return te->curr_term; }
HARNESS
{
    TermDocEnum *t = (TermDocEnum *)&D, **subs; int i;
    memset(&D, 0, sizeof(D)); memset(&SW, 0, sizeof(SW)); ntde = 0;
    SW.skip_to = s_skip; SW.read = s_read; SW.seek = s_seek; SW.close = s_close; SW.next = s_next; SW.doc_num = s_doc; SW.freq = s_frq; SO = SW;
    cnt = (int)vp_range(1, VP_SZ(100000, 4)); g_w = (int)vp_range(0, cnt - 1); g_calls = g_hit = g_sum = g_in = g_stop = 0; g_hitp = -1;
    subs = VP_NEW_N(TermDocEnum *, cnt); D.starts = VP_NEW_N(int, cnt + 1); D.state = VP_NEW_N(char, cnt);
#ifdef VP_PROOF
    __CPROVER_array_set(subs, &SO);
#else
    for (i = 0; i < cnt; i++) { subs[i] = &SO; D.state[i] = vp_bool(); } for (i = 0; i <= cnt; i++) D.starts[i] = i ? D.starts[i - 1] + (int)vp_range(0, 3) : 0;
#endif
    subs[g_w] = &SW; D.irs_tde = subs; D.ir_cnt = cnt; D.ptr = (int)vp_range(OP == 0 ? -1 : 0, cnt - 1); g_p0 = D.ptr; vp_watch(g_w);
    VP_ASSUME(D.starts[g_w] >= 0 && D.starts[g_w] <= D.starts[g_w + 1] && D.starts[g_w + 1] <= 1000000000); g_e = D.starts[g_w + 1];
    g_D = (int)vp_range(0, 1000000000); g_F = (int)vp_range(1, 100);
    if (OP == 0) {
        TermDocEnum *r; int p, st = D.state[g_w];
        D.curr_tde = g_p0 >= 0 ? subs[g_p0] : NULL;
        r = mtde_next_tde(&D); p = D.ptr;
        VP_ASSERT(r == D.curr_tde && p > g_p0 && p <= cnt, "moves forward");
        VP_ASSERT(!(g_w > g_p0 && g_w < p) || !st, "no index that has the term is passed over");
        VP_ASSERT((r == NULL) == (p == cnt), "until the last");
        if (p == g_w) {
            VP_ASSERT(st && r == &SW && D.base == D.starts[g_w], "it stops only at an index that has the term, at its range");
            VP_ASSERT(mtde_doc_num(t) == g_D + D.starts[g_w] && mtde_freq(t) == g_F, "the current posting is that of the index, with its number shifted");
        }
    }
    if (OP == 1 || OP == 2 || OP == 4) {
        D.base = D.starts[D.ptr]; D.curr_tde = subs[D.ptr]; g_has = vp_bool(); VP_ASSUME(D.ptr != g_w || g_has);
        if (OP != 4 && vp_bool()) { D.ptr = cnt; D.curr_tde = NULL; g_p0 = cnt; }
    }
    if (OP == 1) {
        bool r; g_to = (int)vp_range(0, 1000000000);
        r = mtde_skip_to(t, g_to);
        VP_ASSERT(r == g_hit && (!r || (D.ptr == g_hitp && D.curr_tde)), "skipping succeeds at the first index that has a posting at or beyond the target");
        VP_ASSERT(r || D.curr_tde == NULL, "or no index is left");
        if (g_has && g_w >= g_p0 && g_w < D.ptr && g_to < g_e) VP_ASSERT(g_calls == 1, "every index that has the term and reaches the target was tried once");
    }
    if (OP == 2) {
        int r; rq = (int)vp_range(1, VP_SZ(100000, 4)); DB = VP_NEW_N(int, rq); FB = VP_NEW_N(int, rq); g_P = (int)vp_range(0, rq - 1);
        r = mtde_read(t, DB, FB, rq);
        VP_ASSERT(r == g_sum && r <= rq && (r == rq || D.curr_tde == NULL), "reading goes on until enough postings are read or no index is left");
        if (g_in) VP_ASSERT(g_in == 1 && g_P < r && DB[g_P] == g_D + D.starts[g_w] && FB[g_P] == g_F, "each posting is returned with its number shifted into the range of its index");
        if (r < rq && g_has && g_w >= g_p0) VP_ASSERT(g_stop, "every index that has the term was read to its end");
    }
    if (OP == 4) {
        bool r = mtde_next(t);
        VP_ASSERT(r == g_hit && (!r || (D.ptr == g_hitp && D.curr_tde)), "the next posting is that of the first index that has one left");
        VP_ASSERT(r || D.curr_tde == NULL, "or no index is left");
        if (g_has && g_w >= g_p0 && g_w < D.ptr) VP_ASSERT(g_calls == 1, "every index that has the term was exhausted");
    }
    if (OP == 3) {
        int *ix, other = cnt > 1 ? (g_w ? 0 : 1) : 0; TermEnumWrapper *tew = VP_NEW_N(TermEnumWrapper, cnt);
        memset(&E, 0, sizeof(E)); memset(&STW, 0, sizeof(STW)); STO = STW; STW.field_num = 7;
        found = vp_bool(); g_k = (int)vp_range(1, cnt); g_pos = (int)vp_range(-1, g_k - 1); VP_ASSUME(cnt > 1 || g_pos == 0);
        ix = VP_NEW_N(int, g_k);
#ifdef VP_PROOF
        __CPROVER_array_set(ix, other);
#else
        for (i = 0; i < g_k; i++) ix[i] = other;
#endif
        if (g_pos >= 0) ix[g_pos] = g_w;
        tew[other].te = &STO; tew[g_w].te = &STW;
        E.m.te.set_field = e_set; E.m.te.skip_to = e_skip; E.m.tews = tew; E.m.tis = VP_NEW_N(TermInfo, g_k); E.m.ti_indexes = ix; E.m.size = cnt; E.m.ti_cnt = g_k; fld = (int)vp_range(0, 3);
        D.te = (TermEnum *)&E; D.curr_tde = vp_bool() ? subs[D.ptr] : NULL; g_has = found && g_pos >= 0;
        mtde_seek(t, fld, "a");
        VP_ASSERT(D.state[g_w] == g_has && g_calls == g_has, "exactly the indexes with the term take part and are positioned on it");
        VP_ASSERT(found ? ntde == 1 && D.ptr >= 0 && !(g_has && g_w < D.ptr) : D.curr_tde == NULL && D.ptr >= cnt - 1, "the walk starts at the first of them; nothing is left of an earlier term");
    }
    VP_REACH("done");
}
