/*VP{
"property":"P12",
"title":"the postings of a term in a multi-reader are the postings of its sub-indexes, one after the other, with shifted document numbers",
"functions":["mtde_seek","mtde_seek_te","mtde_next_tde","mtde_next","mtde_read","mtde_skip_to","mtde_doc_num","mtde_freq"],
"prune":{"src/index.c":["mtde_seek","mtde_next","mtde_read","mtde_skip_to","mtde_doc_num","mtde_freq"]},
"level":"bounded","tier":"thorough",
"bounded":{"K":2,"unwind":5,"K_thorough":2,"unwind_thorough":6,"timeout":60}
}VP*/
/* bound: K sub-indexes with at most 2 postings each, 3 operations after a seek; more in the native runs */
#ifdef VP_NATIVE
#undef VP_K
#define VP_K 5
#endif
#define VP_FREE_PTR
#define VP_WATCH_W 1
#include "env.h"
#include "index.c"
#define N VP_K
#define PER VP_SZ(2, 2)
static int start[N + 1], sdoc[N][2], sfrq[N][2], scnt[N], has[N], pos[N], has0[N];
static TermDocEnum SUB[N]; static TermDocEnum *subs[N]; static TermEnum STE[N]; static TermEnumWrapper TEW[N]; static TermInfo TIS[N]; static int TIX[N]; static char state[N];
static struct { MultiTermEnum m; } E; static MultiTermDocEnum D; static int found, fld;
#define IX(t) ((int)((TermDocEnum *)(t) - SUB))
static void s_seek(TermDocEnum *t, int f, const char *term) { VP_ASSERT(f == IX(t) + 3 && term[0] == 'a' && !term[1], "each index is positioned on the term with its own field number"); pos[IX(t)] = -1; has0[IX(t)] = 1; }
static bool s_next(TermDocEnum *t) { int i = IX(t); if (pos[i] < scnt[i]) pos[i]++; return pos[i] < scnt[i]; }
static int s_doc(TermDocEnum *t) { int i = IX(t); return sdoc[i][pos[i]]; }
static int s_frq(TermDocEnum *t) { int i = IX(t); return sfrq[i][pos[i]]; }
static int s_read(TermDocEnum *t, int *d, int *f, int n) { int i = IX(t), k = 0; VP_ASSERT(n > 0, "a positive number of postings is asked for"); while (k < n && s_next(t)) { d[k] = s_doc(t); f[k] = s_frq(t); k++; } return k; }
static bool s_skip(TermDocEnum *t, int to) { do { if (!s_next(t)) return false; } while (s_doc(t) < to); return true; }
static void s_close(TermDocEnum *t) { }
static TermEnum *e_set(TermEnum *te, int f) { VP_ASSERT(f == fld, "the field"); return te; }
static char *e_skip(TermEnum *te, const char *t) { te->curr_term[0] = found ? 'a' : 'b'; te->curr_term[1] = 0; if (!found && vp_bool()) return NULL; return te->curr_term; }
static int g[N * 2], gf[N * 2], gn;
static void collect(void) { int i, j; gn = 0; for (i = 0; i < N; i++) if (has[i]) for (j = 0; j < scnt[i]; j++) { g[gn] = start[i] + sdoc[i][j]; gf[gn++] = sfrq[i][j]; } }
HARNESS
{
    int i, j, k = 0, op, at, rd[3], rf[3]; TermDocEnum *t = (TermDocEnum *)&D;
    memset(&D, 0, sizeof(D)); memset(&E, 0, sizeof(E));
    for (i = 0; i < N; i++) {
        SUB[i].seek = s_seek; SUB[i].next = s_next; SUB[i].doc_num = s_doc; SUB[i].freq = s_frq; SUB[i].read = s_read; SUB[i].skip_to = s_skip; SUB[i].close = s_close;
        subs[i] = &SUB[i]; STE[i].field_num = i + 3; TEW[i].te = &STE[i]; has0[i] = 0; state[i] = 0;
        scnt[i] = (int)vp_range(1, 2); sdoc[i][0] = (int)vp_range(0, 2); sdoc[i][1] = sdoc[i][0] + (int)vp_range(1, 2); sfrq[i][0] = (int)vp_range(1, 3); sfrq[i][1] = (int)vp_range(1, 3);
        pos[i] = (int)vp_range(-1, 2);
        start[i + 1] = (i ? start[i] : 0) + (int)vp_range(5, 6); if (!i) start[0] = 0;
        has[i] = vp_bool();
        if (has[i]) TIX[k++] = i;
    }
    E.m.te.set_field = e_set; E.m.te.skip_to = e_skip; E.m.tews = TEW; E.m.tis = TIS; E.m.ti_indexes = TIX; E.m.size = N; fld = (int)vp_range(0, 3);
    D.te = (TermEnum *)&E; D.starts = start; D.ir_cnt = N; D.irs_tde = subs; D.state = state;
    if (vp_bool()) { int p = (int)vp_range(0, N - 1); for (i = 0; i < N; i++) state[i] = vp_bool(); D.ptr = p; D.curr_tde = subs[p]; D.base = start[p]; }   /* anything may have gone before */
    found = vp_bool(); VP_ASSUME(!found || k > 0); E.m.ti_cnt = k;
    mtde_seek(t, fld, "a");
    if (found) { for (i = 0; i < N; i++) VP_ASSERT(has0[i] == has[i], "exactly the indexes with the term are positioned on it"); collect(); }
    else gn = 0;
    at = -1;
    for (op = 0; op < VP_SZ(3, 3); op++) {
        int kind = (int)vp_range(0, 2);
        if (kind == 0) {
            bool r = mtde_next(t); if (at < gn) at++;
            VP_ASSERT(r == (at < gn), "there is a next posting until all indexes are exhausted");
            if (!r) { VP_REACH("end"); break; }
        }
        else if (kind == 1) {
            int n = (int)vp_range(1, 3), r = mtde_read(t, rd, rf, n), e = gn - at - 1; if (e > n) e = n;
            VP_ASSERT(r == e, "reading returns as many postings as there are, up to the number asked for"); VP_ASSUME(r == e);
            for (j = 0; j < e; j++) VP_ASSERT(rd[j] == g[at + 1 + j] && rf[j] == gf[at + 1 + j], "the postings come in order with shifted numbers");
            at += e;
            break;
        }
        else {
            int to = (int)vp_range(0, start[N] + 2); bool r = mtde_skip_to(t, to);
            do { if (at < gn) at++; } while (at < gn && g[at] < to);
            VP_ASSERT(r == (at < gn), "skipping succeeds exactly if a posting at or beyond the target is left");
            if (!r) break;
        }
        VP_ASSERT(mtde_doc_num(t) == g[at] && mtde_freq(t) == gf[at], "the current posting is the next one, with its shifted number");
    }
    VP_REACH("done");
}
