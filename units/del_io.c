/*VP{
"property":"P18","also":["P17"],
"title":"the set of deleted documents read from a deletions file is the one written",
"functions":["bv_write","bv_read"],
"prune":{"src/index.c":["&","bv_write","bv_read"]},
"loops":[{"file":"src/index.c","func":"bv_write","loop":0,"of":1,"text":"__CPROVER_assigns(i, tk_w, tk_k, tk_v, tk_k2, tk_v2) __CPROVER_loop_invariant(i >= -1 && i < g_nw && tk_w == 1 + (g_nw - 1 - i) && (G_T >= 1 && G_T < tk_w ==> tk_v == (u64)g_e) && (G_T >= 1 && G_T < tk_w ==> tk_k == K_U32) && tk_k2 == __CPROVER_loop_entry(tk_k2) && tk_v2 == __CPROVER_loop_entry(tk_v2))"},
{"file":"src/index.c","func":"bv_read","loop":0,"of":1,"text":"__CPROVER_assigns(i, tk_r, __CPROVER_object_whole(bv->bits)) __CPROVER_loop_invariant(i >= -1 && i < g_nw && tk_r == 1 + (g_nw - 1 - i) && (G_T >= 1 && G_T < tk_r ==> bv->bits[g_i] == g_e))"}],
"replace":["frt_bv_recount:vp_recount"],
"proof":{"unwind":6},
"bounded":{"K":3,"unwind":6}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "index.h"
#include "internal.h"
#include "token_common.h"
static int g_i, g_nw, nclose, nrec; static u32 g_e;
#include "index.c"
void frt_os_write_vint(OutStream *os, register unsigned int v) { tk_put(K_VINT, v); }
void frt_os_write_u32(OutStream *os, u32 v) { tk_put(K_U32, v); }
unsigned int frt_is_read_vint(InStream *is) { return (unsigned)tk_get(K_VINT, vp_u32()); }
u32 frt_is_read_u32(InStream *is) { return (u32)tk_get(K_U32, vp_u32()); }
void frt_os_close(OutStream *os) { nclose++; } void frt_is_close(InStream *is) { nclose++; }
int vp_recount(BitVector *b) { nrec++; return b->count = 5; }
static char S1; static OutStream *nout(Store *s, const char *n) { return (OutStream *)&S1; } static InStream *oin(Store *s, const char *n) { return (InStream *)&S1; }
HARNESS
{
    BitVector b, *r; Store st; int n = (int)vp_range(0, VP_SZ(1000000000, 100));
    tk_init(); G_S = 0; g_nw = n ? (n - 1) / 32 + 1 : 0; g_i = (int)vp_range(0, VP_SZ(40000000, 4)); G_T = g_i < g_nw ? g_nw - g_i : -5; nclose = nrec = 0;
    b.size = n; b.capa = g_nw + (int)vp_range(0, 3); VP_ASSUME(b.capa > 0 && g_i < b.capa); b.bits = (u32 *)malloc(sizeof(u32) * (size_t)b.capa); if (g_i < g_nw) g_e = b.bits[g_i];
    st.new_output = nout; st.open_input = oin;
    bv_write(&b, &st, "x"); VP_ASSERT(tk_w == 1 + g_nw && nclose == 1, "all words are written");
    r = bv_read(&st, "x");
    VP_ASSERT(tk_r == tk_w && nclose == 2 && nrec == 1 && r->count == 5 && r->ref_cnt == 1 && r->size == n && r->capa >= g_nw && !r->extends_as_ones, "all words are read and counted");
    if (g_i < g_nw) VP_ASSERT(r->bits[g_i] == g_e, "every word is the one written");
    VP_REACH("done");
}
