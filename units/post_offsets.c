/*VP{
"property":"P11",
"title":"recording the offsets of a position grows the table as needed, zero-fills the new part and leaves the offsets of the other positions alone",
"functions":["dw_add_offsets"],
"prune":{"src/index.c":["dw_add_offsets"]},
"loops":[{"file":"src/index.c","func":"dw_add_offsets","loop":0,"of":1,"text":"__CPROVER_assigns(dw->offsets_capa) __CPROVER_loop_invariant(dw->offsets_capa >= old_capa && dw->offsets_capa > 0 && (dw->offsets_capa <= 2 * (long long)pos)) __CPROVER_decreases(0x7fffffff - dw->offsets_capa)"}],
"proof":{"unwind":6},
"bounded":{"K":3,"unwind":5,"args":["--unwindset","vp_memset.0:26,vp_memset.1:26,vp_memset.2:26,vp_memmove.0:26,vp_memmove.1:26,vp_memmove.2:26,vp_realloc_i.0:26,vp_realloc_i.1:26"]}
}VP*/
#define VP_WATCH_W 8
#define VP_BASES 1
#include "env.h"
#include "index.c"
HARNESS
{
    DocWriter dw; int capa = (int)vp_range(1, VP_SZ(1 << 28, 3)), pos = (int)vp_range(0, VP_SZ(1 << 28, 5)), w = (int)vp_range(0, VP_SZ(1 << 29, 11)); off_t s = vp_i64(), e = vp_i64(), ws = 0, we = 0;
    dw.offsets_capa = capa; dw.offsets = (Offset *)malloc(sizeof(Offset) * (size_t)capa); dw.offsets_size = 0;
#ifdef VP_NATIVE
    memset(dw.offsets, 0x55, sizeof(Offset) * (size_t)capa);
#endif
    vp_base_add(dw.offsets); vp_watch(2 * (long long)w); vp_watch(2 * (long long)w + 1);
    if (w < capa) { ws = dw.offsets[w].start; we = dw.offsets[w].end; }
    dw_add_offsets(&dw, pos, s, e);
    VP_REACH("done");
    VP_ASSERT(dw.offsets_size == pos + 1 && dw.offsets_capa > pos && dw.offsets_capa >= capa, "the table covers the position");
    VP_ASSERT(dw.offsets[pos].start == s && dw.offsets[pos].end == e, "which holds its offsets");
    if (w < dw.offsets_capa && w != pos) VP_ASSERT(dw.offsets[w].start == ws && dw.offsets[w].end == we, "the others keep theirs, and new ones are zero");
}
