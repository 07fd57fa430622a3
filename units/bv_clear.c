/*VP{
"property":"P05",
"title":"a new vector and a cleared vector are empty; clearing keeps the vector well formed",
"functions":["bv_new","bv_new_capa","bv_clear","bv_scan_reset"],
"proof":{"unwind":4}
}VP*/
#include "bv_common.h"
HARNESS
{
    BitVector *bv; int j = (int)vp_range(0, VP_SZ(BV_MAXBITS - 1, 400));
    vp_watch(j / 32);
    if (vp_bool()) {
        int capa = (int)vp_range(0, VP_SZ(BV_MAXBITS, 300));
        bv = bv_new_capa(capa);
        VP_ASSERT(bv->capa * 32LL >= capa, "the requested capacity is there");
        VP_REACH("new");
    } else {
        bv = bv_any(3);
        bv_clear(bv);
        VP_REACH("clear");
    }
    VP_ASSERT(bv_wf_shape(bv) && bv->size == 0 && bv->count == 0, "empty");
    VP_ASSERT(bv_mem(bv, j) == 0 && bv_get(bv, j) == 0, "no bit is a member");
    VP_ASSERT(bv_tail_ok(bv, j), "unused bits keep the extension value");
    bv_scan_reset(bv);
    VP_ASSERT(bv_scan_next(bv) == -1, "a scan of an empty vector finds nothing");
}
