/*VP{
"property":"P05",
"title":"bv_set/bv_unset change exactly the named bit, keep count exact, and keep the vector well formed through growth",
"functions":["bv_set_value","bv_set","bv_unset","bv_get"],
"variants":[{"name":"set","defs":["VAL=1"]},{"name":"unset","defs":["VAL=0"]}],
"loops":[{"file":"include/bitvector.h","func":"frt_bv_set_value","loop":0,"of":1,
 "text":"__CPROVER_assigns(capa) __CPROVER_loop_invariant(capa >= 1 && capa <= (1<<26)) __CPROVER_decreases((1<<28)-capa)"}],
"proof":{"unwind":4}
}VP*/
#include "bv_common.h"
HARNESS
{
    BitVector *bv = bv_any(3);
    int bit = (int)vp_range(0, VP_SZ(BV_MAXBITS - 1, 500)), j = (int)vp_range(0, VP_SZ(BV_MAXBITS - 1, 600)), before, count, was;
    vp_watch(j / 32); vp_watch(bit / 32);
    VP_ASSUME(bv_tail_ok(bv, j) && bv_tail_ok(bv, bit));
    before = bv_mem(bv, j); was = bv_mem(bv, bit); count = bv->count;
    if (VAL) bv_set(bv, bit); else bv_unset(bv, bit);
    VP_REACH("returns");
    VP_ASSERT(bv_wf_shape(bv), "the vector stays well formed");
    VP_ASSERT(bv_tail_ok(bv, j), "unused bits keep the extension value");
    VP_ASSERT(bv_mem(bv, j) == (j == bit ? VAL : before), "exactly the named bit changes");
    VP_ASSERT(bv_get(bv, j) == (j == bit ? VAL : before), "get reports the new membership");
    VP_ASSERT(bv->count == count + (VAL - was), "count follows the membership change");
}
