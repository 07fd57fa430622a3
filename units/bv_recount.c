/*VP{
"property":"P05",
"title":"recount equals the number of members",
"functions":["bv_recount"],
"level":"bounded",
"bounded":{"K":2,"unwind":5,"K_thorough":3,"unwind_thorough":6}
}VP*/
#include "bv_common.h"
HARNESS
{
    BitVector *bv = bv_any(VP_K_(2)); int w, n = 0;
    u32 ext = bv->extends_as_ones ? 0xFFFFFFFFu : 0;
    for (w = 0; w < bv->capa; w++) {
        int in = bv->size - 32 * w;       /* bits of this word inside the vector */
        u32 out = in <= 0 ? 0xFFFFFFFFu : in >= 32 ? 0 : 0xFFFFFFFFu << in;
        VP_ASSUME((bv->bits[w] & out) == (ext & out));
    }
    for (w = 0; w < bv->capa; w++) n += __builtin_popcount(bv->bits[w] ^ ext);
    VP_ASSERT(bv_recount(bv) == n && bv->count == n, "the count is the number of bits that differ from the extension value");
    VP_REACH("end");
}
