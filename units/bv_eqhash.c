/*VP{
"property":"P06","also":["P28"],
"title":"vectors with the same members are reported equal and hash equally, whatever their sizes and capacities",
"functions":["bv_eq","bv_hash"],
"level":"bounded",
"bounded":{"K":2,"unwind":65,"K_thorough":4,"unwind_thorough":129}
}VP*/
#include "bv_common.h"
HARNESS
{
    BitVector *a = bv_any(VP_K_(2)), *b = bv_any(VP_K_(2));
    int j, same, eq;
#ifdef VP_NATIVE
    if (vp_bool()) { int w; b->extends_as_ones = a->extends_as_ones; for (w = 0; w < b->capa; w++) b->bits[w] = w < a->capa ? a->bits[w] : a->extends_as_ones ? ~0u : 0;
      for (j = b->size; j < 32 * b->capa; j++) if (b->extends_as_ones) b->bits[j / 32] |= 1u << (j % 32); else b->bits[j / 32] &= ~(1u << (j % 32)); }
#endif
    same = a->extends_as_ones == b->extends_as_ones;
    for (j = 0; j < 32 * VP_K_(2); j++) {
        if (j < 32 * a->capa) VP_ASSUME(bv_tail_ok(a, j));
        if (j < 32 * b->capa) VP_ASSUME(bv_tail_ok(b, j));
        if (bv_mem(a, j) != bv_mem(b, j)) same = 0;
    }
    eq = bv_eq(a, b);
    VP_ASSERT(!same || eq, "the same set is reported equal");
    VP_ASSERT(!eq || same, "different sets are reported different");
    VP_ASSERT(!eq || bv_hash(a) == bv_hash(b), "equal vectors have equal hash codes");
    VP_REACH("end");
}
