#ifndef VP_BASES
#define VP_BASES 1
#endif
#ifndef VP_MAXWATCH
#define VP_MAXWATCH 2
#endif
#include "env.h"
#include "bitvector.c"
/* representation invariant of a bit vector, instantiated at one arbitrary
 * bit index j (j is chosen by the caller, so the invariant holds for all j) */
#define BV_MAXBITS (1 << 30)
static int bv_wf_shape(BitVector *bv)
{
    return bv->capa >= 1 && bv->capa <= (BV_MAXBITS >> 4) && bv->size >= 0 && bv->size <= 32 * (long long)bv->capa
        && bv->size <= BV_MAXBITS;
}
/* the abstract set: is j a member? (ground truth, independent of bv_get) */
static int bv_mem(BitVector *bv, int j)
{
    if (j >= bv->size) return bv->extends_as_ones;
    return (bv->bits[j / 32] >> (j % 32)) & 1u;
}
/* every allocated bit beyond size carries the extension value */
static int bv_tail_ok(BitVector *bv, int j)
{
    if (j < bv->size || j / 32 >= bv->capa) return 1;
    return ((bv->bits[j / 32] >> (j % 32)) & 1u) == bv->extends_as_ones;
}
static BitVector *bv_any(int k)
{
    int i;
    BitVector *bv = VP_NEW(BitVector);
#if defined(VP_BOUNDED) && !defined(VP_NATIVE)
    vp_range(k, k); bv->capa = k;   /* a constant: keeps the bounded runs small */
#else
    bv->capa = (int)vp_range(1, VP_SZ(BV_MAXBITS >> 5, k));
#endif
    bv->size = (int)vp_range(0, 32 * (long long)bv->capa);
    bv->count = vp_int(); bv->curr_bit = vp_int();
    bv->extends_as_ones = vp_bool(); bv->ref_cnt = 1;
    bv->bits = VP_NEW_N(u32, bv->capa);
    VP_FILL_N(u32, bv->bits, bv->capa, vp_u32);
#ifdef VP_NATIVE
    /* make the tail invariant true (it is assumed, element-wise, by the proof) */
    for (i = bv->size; i < 32 * bv->capa; i++)
        if (bv->extends_as_ones) bv->bits[i / 32] |= 1u << (i % 32); else bv->bits[i / 32] &= ~(1u << (i % 32));
#endif
    vp_base_add(bv->bits);
    return bv;
}
