/*VP{
"property":"P06",
"title":"not (new vector or in place) flips the membership of every bit",
"functions":["bv_not_i","bv_not","bv_not_x"],
"variants":[{"name":"inplace","defs":["WHICH=0"]},{"name":"new","defs":["WHICH=1"]},{"name":"third","defs":["WHICH=2"]}],
"loops":[
 {"file":"include/bitvector.h","func":"frt_bv_not_i","loop":0,"of":1,"text":"__CPROVER_assigns(i, __CPROVER_object_whole(bv->bits)) __CPROVER_loop_invariant(i >= 0 && i <= word_size && (g_w < word_size ==> (g_w < i ? bv->bits[g_w] == ~g_a : bv1->bits[g_w] == g_a))) __CPROVER_decreases(word_size - i)"},
 {"file":"include/bitvector.h","func":"frt_bv_recount","loop":0,"of":2,"text":"__CPROVER_assigns(idx, count) __CPROVER_loop_invariant(idx <= len) __CPROVER_decreases(len - idx)"},
 {"file":"include/bitvector.h","func":"frt_bv_recount","loop":1,"of":2,"text":"__CPROVER_assigns(idx, count) __CPROVER_loop_invariant(idx <= len) __CPROVER_decreases(len - idx)"}],
"proof":{"unwind":5}
}VP*/
int g_w; unsigned g_a;
#define VP_BASES 3
#define VP_MAXWATCH 1
#include "vp.h"
#ifdef VP_PROOF
/* the running count is not part of this contract (unit bv_recount): any value */
#define __builtin_popcount(w) (nondet_int())
#endif
#include "bv_common.h"
HARNESS
{
    BitVector *a = bv_any(3), *d;
    int j = (int)vp_range(0, VP_SZ(BV_MAXBITS - 1, 130)), ma, which = WHICH;
    g_w = j / 32; vp_watch(g_w);
    VP_ASSUME(bv_tail_ok(a, j));
    ma = bv_mem(a, j);
    g_a = g_w < a->capa ? a->bits[g_w] : 0;
    if (which == 0) d = bv_not_x(a);
    else if (which == 1) d = bv_not(a);
    else d = bv_not_i(bv_any(3), a);
    VP_REACH("returns");
    VP_ASSERT(bv_wf_shape(d) && d->size == a->size, "the result is well formed and as long as the operand");
    VP_ASSERT(bv_mem(d, j) == !ma && bv_get(d, j) == !ma, "every membership is flipped");
    VP_ASSERT(bv_tail_ok(d, j), "unused bits keep the extension value");
    if (d != a) VP_ASSERT(bv_mem(a, j) == ma, "the operand is unchanged");
}
