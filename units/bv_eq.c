/*VP{
"property":"P06",
"title":"vectors reported equal have the same members",
"functions":["bv_eq"],
"loops":[
 {"file":"src/bitvector.c","func":"bv_eq","loop":0,"of":2,"text":"__CPROVER_assigns(i) __CPROVER_loop_invariant(i >= 0 && i <= word_size && (g_w < i ==> bits[g_w] == bits2[g_w])) __CPROVER_decreases(word_size - i)"},
 {"file":"src/bitvector.c","func":"bv_eq","loop":1,"of":2,"text":"__CPROVER_assigns(i) __CPROVER_loop_invariant(i >= word_size && i <= ext_word_size && (g_w >= word_size && g_w < i ==> bits[g_w] == expected)) __CPROVER_decreases(ext_word_size - i)"}],
"proof":{"unwind":5}
}VP*/
int g_w;
#define VP_BASES 3
#include "bv_common.h"
HARNESS
{
    BitVector *a = bv_any(2), *b = bv_any(2);
    int j = (int)vp_range(0, VP_SZ(BV_MAXBITS - 1, 70));
    g_w = j / 32;
    VP_ASSUME(bv_tail_ok(a, j) && bv_tail_ok(b, j));
    if (vp_bool()) b = a;
    if (bv_eq(a, b)) { VP_REACH("equal"); VP_ASSERT(bv_mem(a, j) == bv_mem(b, j), "equal vectors agree on every bit"); }
    else { VP_REACH("different"); VP_ASSERT(a != b, "a vector equals itself"); }
}
