/*VP{
"property":"P06",
"title":"and/or/xor into a new vector, a third vector or in place compute the set operation at every bit, for every pair of sizes and extension values",
"functions":["bv_and_i","bv_or_i","bv_xor_i","bv_and","bv_or","bv_xor","bv_and_x","bv_or_x","bv_xor_x","bv_capa"],
"variants":[{"name":"and-a","defs":["OP=&","FI=bv_and_i","WHICH=0","SELF=0"]},
 {"name":"and-b","defs":["OP=&","FI=bv_and_i","WHICH=1","SELF=0"]},
 {"name":"and-third","defs":["OP=&","FI=bv_and_i","WHICH=2","SELF=0"]},
 {"name":"and-new","defs":["OP=&","FI=bv_and_i","WHICH=3","SELF=0"]},
 {"name":"and-self","defs":["OP=&","FI=bv_and_i","WHICH=0","SELF=1"]},
 {"name":"or-a","defs":["OP=|","FI=bv_or_i","WHICH=0","SELF=0"]},
 {"name":"or-b","defs":["OP=|","FI=bv_or_i","WHICH=1","SELF=0"]},
 {"name":"or-third","defs":["OP=|","FI=bv_or_i","WHICH=2","SELF=0"]},
 {"name":"or-new","defs":["OP=|","FI=bv_or_i","WHICH=3","SELF=0"]},
 {"name":"or-self","defs":["OP=|","FI=bv_or_i","WHICH=0","SELF=1"]},
 {"name":"xor-a","defs":["OP=^","FI=bv_xor_i","WHICH=0","SELF=0"]},
 {"name":"xor-b","defs":["OP=^","FI=bv_xor_i","WHICH=1","SELF=0"]},
 {"name":"xor-third","defs":["OP=^","FI=bv_xor_i","WHICH=2","SELF=0"]},
 {"name":"xor-new","defs":["OP=^","FI=bv_xor_i","WHICH=3","SELF=0"]},
 {"name":"xor-self","defs":["OP=^","FI=bv_xor_i","WHICH=0","SELF=1"]}],
"loops":[
 {"file":"include/bitvector.h","func":"FRT_BV_OP","loop":0,"of":1,"text":"__CPROVER_assigns(i, __CPROVER_object_whole(bv->bits)) __CPROVER_loop_invariant(i >= 0 && i <= min_word_size && (g_w < min_word_size ==> (g_w < i ? bv->bits[g_w] == (g_a op g_b) : (a->bits[g_w] == g_a && b->bits[g_w] == g_b))) && (g_w >= min_word_size && g_w < a_wsz ==> a->bits[g_w] == g_a) && (g_w >= min_word_size && g_w < b_wsz ==> b->bits[g_w] == g_b)) __CPROVER_decreases(min_word_size - i)"},
 {"file":"include/bitvector.h","func":"frt_bv_xor_ext","loop":0,"of":1,"text":"__CPROVER_assigns(i, __CPROVER_object_whole(dest)) __CPROVER_loop_invariant(i >= min_word_size && i <= max && (g_w < min_word_size ==> dest[g_w] == (g_a ^ g_b)) && (g_w >= min_word_size && g_w < max ==> (g_w < i ? dest[g_w] == ((a_wsz < b_wsz ? g_b : g_a) ^ n) : src[g_w] == (a_wsz < b_wsz ? g_b : g_a)))) __CPROVER_decreases(max - i)"},
 {"file":"include/bitvector.h","func":"frt_bv_recount","loop":0,"of":2,"text":"__CPROVER_assigns(idx, count) __CPROVER_loop_invariant(idx <= len) __CPROVER_decreases(len - idx)"},
 {"file":"include/bitvector.h","func":"frt_bv_recount","loop":1,"of":2,"text":"__CPROVER_assigns(idx, count) __CPROVER_loop_invariant(idx <= len) __CPROVER_decreases(len - idx)"}],
"proof":{"unwind":5,"timeout":400}
}VP*/
int g_w; unsigned g_a, g_b;
#define VP_BASES 3
#define VP_MAXWATCH 1
#include "vp.h"
#ifdef VP_PROOF
/* the running count is not part of this contract (unit bv_recount): any value */
#define __builtin_popcount(w) (nondet_int())
#endif
#include "bv_common.h"
HARNESS
{
    BitVector *a = bv_any(3), *b = SELF ? a : bv_any(3), *d;
    int j = (int)vp_range(0, VP_SZ(BV_MAXBITS - 1, 130)), ma, mb, r, which = WHICH, sz;
    g_w = j / 32; vp_watch(g_w);
    VP_ASSUME(bv_tail_ok(a, j) && bv_tail_ok(b, j));
    VP_ASSUME(g_w >= a->capa || ((a->size + 31) / 32 > g_w) || a->bits[g_w] == (a->extends_as_ones ? 0xFFFFFFFFu : 0));
    VP_ASSUME(g_w >= b->capa || ((b->size + 31) / 32 > g_w) || b->bits[g_w] == (b->extends_as_ones ? 0xFFFFFFFFu : 0));
    ma = bv_mem(a, j); mb = bv_mem(b, j);
    g_a = g_w < a->capa ? a->bits[g_w] : 0; g_b = g_w < b->capa ? b->bits[g_w] : 0;
    sz = a->size > b->size ? a->size : b->size;
    if (which == 0) d = a;
    else if (which == 1) d = b;
    else if (which == 2) { d = bv_any(3); }
    else d = bv_new();
    FI(d, a, b);
    VP_REACH("returns");
    r = (ma OP mb);
    VP_ASSERT(bv_wf_shape(d) && d->size == sz, "the result is well formed and as long as the longer operand");
    VP_ASSERT(bv_mem(d, j) == r && bv_get(d, j) == r, "the result has exactly the members of the set operation");
    VP_ASSERT(bv_tail_ok(d, j), "unused bits keep the extension value");
    if (d != a) VP_ASSERT(bv_mem(a, j) == ma, "the first operand is unchanged");
    if (d != b) VP_ASSERT(bv_mem(b, j) == mb, "the second operand is unchanged");
}
