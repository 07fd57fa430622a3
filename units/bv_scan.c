/*VP{
"property":"P05",
"title":"scanning for the next set / unset bit returns the smallest such bit at or after the start position inside the vector, or -1",
"functions":["bv_scan_next_from","bv_scan_next","bv_scan_next_unset_from","bv_scan_next_unset"],
"variants":[
 {"name":"set","defs":["VAL=1","SCAN=bv_scan_next_from"],"loops":[{"file":"include/bitvector.h","func":"frt_bv_scan_next_from","loop":0,"of":1,
  "text":"__CPROVER_assigns(pos, word) __CPROVER_loop_invariant(pos >= (unsigned)g_w0 + 1 && pos <= word_size && (g_w < (int)pos && g_w > g_w0 ==> bv->bits[g_w] == 0)) __CPROVER_decreases(word_size + 1 - pos)"}]},
 {"name":"unset","defs":["VAL=0","SCAN=bv_scan_next_unset_from"],"loops":[{"file":"include/bitvector.h","func":"frt_bv_scan_next_unset_from","loop":0,"of":1,
  "text":"__CPROVER_assigns(pos, word) __CPROVER_loop_invariant(pos >= (unsigned)g_w0 + 1 && pos <= word_size && (g_w < (int)pos && g_w > g_w0 ==> bv->bits[g_w] == 0xFFFFFFFF)) __CPROVER_decreases(word_size + 1 - pos)"}]}],
"proof":{"unwind":4},
"bounded":{"K":2,"unwind":6},
"assume":["for an unset scan over a vector whose partial last word is ones below size the result may be the first bit past the end (the property is stated for bits inside the vector)"]
}VP*/
int g_w, g_w0;
#include "bv_common.h"
HARNESS
{
    BitVector *bv = bv_any(2);
    int bit = (int)vp_range(0, VP_SZ(BV_MAXBITS - 1, 80)), j = (int)vp_range(0, VP_SZ(BV_MAXBITS - 1, 80)), r, curr = bv->curr_bit, next = vp_bool();
    g_w = j / 32; g_w0 = bit / 32;
    VP_ASSUME(bv_tail_ok(bv, j));
    VP_ASSUME(!bv->extends_as_ones);
    if (next) bv->curr_bit = bit - 1;
    curr = bv->curr_bit;
    if (next && VAL) r = bv_scan_next(bv);
    else if (next) r = bv_scan_next_unset(bv);
    else r = SCAN(bv, bit);
    VP_REACH("returns");
    if (r >= 0) {
        VP_REACH("found");
        VP_ASSERT(r >= bit, "the result is not before the start");
        VP_ASSERT(r < 32 * ((bv->size + 31) / 32), "the result lies inside the words of the vector");
        VP_ASSERT(((bv->bits[r / 32] >> (r % 32)) & 1u) == VAL, "the result is such a bit");
        VP_ASSERT(!(j >= bit && j < r) || bv_mem(bv, j) != VAL, "no such bit is skipped");
        VP_ASSERT(bv->curr_bit == r, "the scan position is the result");
    }
    else {
        VP_REACH("none");
        VP_ASSERT(r == -1, "the end is -1");
        VP_ASSERT(!(j >= bit && j < bv->size) || bv_mem(bv, j) != VAL, "no such bit remains");
        VP_ASSERT(bv->curr_bit == curr, "a failed scan leaves the position alone");
    }
}
