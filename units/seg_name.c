/*VP{
"property":"P17",
"title":"generation numbers survive being written into a file name: the base-36 digits read back give the number",
"functions":["u64_to_str36","str36_to_u64"],
"prune":{"src/index.c":["&","u64_to_str36","str36_to_u64"]},
"variants":[{"name":"low","defs":["BASE=0ull","BITS=16"],"limit":"numbers below 65536"},
{"name":"int","defs":["BASE=0x7fffff80ull","BITS=8"],"limit":"256 numbers around 2^31"},
{"name":"uint","defs":["BASE=0xffffff80ull","BITS=8"],"limit":"256 numbers around 2^32"},
{"name":"max","defs":["BASE=0xffffffffffffff00ull","BITS=8"],"limit":"the 256 greatest 64-bit numbers"}],
"proof":{"unwind":15},
"bounded":{"K":3,"unwind":15}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "index.c"
#define L SEGMENT_NAME_MAX_LENGTH
HARNESS
{
    char b[L], *s; u64 u = vp_u64(); int n, k; u = (u64)BASE + (u & ((1u << BITS) - 1));
    s = u64_to_str36(b, L, u); n = (int)(b + L - 1 - s);
    VP_ASSERT(n >= 1 && n <= 13 && s[n] == 0 && (n == 1 || s[0] != '0'), "a terminated name without leading zeros, inside the buffer");
    k = (int)vp_range(0, 12); if (k < n) VP_ASSERT((s[k] >= '0' && s[k] <= '9') || (s[k] >= 'a' && s[k] <= 'z'), "of digits and lower-case letters");
    VP_ASSERT(str36_to_u64(s) == u, "the number reads back");
    VP_REACH("done");
}
