/*VP{
"property":"P09",
"title":"the one-byte norm code: exact on its 256 values, order preserving, never zero for a positive value, never off by more than a quarter",
"functions":["float2byte","byte2float","float2int","int2float"],
"proof":{"unwind":2}
}VP*/
#include "env.h"
#include "helper.c"
HARNESS
{
    float f = vp_float(), g = vp_float(), d; unsigned char b = vp_byte(), x, y; int v = vp_int();
    VP_ASSERT(float2byte(byte2float(b)) == b, "encoding a decoded byte gives the byte back");
    VP_ASSERT(b == 255 || byte2float(b) < byte2float(b + 1), "decoding is strictly increasing");
    VP_ASSERT(byte2float(0) == 0.0f && byte2float(124) == 1.0f, "zero and one are exact");
    VP_ASSERT(v != v || float2int(int2float(v)) == v || int2float(v) != int2float(v), "float and bit pattern convert exactly");
    VP_ASSUME(f == f && g == g);
    x = float2byte(f); y = float2byte(g);
    VP_REACH("encoded");
    VP_ASSERT(!(f <= g) || x <= y, "a larger norm never gets a smaller code");
    VP_ASSERT((x == 0) == (f <= 0.0f), "only zero and negative values encode to zero");
    d = byte2float(x);
    if (f > 0 && f >= byte2float(1)) VP_ASSERT(d <= f && (x == 255 || f < byte2float(x + 1)), "the code is the largest one not above the value");
}
