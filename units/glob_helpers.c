/*VP{
"property":"P05","also":["P06","P14","P24"],
"title":"min2/max2/min3/max3/icmp meet the contracts the other units use; bit counting helpers agree with their definition",
"functions":["min2","max2","min3","max3","icmp","count_ones","count_zeros","count_trailing_zeros","count_trailing_ones","count_leading_zeros","round2"],
"proof":{"unwind":34}
}VP*/
#define VP_NO_HELPERS
#define VP_NO_XGLOBALS
#include "env.h"
#include "global.c"
HARNESS
{
    int a = vp_int(), b = vp_int(), c = vp_int(), m, k, n = 0, tz = 32, lz = 32;
    u32 w = vp_u32();
    m = min2(a, b); VP_ASSERT(m <= a && m <= b && (m == a || m == b), "min2 is the minimum");
    m = max2(a, b); VP_ASSERT(m >= a && m >= b && (m == a || m == b), "max2 is the maximum");
    m = min3(a, b, c); VP_ASSERT(m <= a && m <= b && m <= c && (m == a || m == b || m == c), "min3 is the minimum");
    m = max3(a, b, c); VP_ASSERT(m >= a && m >= b && m >= c && (m == a || m == b || m == c), "max3 is the maximum");
    m = icmp(&a, &b); VP_ASSERT((m > 0) == (a > b) && (m < 0) == (a < b), "icmp orders integers");
    for (k = 31; k >= 0; k--) if ((w >> k) & 1u) { n++; tz = k; }
    for (k = 0; k < 32; k++) if ((w >> k) & 1u) lz = 31 - k;
    VP_ASSERT(frt_count_ones(w) == n && frt_count_zeros(~w) == n && frt_count_zeros(w) == 32 - n, "bit counts");
    VP_ASSERT(frt_count_trailing_zeros(w) == tz && frt_count_trailing_ones(~w) == tz, "trailing bit counts");
    VP_ASSERT(frt_count_leading_zeros(w) == lz, "leading zero count");
    VP_ASSUME(w < (1u << 30));
    m = frt_round2(w); VP_ASSERT(m > 0 && (u32)m > w && (m & (m - 1)) == 0 && (w == 0 || (u32)m <= 2 * w), "round2 is the next power of two");
    VP_REACH("end");
}
