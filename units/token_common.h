/* Contract of the index file streams (P01, P02): the k-th value read is the k-th value written, provided it is read with the
 * matching operation.  Of the sequence only two arbitrary entries G_T and G_S are recorded; everything else reads back arbitrary. */
static long G_T, G_S, tk_w, tk_r; static u64 tk_v, tk_v2; static int tk_k, tk_k2;
enum { K_VINT = 1, K_U32, K_U64, K_BYTE, K_STR, K_VOFF, K_VLL, K_I64 };
static void tk_put(int k, u64 v) { if (tk_w == G_T) { tk_k = k; tk_v = v; } if (tk_w == G_S) { tk_k2 = k; tk_v2 = v; } tk_w++; }
static u64 tk_get(int k, u64 other)
{
    u64 v = other;
    if (tk_r == G_T) { VP_ASSERT(tk_r < tk_w && tk_k == k, "a value is read the way it was written"); v = tk_v; }
    else if (tk_r == G_S) { VP_ASSERT(tk_r < tk_w && tk_k2 == k, "a value is read the way it was written"); v = tk_v2; }
    tk_r++; return v;
}
static void tk_init(void) { tk_w = tk_r = 0; tk_k = tk_k2 = 0; tk_v = tk_v2 = 0; }
