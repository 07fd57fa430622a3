/* the documented encodings: big-endian fixed width, 7 bits per byte (least
 * significant first, high bit = more follows) for the variable ones */
#if VAR
#define CODEC_OK(n) ((n) >= 0)
static int codec_len(unsigned long long v) { int n = 1; while (v > 127) { v >>= 7; n++; } return n; }
static unsigned char codec_byte(unsigned long long v, int n, int k)
{
    return (unsigned char)(((v >> (7 * k)) & 0x7f) | (k < n - 1 ? 0x80 : 0));
}
#else
#define CODEC_OK(n) 1
static int codec_len(unsigned long long v) { (void)v; return W; }
static unsigned char codec_byte(unsigned long long v, int n, int k) { return k < n ? (unsigned char)(v >> (8 * (W - 1 - k))) : 0; }
#endif
