/*VP{
"property":"P09",
"title":"the default similarity encodes and decodes norms with the byte code for all 256 bytes",
"functions":["sim_create_default","simdef_decode_norm","simdef_encode_norm"],
"proof":{"unwind":258}
}VP*/
#include "env.h"
#include "similarity.h"
float frt_byte2float(unsigned char b) { return b * 1.5f; }
unsigned char frt_float2byte(float f) { return f == 3.0f ? 2 : 9; }
#include "similarity.c"
HARNESS
{
    Similarity *s, *t; unsigned char b = vp_byte();
    default_similarity.data = NULL;
    s = sim_create_default(); t = sim_create_default();
    VP_REACH("created");
    VP_ASSERT(s == t && sim_decode_norm(s, b) == b * 1.5f, "every byte decodes to its value");
    VP_ASSERT(sim_encode_norm(s, 3.0f) == 2 && sim_encode_norm(s, 4.0f) == 9, "encoding uses the byte code");
}
