/*VP{
"property":"P03","also":["P02"],
"title":"reading a block of any length from a RAM file returns exactly the file's bytes; past the end it raises",
"functions":["rami_read_i","rami_seek_i","rami_length_i"],
"loops":[{"file":"src/ram_store.c","func":"rami_read_i","loop":0,"of":1,
 "text":"__CPROVER_assigns(buffer_number, buffer_offset, bytes_in_buffer, bytes_to_copy, buffer, offset, start, remainder, __CPROVER_object_whole(b)) __CPROVER_loop_invariant(remainder >= 0 && offset >= 0 && offset + remainder == len && start == g_p0 + offset && b[len] == 77 && (g_o >= g_p0 && g_o < start ==> b[g_o - g_p0] == g_b)) __CPROVER_decreases(remainder)"}],
"proof":{"unwind":2},
"assume":["file length below 2^30"]
}VP*/
#include <sys/types.h>
static off_t g_p0;
#define VP_MAXWATCH 2
#include "ram_common.h"
HARNESS
{
    RAMFile *rf = rf_any(); InStream *is = VP_NEW(InStream); uchar *b; int len = (int)vp_range(0, VP_SZ(1 << 29, 3000));
    is->file.rf = rf; is->m = &RAM_IN_STREAM_METHODS;
    g_p0 = vp_range(0, VP_SZ(1 << 30, 7000));
    b = VP_NEW_N(uchar, len + 1); b[len] = 77;
    is->m->seek_i(is, g_p0);
    vp_watch(g_o - g_p0); vp_watch(len);
    vp_raise_ok = g_p0 + len > rf->len;
    is->m->read_i(is, b, len);
    VP_REACH("read");
    VP_ASSERT(g_p0 + len <= rf->len, "reading past the end of the file raises");
    VP_ASSERT(is->d.pointer == g_p0 + len, "the file pointer advances by the number of bytes");
    VP_ASSERT(!(g_o >= g_p0 && g_o < g_p0 + len) || b[g_o - g_p0] == g_b, "every byte read is the byte in the file");
    VP_ASSERT(b[len] == 77, "nothing is written behind the caller's buffer");
    VP_ASSERT(is->m->length_i(is) == rf->len, "the length reported is the file's");
}
