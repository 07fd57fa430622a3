/*VP{
"property":"P03",
"title":"a RAM file grows to hold any buffer number, old buffers keep their place",
"functions":["rf_extend_if_necessary","rf_new","rf_close"],
"level":"bounded",
"bounded":{"K":3,"unwind":6}
}VP*/
#define VP_WATCH_W 8
#define VP_ESTRDUP
#include "env.h"
#include <sys/types.h>
#include "store.h"
#include "ram_store.c"
HARNESS
{
    RAMFile *rf = rf_new("x"); int b1 = (int)vp_range(0, VP_K), b2 = (int)vp_range(0, VP_K), i; uchar *old;
    VP_ASSERT(rf->bufcnt == 1 && rf->len == 0 && rf->ref_cnt == 1 && rf->name[0] == 'x' && rf->name[1] == 0, "a new RAM file is empty");
    rf_extend_if_necessary(rf, b1);
    i = (int)vp_range(0, VP_K); VP_ASSUME(i <= b1);
    old = rf->buffers[i]; old[BUFFER_SIZE - 1] = 42;
    rf_extend_if_necessary(rf, b2);
    VP_REACH("extended");
    VP_ASSERT(rf->bufcnt > b1 && rf->bufcnt > b2 && rf->bufcnt <= (b1 > b2 ? b1 : b2) + 1, "the file has a buffer for every block");
    VP_ASSERT(rf->buffers[i] == old && old[BUFFER_SIZE - 1] == 42, "old buffers keep their place and contents");
    for (i = 0; i < rf->bufcnt; i++) rf->buffers[i][BUFFER_SIZE - 1] = 1;
    rf->ref_cnt = 0;
    rf_close(rf);
}
