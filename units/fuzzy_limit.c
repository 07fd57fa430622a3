/*VP{
"property":"P25",
"title":"the limit on the edit distance is the one that the asked similarity gives, for terms of every length",
"functions":["fuzq_get_max_distance","fuzq_calculate_max_distance","fuzq_initialize_max_distances"],
"variants":[{"name":"0","defs":["SIM=0.0f","Q4=4"]},{"name":"25","defs":["SIM=0.25f","Q4=3"]},{"name":"50","defs":["SIM=0.5f","Q4=2"]},{"name":"75","defs":["SIM=0.75f","Q4=1"]}],
"limit":"similarities 0, 0.25, 0.5 and 0.75",
"proof":{"unwind":22},
"bounded":{"K":3,"unwind":22}
}VP*/
#define VP_LIB_MEM
#include "env.h"
#include "q_fuzzy.c"
static void one(float sim, int q4)
{
    static FuzzyQuery f; int m, len; f.min_sim = sim; f.da = NULL;
    f.text_len = (int)vp_range(1, 254); f.pre_len = (int)vp_range(0, 100); m = (int)vp_range(1, 254);
    fuzq_initialize_max_distances(&f); len = f.pre_len + (m < f.text_len ? m : f.text_len);
    VP_ASSERT(fuzq_get_max_distance(&f, m) == q4 * len / 4, "the share of the length that may differ");
}
HARNESS
{
    one(SIM, Q4);
    VP_REACH("done");
}
