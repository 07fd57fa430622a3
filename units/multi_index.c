/*VP{
"property":"P12",
"title":"a global document number is mapped to the one sub-index whose range holds it, also with empty sub-indexes",
"functions":["mr_reader_index_i","msea_get_searcher_index"],
"variants":[{"name":"reader","defs":["MR_=1"],"prune":{"src/index.c":["mr_reader_index_i"]},
 "loops":[{"file":"src/index.c","func":"mr_reader_index_i","loop":0,"of":2,"text":"__CPROVER_assigns(lo, hi, mid, mid_value) __CPROVER_loop_invariant(lo >= 0 && hi < mr->r_cnt && lo <= hi + 1 && (lo == 0 || mr->starts[lo - 1] < doc_num) && (hi == mr->r_cnt - 1 || mr->starts[hi + 1] > doc_num)) __CPROVER_decreases(hi - lo + 1)"},
  {"file":"src/index.c","func":"mr_reader_index_i","loop":1,"of":2,"text":"__CPROVER_assigns(mid) __CPROVER_loop_invariant(mid >= 0 && mid < mr->r_cnt && mr->starts[mid] == mid_value) __CPROVER_decreases(mr->r_cnt - mid)"}]},
 {"name":"searcher","defs":["MR_=0"],"prune":{"src/search.c":["msea_get_searcher_index"]},
 "loops":[{"file":"src/search.c","func":"msea_get_searcher_index","loop":0,"of":2,"text":"__CPROVER_assigns(lo, hi, mid, mid_val) __CPROVER_loop_invariant(lo >= 0 && hi < msea->s_cnt && lo <= hi + 1 && (lo == 0 || msea->starts[lo - 1] < n) && (hi == msea->s_cnt - 1 || msea->starts[hi + 1] > n)) __CPROVER_decreases(hi - lo + 1)"},
  {"file":"src/search.c","func":"msea_get_searcher_index","loop":1,"of":2,"text":"__CPROVER_assigns(mid) __CPROVER_loop_invariant(mid >= 0 && mid < msea->s_cnt && msea->starts[mid] == mid_val) __CPROVER_decreases(msea->s_cnt - mid)"}]}],
"proof":{"unwind":2},
"bounded":{"K":4,"unwind":7,"complete":1}
}VP*/
#define VP_FREE_PTR
#include "env.h"
#if MR_
#include "index.c"
#else
#include "search.c"
#endif
HARNESS
{
    int cnt = (int)vp_range(1, VP_SZ(1 << 28, 5)), *starts = VP_NEW_N(int, cnt + 1), n, r, i;
#if !defined(VP_PROOF)
    for (i = 0; i <= cnt; i++) starts[i] = (i ? starts[i - 1] : 0) + (i ? (int)vp_range(0, 2) : 0);
#endif
    VP_ASSUME(starts[0] == 0 && starts[cnt] >= 1);
    n = (int)vp_range(0, VP_SZ(0x7ffffffe, 10)); VP_ASSUME(n < starts[cnt]);
#if MR_
    { MultiReader mr; mr.r_cnt = cnt; mr.starts = starts; r = mr_reader_index_i(&mr, n); }
#else
    { MultiSearcher m; m.s_cnt = cnt; m.starts = starts; r = msea_get_searcher_index((Searcher *)&m, n); }
#endif
    VP_REACH("done");
    VP_ASSERT(r >= 0 && r < cnt, "the index is one of the sub-indexes");
    VP_ASSUME(r >= 0 && r < cnt);
    /* precondition: the starts ascend; needed only here */
    VP_ASSUME(starts[r] <= starts[r + 1]);
    VP_ASSERT(starts[r] <= n && n < starts[r + 1], "its range holds the document");
}
