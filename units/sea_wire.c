/*VP{
"property":"P16",
"title":"end to end on small result sets: an unsorted search returns the requested page, best score first, ties by document number, with the right total and maximum",
"functions":["isea_search_w","hit_pq_insert","hit_pq_pop","pq_new","pq_clear","pq_destroy"],
"prune":{"src/search.c":["isea_search_w"]},
"level":"bounded",
"bounded":{"K":3,"unwind":6,"timeout":300}
}VP*/
/* bound: at most K documents match the query, page (1,4); any page in the native runs */
#define VP_WATCH_W 8
#ifdef VP_NATIVE
#undef VP_K
#define VP_K 9
#endif
#define VP_FREE_PTR
#include "env.h"
void frt_dummy_free(void *p) { }
#include "priorityqueue.c"
#include "search.c"
static int nd, docs[VP_K], at, dead; static float sc[VP_K]; static BitVector bv; static u32 bits[4];
static bool snext(Scorer *s) { at++; if (at >= nd) return false; s->doc = docs[at]; return true; }
static float sscore(Scorer *s) { return sc[at]; }
static void sdestroy(Scorer *s) { dead++; }
static Scorer S; static IndexReader IR; static IndexSearcher IS;
static Scorer *wscorer(Weight *w, IndexReader *ir) { return &S; }
static int ndocs(IndexReader *ir) { return 7; }
BitVector *frt_filt_get_bv(Filter *f, IndexReader *ir) { return &bv; }
#undef memcpy
#define memcpy(d, s, n) (*(Hit *)(d) = *(const Hit *)(s))
HARNESS
{
    int i, j, first = 1, num = 4, n, rank, cnt = 0, in[VP_K]; float mx = 0; Weight W; Filter F; TopDocs *td;
#ifdef VP_NATIVE
    first = (int)vp_range(0, 5); num = (int)vp_range(1, 5);
#endif
    nd = VP_K; at = -1; dead = 0;
    bv.bits = bits; bv.size = 128; bv.capa = 4; bv.extends_as_ones = 0; for (i = 0; i < 4; i++) bits[i] = vp_u32();
    for (i = 0; i < VP_K; i++) {
        docs[i] = (i ? docs[i - 1] + 1 : 0) + (int)vp_range(0, 3); sc[i] = (float)(int)vp_range(0, 3);
        in[i] = (bits[docs[i] >> 5] >> (docs[i] & 31)) & 1;
        if (in[i]) { cnt++; if (sc[i] > mx) mx = sc[i]; }
    }
    memset(&S, 0, sizeof(S)); S.next = snext; S.score = sscore; S.destroy = sdestroy;
    W.scorer = wscorer; IR.num_docs = ndocs; IS.ir = &IR;
    td = isea_search_w((Searcher *)&IS, &W, first, num, &F, NULL, NULL, false);
    VP_ASSERT(td->total_hits == cnt, "the total counts every match");
    VP_ASSERT(td->max_score == mx, "the maximum score is that of the best match");
    n = cnt > first ? cnt - first : 0; if (n > num) n = num;
    VP_ASSERT(td->size == n, "the page has the right size");
    VP_ASSUME(td->size == n);
    for (i = 0; i < nd; i++) if (in[i]) {
        rank = 0;
        for (j = 0; j < nd; j++) if (in[j] && (sc[j] > sc[i] || (sc[j] == sc[i] && docs[j] < docs[i]))) rank++;
        if (rank >= first && rank - first < n) VP_ASSERT(td->hits[rank - first]->doc == docs[i] && td->hits[rank - first]->score == sc[i], "each document of the page is at its rank with its score");
    }
    VP_ASSERT(dead == 1, "the scorer is released once");
    VP_REACH("done");
}
