import runpy, os
IDX = runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/s4.py')['IDX']
SEA = IDX.replace('#include "internal.h"', '#include "search.h"\n#include "internal.h"', 1) if '#include "search.h"' not in IDX else IDX
OPEN = r'''
    const char *const av[] = {"demo", NULL}; Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); IndexWriter *iw; IndexReader *ir; Searcher *s;
    frt_init(1, av); index_create(st, fis); fis_deref(fis); iw = iw_open(st, whitespace_analyzer_new(false), NULL);
'''
HITS = r'''
static int hits(Searcher *s, Query *q) { TopDocs *t = searcher_search(s, q, 0, 10, NULL, NULL, NULL); int n = t->total_hits; td_destroy(t); q_deref(q); return n; }
'''
SEEDS = [
 dict(id='p25-wild-star-star', prop='P25', file='c/src/q_wildcard.c',
  old='''            while (*p) {
                if (*p != WILD_STRING) {
                    return false;
                }
                p++;
            }
            return true;''',
  new='''            return *p == '\\0' || (*p == WILD_STRING
                && (p[1] == '\\0' || p[1] == WILD_STRING));''',
  needs='a pattern with two * in a row, and a term that ends where they stand',
  breaks='a term that lacks the rest of the pattern is found',
  demo=SEA + HITS + r'''
int main(void) {''' + OPEN + r'''
    add(iw, "a", "abc"); add(iw, "a", "abcd"); iw_close(iw); ir = ir_open(st); s = isea_new(ir);
    CHECK(hits(s, wcq_new(intern("a"), "abc**d")) == 1); CHECK(hits(s, wcq_new(intern("a"), "abc*")) == 2); CHECK(hits(s, wcq_new(intern("a"), "abc**")) == 2);
    return 0;
}
'''),
 dict(id='p25-range-marks', prop='P25', file='c/src/q_range.c',
  old='''        if (i < term_cnt && !range->include_lower && lower_text
            && 0 == strcmp(lower_text, tv->terms[i].text)) {''',
  new='''        if (i < term_cnt && !range->include_lower && lower_text) {''',
  needs='a highlighted range that excludes a lower bound which is not a term of the document',
  breaks='the first matching term of the document is not marked',
  demo=SEA + r'''
int main(void) {''' + OPEN.replace('TERM_VECTOR_NO', 'TERM_VECTOR_WITH_POSITIONS_OFFSETS') + r'''
    MatchVector *mv; Query *q; add(iw, "a", "x b d f"); iw_close(iw); ir = ir_open(st); s = isea_new(ir);
    q = rq_new(intern("a"), "c", "e", false, false); mv = searcher_get_match_vector(s, q, 0, intern("a")); CHECK(mv->size == 1 && mv->matches[0].start == 2);
    q = rq_new(intern("a"), "b", "e", false, false); mv = searcher_get_match_vector(s, q, 0, intern("a")); CHECK(mv->size == 1 && mv->matches[0].start == 2);
    return 0;
}
'''),
]
