import runpy, os
BASE = runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/s3.py')['BASE']
IDX = BASE + r'''
static void add(IndexWriter *iw, const char *f, const char *v) { Document *d = doc_new(); doc_add_field(d, df_add_data(df_new(intern(f)), estrdup(v))); iw_add_doc(iw, d); doc_destroy(d); }
'''
SEEDS = [
 dict(id='p10-seek-len', prop='P10', file='c/src/index.c',
  old='''           term_len + 1);
    te->curr_term_len = term_len;
    te->curr_ti = sti->index_term_infos[idx_offset];''',
  new='''           term_len + 1);
    te->curr_ti = sti->index_term_infos[idx_offset];''',
  needs='an enumeration started exactly at a term that ends an index block, and a copy of that term',
  breaks='the term at an index entry is copied with the length of another term',
  demo=IDX + r'''
int main(void) {
    const char *const av[] = {"demo", NULL}; Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); IndexWriter *iw; IndexReader *ir; TermEnum *te; int i; char b[32], *s;
    frt_init(1, av); index_create(st, fis); fis_deref(fis);
    iw = iw_open(st, whitespace_analyzer_new(false), NULL);
    for (i = 0; i < 600; i++) { sprintf(b, "t%06d", i); add(iw, "a", b); }
    iw_optimize(iw); iw_close(iw); ir = ir_open(st);
    for (i = 0; i < 600; i++) { sprintf(b, "t%06d", i); te = ir_terms_from(ir, intern("a"), b); s = te_get_term(te); CHECK(strcmp(s, b) == 0); CHECK(te->curr_term_len == 7); free(s); te->close(te); }
    return 0;
}
'''),
 dict(id='p10-absent-field', prop='P10', file='c/src/index.c',
  old='''    else {
        STE(te)->size = 0;
    }
    return te;''',
  new='''    return te;''',
  needs='an enumeration that is moved from a field with terms to one that the segment does not have',
  breaks='terms of another field are given for a field without terms',
  demo=IDX + r'''
int main(void) {
    const char *const av[] = {"demo", NULL}; Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); IndexWriter *iw; IndexReader *ir; TermEnum *te;
    frt_init(1, av); fis_add_field(fis, fi_new(intern("z"), STORE_YES, INDEX_YES, TERM_VECTOR_NO)); index_create(st, fis); fis_deref(fis);
    iw = iw_open(st, whitespace_analyzer_new(false), NULL); add(iw, "a", "x y"); add(iw, "b", "u v w"); iw_optimize(iw); iw_close(iw); ir = ir_open(st);
    te = ir_terms(ir, intern("a")); CHECK(te->next(te) != NULL);
    te->set_field(te, fis_get_field_num(ir->fis, intern("z"))); CHECK(te->next(te) == NULL);
    return 0;
}
'''),
 dict(id='p10-nth-next-block', prop='P10', file='c/src/index.c',
  old='''        if (pos < ste->pos || pos''' if 0 else '''(pos < ste->pos) || pos > (1 + ste->pos / idx_int) * idx_int''',
  new='''(pos + 1 < ste->pos) || pos > (1 + ste->pos / idx_int) * idx_int''',
  needs='the term just before the one the enumeration stands on is asked for by number',
  breaks='the wrong term is given for a number',
  demo=IDX + r'''
int main(void) {
    const char *const av[] = {"demo", NULL}; Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); TermInfosWriter *w; SegmentFieldIndex *sfi; TermInfosReader *r; TermInfo ti; int i; static char b[300][8];
    frt_init(1, av); w = tiw_open(st, "_0", 16, 16); tiw_start_field(w, 0);
    for (i = 0; i < 300; i++) { sprintf(b[i], "t%03d", i); ti.doc_freq = 1; ti.frq_ptr = i; ti.prx_ptr = i; ti.skip_offset = 0; tiw_add(w, b[i], 4, &ti); }
    tiw_close(w); sfi = sfi_open(st, "_0"); r = tir_open(st, sfi, "_0"); tir_set_field(r, 0);
    for (i = 299; i > 0; i -= 7) { CHECK(strcmp(tir_get_term(r, i), b[i]) == 0); CHECK(strcmp(tir_get_term(r, i - 1), b[i - 1]) == 0); CHECK(strcmp(tir_get_term(r, i / 2), b[i / 2]) == 0); }
    return 0;
}
'''),
 dict(id='p10-scan-past-end', prop='P10', file='c/src/index.c',
  old='''if (STE(te)->pos < STE(te)->size && strcmp(te->curr_term, term) <= 0) {''',
  new='''if (strcmp(te->curr_term, term) <= 0) {''',
  needs='a lookup beyond the last term followed by a lookup of an earlier term of the last index block',
  breaks='a term that is in the dictionary is not found after a lookup ran past the last term',
  demo=IDX + r'''
int main(void) {
    const char *const av[] = {"demo", NULL}; Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); IndexWriter *iw; IndexReader *ir;
    frt_init(1, av); index_create(st, fis); fis_deref(fis);
    iw = iw_open(st, whitespace_analyzer_new(false), NULL); add(iw, "a", "x y"); iw_close(iw); ir = ir_open(st);
    CHECK(ir_doc_freq(ir, intern("a"), "zz") == 0); CHECK(ir_doc_freq(ir, intern("a"), "zzz") == 0); CHECK(ir_doc_freq(ir, intern("a"), "x") == 1); CHECK(ir_doc_freq(ir, intern("a"), "y") == 1);
    return 0;
}
'''),
]
