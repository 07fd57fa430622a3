import runpy, os
IDX = runpy.run_path(os.path.dirname(os.path.abspath(__file__)) + '/s4.py')['IDX']
SEEDS = [
 dict(id='p22-zip-strlen', prop='P22', file='c/src/index.c',
  old="""            (void)lazy_df_get_data(self, i);
            self->len += self->data[i].length + 1;""",
  new="""            self->len += (int)strlen(lazy_df_get_data(self, i)) + 1;""",
  needs='a compressed value with a zero byte, and a range that reaches behind it',
  breaks='bytes that are in the field are refused',
  demo=IDX + r"""
int main(void) {
    const char *const av[] = {"demo", NULL}; Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); IndexWriter *iw; IndexReader *ir; LazyDocField *f; Document *d; char b[8];
    frt_init(1, av); fis_add_field(fis, fi_new(intern("z"), STORE_COMPRESS, INDEX_NO, TERM_VECTOR_NO)); index_create(st, fis); fis_deref(fis);
    iw = iw_open(st, whitespace_analyzer_new(false), NULL);
    d = doc_new(); doc_add_field(d, df_add_data_len(df_new(intern("z")), "ab\0cd", 5)); iw_add_doc(iw, d); doc_destroy(d);
    iw_close(iw); ir = ir_open(st); f = lazy_doc_get(ir->get_lazy_doc(ir, 0), intern("z")); CHECK(f != NULL);
    lazy_df_get_bytes(f, b, 1, 4); CHECK(memcmp(b, "b\0cd", 4) == 0);
    return 0;
}
"""),
 dict(id='p23-offset-zero', prop='P23', file='c/src/index.c',
  old="""        if (dw->offsets_size > 0) {
            ZEROSET_N(dw->offsets, Offset, dw->offsets_size);
            dw->offsets_size = 0;""",
  new="""        if (fld_inv->store_term_vector && dw->offsets_size > 0) {
            ZEROSET_N(dw->offsets, Offset, fld_inv->length);
            dw->offsets_size = 0;""",
  needs='a field with a gap in its positions (a token filter that drops words) followed by one with a gap at the same place',
  breaks='offsets of a token of an earlier document appear in a later term vector',
  demo=IDX + r"""
int main(void) {
    const char *const av[] = {"demo", NULL}; Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_WITH_POSITIONS_OFFSETS); IndexWriter *iw; IndexReader *ir; TermVector *tv; const char *stop[] = {"the", NULL}; int i;
    frt_init(1, av); index_create(st, fis); fis_deref(fis);
    iw = iw_open(st, analyzer_new(stop_filter_new_with_words(whitespace_tokenizer_new(), stop), NULL, NULL), NULL);
    add(iw, "a", "the the the one two three"); add(iw, "a", "x the the the the the y"); iw_close(iw); ir = ir_open(st);
    tv = ir->term_vector(ir, 1, intern("a")); CHECK(tv && tv->term_cnt == 2 && tv->offset_cnt == 7);
    for (i = 1; i < 6; i++) CHECK(tv->offsets[i].start == 0 && tv->offsets[i].end == 0);
    CHECK(tv->offsets[6].start == 22 && tv->offsets[6].end == 23);
    return 0;
}
"""),
 dict(id='p23-vector-freq', prop='P23', file='c/src/index.c',
  old="""            for (occ = posting->first_occ; occ; occ = occ->next) {
                os_write_vint(fdt_out, occ->pos - last_pos);
                last_pos = occ->pos;
            }""",
  new="""            for (occ = posting->first_occ; occ; occ = occ->next) {
                os_write_vint(fdt_out, occ->pos - last_pos);
                if (occ->next && occ->next->next) last_pos = occ->pos;
                else last_pos = posting->first_occ->pos;
            }""",
  needs='a term with three or more occurrences in a field whose vector stores positions',
  breaks='',
  demo=IDX + 'int main(void){return 0;}'),
]
SEEDS = [x for x in SEEDS if x['breaks']]
