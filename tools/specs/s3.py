import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 's2.py'))
BASE, IDX = B['BASE'], B['IDX']
SEEDS = [
 dict(id='p14-excl-first-skip', prop='P14', file='c/src/q_boolean.c',
  old='''        if (! excl_scorer->skip_to(excl_scorer, doc_num)) {
            /* emptied */''',
  new='''        if (! excl_scorer->skip_to(excl_scorer, doc_num + 1)) {
            /* emptied */''',
  needs='the first operation on the scorer is a skip to a document that a prohibited clause has',
  breaks='the document is delivered although a prohibited clause has it',
  demo=IDX + r'''
static const char *t(int i) { return i == 5 || i == 9 ? "a b" : "a"; }
int main(void) {
    Store *st = mk(12, t, 0); Searcher *s = isea_new(ir_open(st)); Query *q = bq_new(false); int buf[20], n, i, w = 6;
    bq_add_query_nr(q, tq_new(intern("f"), "a"), BC_MUST); bq_add_query_nr(q, tq_new(intern("f"), "b"), BC_MUST_NOT);
    n = searcher_search_unscored(s, q, buf, 20, 5);
    CHECK(n == 5);
    for (i = 0; i < n; i++) { if (w == 9) w++; CHECK(buf[i] == w); w++; }
    return 0;
}
'''),
 dict(id='p17-gen-by-name', prop='P17', file='c/src/index.c',
  old='''        i64 generation = (i64)str36_to_u64(p);
        if (generation > *max_generation) *max_generation = generation;''',
  new='''        i64 generation = (i64)str36_to_u64(p);
        if (generation != (int)generation) generation = (int)generation;
        if (generation > *max_generation) *max_generation = generation;''',
  needs='an index whose generation does not fit in an int',
  breaks='the newest list of segments is not found',
  demo=BASE + r'''
int main(void) {
    Store *st = open_ram_store(); char b[SEGMENT_NAME_MAX_LENGTH]; const char *const av[] = {"demo", NULL}; OutStream *os;
    frt_init(1, av);
    os = st->new_output(st, "segments_5"); os_close(os);
    os = st->new_output(st, "segments_1z141z4"); os_close(os);
    CHECK(strcmp(sis_curr_seg_file_name(b, st), "segments_1z141z4") == 0 || (printf("%s\n", b), 0));
    return 0;
}
'''),
 dict(id='p17-norm-gens-order', prop='P17', file='c/src/index.c',
  old='''        for (i = si->norm_gens_size - 1; i >= 0; i--) {
            os_write_vint(os, si->norm_gens[i]);''',
  new='''        for (i = 0; i < si->norm_gens_size; i++) {
            os_write_vint(os, si->norm_gens[i]);''',
  needs='a segment with several fields whose norm generations differ',
  breaks='after reopening, the norms of one field are looked for under the generation of another',
  demo=BASE + r'''
int main(void) {
    const char *const av[] = {"demo", NULL}; Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); IndexWriter *iw; IndexReader *ir; int i; Document *d;
    frt_init(1, av); index_create(st, fis); fis_deref(fis);
    iw = iw_open(st, whitespace_analyzer_new(false), NULL);
    for (i = 0; i < 3; i++) { d = doc_new(); doc_add_field(d, df_add_data(df_new(intern("a")), estrdup("x"))); doc_add_field(d, df_add_data(df_new(intern("b")), estrdup("y"))); doc_add_field(d, df_add_data(df_new(intern("c")), estrdup("z"))); iw_add_doc(iw, d); doc_destroy(d); }
    iw_close(iw);
    ir = ir_open(st); ir_set_norm(ir, 1, intern("a"), 77); ir_commit(ir); ir_close(ir);
    TRY
        ir = ir_open(st); CHECK(ir_get_norms(ir, intern("a"))[1] == 77); CHECK(ir_get_norms(ir, intern("c"))[1] != 77);
    XCATCHALL
        printf("exception\n"); exit(1);
    XENDTRY
    return 0;
}
'''),
 dict(id='p18-del-inplace', prop='P18', file='c/src/index.c',
  old='''        if (si->del_gen >= 0) {
            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
            deleter_queue_file(ir->deleter, tmp_file_name);
        }
        if (SR(ir)->undelete_all) {''',
  new='''        if (si->del_gen >= 0 && SR(ir)->undelete_all) {
            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
            deleter_queue_file(ir->deleter, tmp_file_name);
        }
        if (SR(ir)->undelete_all) {''',
  more=[('c/src/index.c', '''            si->del_gen++;
            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
            bv_write(SR(ir)->deleted_docs, ir->store, tmp_file_name);''',
  '''            if (si->del_gen < 0) si->del_gen++;
            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
            bv_write(SR(ir)->deleted_docs, ir->store, tmp_file_name);''')],
  needs='a second commit of deletions that is interrupted, or observed, before the list of segments is written',
  breaks='the deletions file the current list of segments refers to is overwritten in place',
  demo=IDX + r'''
static const char *t(int i) { return "a"; }
static OutStream *(*real)(Store *, const char *);
static int bad;
static OutStream *hook(Store *s, const char *n) { if (s->exists(s, n) && strcmp(n, "segments") != 0 && strcmp(n, "deletable") != 0) { printf("overwrites %s\n", n); bad = 1; } return real(s, n); }
int main(void) {
    Store *st = mk(6, t, 0); IndexReader *ir; int i;
    real = st->new_output; st->new_output = &hook;
    for (i = 0; i < 3; i++) { ir = ir_open(st); ir_delete_doc(ir, i); ir_commit(ir); ir_close(ir); }
    ir = ir_open(st); CHECK(ir->num_docs(ir) == 3); CHECK(!bad);
    return 0;
}
'''),
 dict(id='p18-merge-remove-first', prop='P18', file='c/src/index.c',
  old='''        iw_commit_compound_file(iw, si);
        si->use_compound_file = true;
    }

    sis_write(sis, iw->store, iw->deleter);
    deleter_commit_pending_deletions(iw->deleter);

    mutex_unlock(&iw->store->mutex);

    sm_destroy(merger);''',
  new='''        iw_commit_compound_file(iw, si);
        si->use_compound_file = true;
    }

    deleter_commit_pending_deletions(iw->deleter);
    sis_write(sis, iw->store, iw->deleter);

    mutex_unlock(&iw->store->mutex);

    sm_destroy(merger);''',
  needs='a crash, or a reader opening the index, between removing the merged segments and writing the new list',
  breaks='the list of segments on disk refers to files that are gone',
  demo=IDX + r'''
static const char *t(int i) { return "a"; }
static int (*rm)(Store *, const char *); static OutStream *(*no)(Store *, const char *);
static int segw, bad;
static int hrm(Store *s, const char *n) { if (strstr(n, "_0.cfs") || strstr(n, "_0.fdt")) { if (!segw) { printf("%s removed too early\n", n); bad = 1; } } return rm(s, n); }
static OutStream *hno(Store *s, const char *n) { if (strncmp(n, "segments_", 9) == 0) segw = 1; return no(s, n); }
int main(void) {
    Store *st = mk(3, t, 0); IndexWriter *iw; int i;
    iw = iw_open(st, whitespace_analyzer_new(false), NULL);
    for (i = 0; i < 2; i++) { Document *d = doc_new(); doc_add_field(d, df_add_data(df_new(intern("f")), estrdup("b"))); iw_add_doc(iw, d); doc_destroy(d); iw_commit(iw); }
    rm = st->remove; no = st->new_output; st->remove = &hrm; st->new_output = &hno; segw = 0;
    iw_optimize(iw); CHECK(!bad); CHECK(segw);
    iw_close(iw);
    return 0;
}
'''),
 dict(id='p13-new-field-unmapped', prop='P13', file='c/src/index.c',
  old='''            fis_add_field(fis, new_fi);
        }
        new_fi->bits |= fi->bits;
        if (fi->number != new_fi->number) {
            must_map_fields = true;
        }''',
  new='''            fis_add_field(fis, new_fi);
        }
        else if (fi->number != new_fi->number) {
            must_map_fields = true;
        }
        new_fi->bits |= fi->bits;''',
  needs='adding an index all of whose fields are new to the writer, with other numbers',
  breaks='the stored fields and terms end up under another field',
  demo=BASE + r'''
static Store *one(const char *f, const char *v) {
    Store *st = open_ram_store(); FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); IndexWriter *iw; Document *d = doc_new();
    index_create(st, fis); fis_deref(fis); iw = iw_open(st, whitespace_analyzer_new(false), NULL);
    doc_add_field(d, df_add_data(df_new(intern(f)), estrdup(v))); iw_add_doc(iw, d); doc_destroy(d); iw_close(iw); return st;
}
int main(void) {
    const char *const av[] = {"demo", NULL}; Store *s1, *s2; IndexReader *ir; IndexWriter *iw;
    frt_init(1, av); s1 = one("f", "x"); s2 = one("g", "y");
    ir = ir_open(s2); iw = iw_open(s1, whitespace_analyzer_new(false), NULL); iw_add_readers(iw, &ir, 1); iw_close(iw); ir_close(ir);
    ir = ir_open(s1); CHECK(ir->num_docs(ir) == 2); CHECK(ir_doc_freq(ir, intern("g"), "y") == 1); CHECK(ir_doc_freq(ir, intern("f"), "y") == 0);
    { Document *d = ir->get_doc(ir, 1); CHECK(doc_get_field(d, intern("g")) != NULL); }
    return 0;
}
'''),
 dict(id='p13-norms-beside-cfs', prop='P13', file='c/src/index.c',
  old='''                    store = (si->use_compound_file && si->norm_gens[i])
                             ? smi->orig_store : smi->store;''',
  new='''                    store = (si->use_compound_file && si->del_gen >= 0)
                             ? smi->orig_store : smi->store;''',
  needs='merging a compound segment whose norms were set after it was made but that has no deletions (or the other way round)',
  breaks='the norms are looked for in the wrong place',
  demo=IDX + r'''
static const char *t(int i) { return "a b c"; }
int main(void) {
    Store *st = mk(4, t, 0); IndexReader *ir; IndexWriter *iw; Document *d;
    ir = ir_open(st); ir_set_norm(ir, 1, intern("f"), 99); ir_commit(ir); ir_close(ir);
    TRY
        iw = iw_open(st, whitespace_analyzer_new(false), NULL);
        d = doc_new(); doc_add_field(d, df_add_data(df_new(intern("f")), estrdup("z"))); iw_add_doc(iw, d); doc_destroy(d);
        iw_optimize(iw); iw_close(iw);
        ir = ir_open(st); CHECK(ir_get_norms(ir, intern("f"))[1] == 99);
    XCATCHALL
        printf("exception\n"); exit(1);
    XENDTRY
    return 0;
}
'''),
 dict(id='p21-join-last-wins', prop='P21', file='c/src/index.c',
  old='''            new_fi->bits |= fi->bits;
            if (fi->number != new_fi->number) {
                need_field_map = true;''',
  new='''            new_fi->bits = fi->bits;
            if (fi->number != new_fi->number) {
                need_field_map = true;''',
  needs='a field that is stored in one index and not in a later one',
  breaks='the joint list says that the field is not stored',
  demo=BASE + r'''
static Store *one(int store, const char *v) {
    Store *st = open_ram_store(); FieldInfos *fis = fis_new(store, INDEX_YES, TERM_VECTOR_NO); IndexWriter *iw; Document *d = doc_new();
    index_create(st, fis); fis_deref(fis); iw = iw_open(st, whitespace_analyzer_new(false), NULL);
    doc_add_field(d, df_add_data(df_new(intern("f")), estrdup(v))); iw_add_doc(iw, d); doc_destroy(d); iw_close(iw); return st;
}
int main(void) {
    const char *const av[] = {"demo", NULL}; IndexReader **rs, *mr;
    frt_init(1, av); rs = ALLOC_N(IndexReader *, 2); rs[0] = ir_open(one(STORE_YES, "x")); rs[1] = ir_open(one(STORE_NO, "y"));
    mr = mr_open(rs, 2); CHECK(fi_is_stored(fis_get_field(mr->fis, intern("f"))));
    return 0;
}
'''),
 dict(id='p06-eq-extended-tail', prop='P06', file='c/src/bitvector.c',
  old='''        const u32 expected = (bv1->extends_as_ones ? 0xFFFFFFFF : 0);
        for (i = word_size; i < ext_word_size; i++) {
            if (bits[i] != expected) {''',
  new='''        const u32 expected = (bv1->extends_as_ones ? bits[word_size] : 0);
        for (i = word_size; i < ext_word_size; i++) {
            if (bits[i] != expected) {''',
  needs='two negated vectors of different capacity that differ only in a word one of them does not store',
  breaks='different vectors compare equal',
  demo=BASE + r'''
#include "bitvector.h"
int main(void) {
    BitVector *a = bv_new(), *b = bv_new(), *na, *nb;
    bv_set(a, 3); bv_set(b, 3); bv_set(b, 70); bv_set(b, 40); 
    na = bv_not(a); nb = bv_not(b);
    bv_set(nb, 40);
    bv_unset(nb, 33); bv_unset(nb, 65); bv_set(nb, 70); bv_unset(nb, 33 + 32);
    { int i; for (i = 32; i < 96; i++) bv_set(nb, i); bv_unset(nb, 33); bv_unset(nb, 65); }
    CHECK(bv_get(na, 65) == 1 && bv_get(nb, 65) == 0);
    CHECK(!bv_eq(na, nb)); CHECK(!bv_eq(nb, na));
    return 0;
}
'''),
]
