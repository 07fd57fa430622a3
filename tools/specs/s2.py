BASE = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "global.h"
#include "store.h"
#include "hash.h"
#include "priorityqueue.h"
#include "index.h"
#include "search.h"
#include "except.h"
#include "internal.h"
#define CHECK(c) do { if (!(c)) { printf("wrong: %s\n", #c); exit(1); } } while (0)
'''
IDX = BASE + r'''
static Store *mk(int n, const char *(*text)(int), int skip) {
    static int once; Store *st; IndexWriter *iw; int i; Config c = default_config; FieldInfos *fis;
    if (!once++) { const char *const av[] = {"demo", NULL}; frt_init(1, av); }
    st = open_ram_store();
    fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO);
    index_create(st, fis); fis_deref(fis);
    if (skip) c.skip_interval = skip;
    iw = iw_open(st, whitespace_analyzer_new(false), &c);
    for (i = 0; i < n; i++) {
        Document *d = doc_new(); char *s = estrdup(text(i));
        doc_add_field(d, df_add_data(df_new(intern("f")), s));
        iw_add_doc(iw, d); doc_destroy(d); free(s);
    }
    iw_close(iw);
    return st;
}
'''
SEEDS = [
 dict(id='p03-extend-once', prop='P03', file='c/src/ram_store.c',
  old='''    while (rf->bufcnt <= buf_num) {
        REALLOC_N(rf->buffers, uchar *, (rf->bufcnt + 1));
        rf->buffers[rf->bufcnt++] = ALLOC_N(uchar, BUFFER_SIZE);''',
  new='''    if (rf->bufcnt <= buf_num) {
        REALLOC_N(rf->buffers, uchar *, (buf_num + 1));
        rf->buffers[buf_num] = ALLOC_N(uchar, BUFFER_SIZE);
        rf->bufcnt = buf_num + 1;''',
  needs='seeking an output stream of the RAM store more than one buffer past its end, writing there, and later writing into the hole',
  breaks='the buffers of the hole are never allocated, so writes and reads there go through a wild pointer',
  demo=BASE + r'''
int main(void) {
    Store *st = open_ram_store(); OutStream *os = st->new_output(st, "f"); InStream *is; int i; char *junk[200];
    for (i = 0; i < 200; i++) { junk[i] = malloc(8 * (i % 9 + 1)); memset(junk[i], 0x7f, 8 * (i % 9 + 1)); }
    for (i = 0; i < 200; i++) free(junk[i]);
    os_write_byte(os, 1);
    os_seek(os, 5 * 1024 + 7); os_write_byte(os, 9);
    os_seek(os, 2 * 1024 + 3); os_write_byte(os, 4);
    os_close(os); is = st->open_input(st, "f");
    CHECK(is_length(is) == 5 * 1024 + 8);
    is_seek(is, 2 * 1024 + 3); CHECK(is_read_byte(is) == 4);
    is_seek(is, 5 * 1024 + 7); CHECK(is_read_byte(is) == 9);
    return 0;
}
'''),
 dict(id='p04-read-past-member', prop='P04', file='c/src/compound_io.c',
  old='''    if ((start + len) > cis->length) {''',
  new='''    if ((start + len) > cis->length + cis->offset) {''',
  needs='a refill of a member stream that asks for more bytes than the member has left (reading a block across its end)',
  breaks='a read across the end of a member returns bytes of the next member instead of raising',
  demo=BASE + r'''
int main(void) {
    Store *st = open_ram_store(), *c; OutStream *os; InStream *is; int i; volatile int raised = 0; CompoundWriter *cw; uchar buf[4096];
    os = st->new_output(st, "a"); for (i = 0; i < 3000; i++) os_write_byte(os, 'a'); os_close(os);
    os = st->new_output(st, "b"); for (i = 0; i < 3000; i++) os_write_byte(os, 'b'); os_close(os);
    os = st->new_output(st, "c"); for (i = 0; i < 3000; i++) os_write_byte(os, 'c'); os_close(os);
    cw = open_cw(st, estrdup("x.cfs")); cw_add_file(cw, "a"); cw_add_file(cw, "b"); cw_add_file(cw, "c"); cw_close(cw);
    c = open_cmpd_store(st, "x.cfs"); is = c->open_input(c, "b");
    is_seek(is, 2000);
    TRY
        is_read_bytes(is, buf, 1500);
    XCATCHALL
        HANDLED(); raised = 1;
    XENDTRY
    CHECK(raised);
    is = c->open_input(c, "b"); is_read_bytes(is, buf, 3000);
    for (i = 0; i < 3000; i++) CHECK(buf[i] == 'b');
    return 0;
}
'''),
 dict(id='p12-empty-sub', prop='P12', file='c/src/search.c',
  old='''            while (((mid+1) < msea->s_cnt)
                   && (msea->starts[mid+1] == mid_val)) {
                mid++;          /* scan to last match */
            }''',
  new='''            if (((mid+1) < msea->s_cnt)
                && (msea->starts[mid+1] == mid_val)) {
                mid++;          /* skip an empty searcher */
            }''',
  needs='two or more consecutive empty indexes before the one that holds the document, which is its first',
  breaks='the first document of an index is looked up in an empty index',
  demo=IDX + r'''
static const char *t0(int i) { return "left"; }
static const char *t1(int i) { return "right"; }
int main(void) {
    int n, k, i;
    for (n = 1; n < 6; n++) {
        Searcher **ss = ALLOC_N(Searcher *, n + 2), *ms; Document *d;
        ss[0] = isea_new(ir_open(mk(3, t0, 0)));
        for (k = 1; k <= n; k++) ss[k] = isea_new(ir_open(mk(0, t0, 0)));
        ss[n + 1] = isea_new(ir_open(mk(2, t1, 0)));
        ms = msea_new(ss, n + 2, false);
        for (i = 0; i < 5; i++) {
            volatile int ok = 0;
            TRY
                d = ms->get_doc(ms, i); ok = strcmp(doc_get_field(d, intern("f"))->data[0], i < 3 ? "left" : "right") == 0;
            XCATCHALL
                HANDLED();
            XENDTRY
            CHECK(ok);
        }
    }
    return 0;
}
'''),
 dict(id='p11-prox-deleted', prop='P11', file='c/src/index.c',
  old='''        stde->skip_prox(stde);
    }
    return true;''',
  new='''        if (stde->freq > 1) {
            stde->skip_prox(stde);
        }
    }
    return true;''',
  needs='a deleted document that holds the term once, before a live document whose positions are read',
  breaks='the live document gets the positions of the deleted one',
  demo=IDX + r'''
static const char *t(int i) { return i == 1 ? "a x" : i == 2 ? "a b c x" : "x"; }
int main(void) {
    Store *st = mk(3, t, 0); IndexReader *ir = ir_open(st); TermDocEnum *e; 
    ir_delete_doc(ir, 1);
    e = ir_term_positions_for(ir, intern("f"), "x");
    CHECK(e->next(e)); CHECK(e->next_position(e) == 0);
    CHECK(e->next(e)); CHECK(e->doc_num(e) == 2); CHECK(e->next_position(e) == 3);
    return 0;
}
'''),
 dict(id='p16-max-score', prop='P16', file='c/src/search.c',
  old='''        if (filter_factor < 1.0) score *= filter_factor;
        if (score > max_score) max_score = score;
        hit.doc = scorer->doc; hit.score = score;''',
  new='''        if (score > max_score) max_score = score;
        if (filter_factor < 1.0) score *= filter_factor;
        hit.doc = scorer->doc; hit.score = score;''',
  needs='a post filter that scales the score of the best match',
  breaks='the reported maximum score is that of the unscaled match, not of the best hit',
  demo=IDX + r'''
static const char *t(int i) { return "x"; }
static float half(int d, float s, Searcher *se, void *a) { return 0.5; }
int main(void) {
    Store *st = mk(20, t, 0); Searcher *s = isea_new(ir_open(st)); Query *q = tq_new(intern("f"), "x"); TopDocs *td; PostFilter pf;
    pf.filter_func = &half; pf.arg = NULL;
    td = searcher_search(s, q, 0, 5, NULL, NULL, &pf);
    CHECK(td->total_hits == 20 && td->size == 5);
    CHECK(td->max_score == td->hits[0]->score);
    return 0;
}
'''),

 dict(id='p07-set-unlink', prop='P07', file='c/src/hashset.c',
  old='''        entry->prev->next = entry->next;
        entry->next->prev = entry->prev;
    }
    return_elem''',
  new='''        entry->prev->next = entry->next;
    }
    return_elem''',
  needs='removing an element from the middle of a hash set and then the one after it, when that is the last',
  breaks='the set keeps a pointer to the freed entry as its last one; elements added later are lost',
  demo=BASE + r'''
#include "hashset.h"
int main(void) {
    HashSet *hs = hs_new_str(NULL); HashSetEntry *e; int n = 0; const char *want[3] = {"a", "d", "e"};
    hs_add(hs, "a"); hs_add(hs, "b"); hs_add(hs, "c");
    hs_del(hs, "b"); memset(malloc(sizeof(HashSetEntry)), 0, sizeof(HashSetEntry)); hs_del(hs, "c"); memset(malloc(sizeof(HashSetEntry)), 0, sizeof(HashSetEntry));
    hs_add(hs, "d"); hs_add(hs, "e");
    for (e = hs->first; e && n < 3; e = e->next) { CHECK(strcmp(e->elem, want[n]) == 0); n++; }
    CHECK(n == 3 && e == NULL && hs->size == 3);
    return 0;
}
'''),
 dict(id='p07-set-same-value', prop='P07', file='c/src/hash.c',
  old='''            self->free_key_i(he->key);
            if (he->value != value) {
                self->free_value_i(he->value);
            }
            ret_val = HASH_KEY_EQUAL;''',
  new='''            self->free_key_i(he->key);
            self->free_value_i(he->value);
            ret_val = HASH_KEY_EQUAL;''',
  needs='storing the value that is already there under an equal but not identical key',
  breaks='the value is released although it stays in the table',
  demo=BASE + r'''
static int freed;
static void fr(void *p) { freed++; }
int main(void) {
    Hash *h = h_new_str(NULL, &fr); char k1[] = "key", k2[] = "key", v[] = "v", w[] = "w";
    h_set(h, k1, v); h_set(h, k2, v); CHECK(freed == 0);
    h_set(h, k1, w); CHECK(freed == 1);
    CHECK(h_get(h, "key") == w);
    return 0;
}
'''),
]
