/*VP{
"property":"P07",
"title":"rebuilding a table keeps every key findable with its value; visiting and clearing see every key once",
"functions":["h_resize","h_each","h_clear","h_new","h_destroy"],
"variants":[{"name":"rebuild","defs":["F=0","NEWMIN=8"],"bounded":{"K":3,"unwind":18,"timeout":300,"args":["--unwindset","vp_memset.1:50"],"replace":["h_resize_lookup:vp_resize_lookup"]}},{"name":"grow","defs":["F=0","NEWMIN=9"],"bounded":{"K":2,"unwind":18,"timeout":300,"args":["--unwindset","vp_memset.1:50"],"replace":["h_resize_lookup:vp_resize_lookup"]}},{"name":"each","defs":["F=1"]},{"name":"clear","defs":["F=2"]}],
"assume":["the slot for a hash in the new table by the contract of unit hash_lookup-resize"],
"level":"bounded",
"bounded":{"K":3,"unwind":18,"timeout":300,"args":["--unwindset","vp_memset.1:50"]}
}VP*/
/* bound: tables of eight slots holding at most K live keys, tombstones anywhere, hashes below 64 */
#define VP_WATCH_W 8
#include "env.h"
#include <stdio.h>
void frt_dummy_free(void *p) { }
void frt_strsort(char **s, int n) { }
#include "hash.c"
static char ko[VP_K + 1], vo[VP_K + 1]; static unsigned long hv[VP_K]; static int w, nk, nv, ns, bad;
static unsigned long hash(const void *k) { return hv[(const char *)k - ko]; }
static int eq(const void *a, const void *b) { return a == b; }
static void fk(void *k) { if (k == &ko[w]) nk++; }
static void fv(void *v) { if (v == &vo[w]) nv++; }
static void each(void *k, void *v, void *arg) { if (k == &ko[w]) { ns++; if (v != &vo[w]) bad = 1; } }
/* contract of h_resize_lookup: a free slot, marked with the hash */
HashEntry *vp_resize_lookup(Hash *self, register const unsigned long h)
{
    int at = (int)vp_range(0, 15);
    VP_ASSUME(at <= self->mask && self->table[at].key == NULL);
    self->table[at].hash = h;
    return &self->table[at];
}
#ifdef VP_NATIVE
static int probe(Hash *h, int c)   /* the slot of key c, by the definition of the probe sequence */
{
    unsigned long p = hv[c]; int at = hv[c] & h->mask, n;
    for (n = 0; n < 17; n++, p >>= PERTURB_SHIFT) {
        if (h->table[at].key == NULL) return -1;
        if (h->table[at].key == &ko[c]) return at;
        at = (int)(((unsigned)at << 2) + at + p + 1) & h->mask;
    }
    return -1;
}
#else
static int probe(Hash *h, int c)   /* the slot of key c, wherever the lookup put it */
{
    int i, r = -1;
    for (i = 0; i <= h->mask; i++) if (h->table[i].key == &ko[c]) { VP_ASSERT(r < 0, "no key appears twice"); r = i; }
    return r;
}
#endif
#ifndef NEWMIN
#define NEWMIN 8
#endif
HARNESS
{
    Hash *h, *g; int i, c, live[VP_K], at, min;
    num_free_hts = 0;
    h = h_new(hash, eq, fk, fv); nk = nv = ns = bad = 0;
    for (c = 0; c < VP_K; c++) { live[c] = 0; hv[c] = (unsigned long)vp_range(0, 63); }
    for (i = 0; i < 8; i++) {
        int s = (int)vp_range(0, VP_K + 1);
        if (s == 0) continue;
        h->fill++;
        if (s == 1) { h->table[i].key = dummy_key; h->table[i].hash = 3; continue; }
        c = s - 2; VP_ASSUME(!live[c]); live[c] = 1; h->size++; h->table[i].key = &ko[c]; h->table[i].value = &vo[c]; h->table[i].hash = hv[c];
    }
    VP_ASSUME(h->fill <= 6);
    w = (int)vp_range(0, VP_K - 1);
    if (F == 0) {
        min = NEWMIN;
        h_resize(h, min);
        VP_ASSERT(h->mask + 1 >= min && (h->mask == 7 || h->mask == 15) && h->fill == h->size, "the new table is a power of two, large enough, without tombstones");
        at = probe(h, w);
        VP_ASSERT((at >= 0) == live[w] && (at < 0 || (h->table[at].value == &vo[w] && h->table[at].hash == hv[w])), "every key is found again with its value");
        VP_ASSERT(nk == 0 && nv == 0, "nothing is released");
    }
    if (F == 1) { h_each(h, each, NULL); VP_ASSERT(ns == live[w] && !bad, "every key is visited exactly once with its value"); }
    if (F == 2) { h_clear(h); VP_ASSERT(nk == live[w] && nv == live[w] && h->size == 0 && h->fill == 0, "clear releases every key and value once");
        at = (int)vp_range(0, 7); VP_ASSERT(h->table[at].key == NULL && h->table[at].value == NULL, "and empties every slot"); }
    VP_REACH("done");
}
