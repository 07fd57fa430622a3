/*VP{
"property":"P07",
"title":"looking up a key finds its entry past any collisions and tombstones; a missing key gets a free slot on its probe path; no other slot changes",
"functions":["h_lookup","h_lookup_ptr","h_resize_lookup"],
"variants":[{"name":"key","defs":["F=0"]},{"name":"int","defs":["F=1"]},{"name":"resize","defs":["F=2"]}],
"level":"bounded",
"bounded":{"K":8,"unwind":14,"complete":1}
}VP*/
/* bound: tables of eight slots, hashes below 1024 */
#define VP_WATCH_W 8
#include "env.h"
#include <stdio.h>
void frt_dummy_free(void *p) { }
void frt_strsort(char **s, int n) { }
#include "hash.c"
static HashEntry T[8], T0[8]; static int eqs[8]; static char kobj[9], key1; static unsigned long H;
static unsigned long hash(const void *k) { return H; }
/* eqs[i]: the key in slot i equals the key looked up */
static int eq(const void *a, const void *b) { int i = (int)((const char *)a - kobj); VP_ASSERT(b == &key1 && i >= 0 && i < 8, "only live keys are compared"); return eqs[i]; }
HARNESS
{
    Hash h; int i, w = -1, at, n, r, first = 0; HashEntry *e; unsigned long p; void *key = &key1; int same = vp_bool();
    H = (unsigned long)vp_range(0, 1023);
    h.mask = 7; h.table = T; h.hash_i = hash; h.eq_i = eq; h.lookup_i = NULL;
    if (F == 1) key = (void *)H;
    for (i = 0; i < 8; i++) {
        int s = (int)vp_range(0, 2);
        eqs[i] = 0; T[i].value = NULL; T[i].hash = (unsigned long)vp_range(0, 1023); T[i].key = NULL;
        if (s == 0) { first = 1; continue; }
        if (s == 1) { if (F == 2) T[i].key = &kobj[i]; else T[i].key = dummy_key; continue; }
        T[i].key = F == 1 ? dummy_int_key : &kobj[i]; T[i].value = &kobj[i];
        if (F == 1) { if (T[i].hash == H) { VP_ASSUME(w < 0); w = i; } }
        else if (F == 0 && w < 0 && vp_bool()) { w = i; T[i].hash = H; eqs[i] = 1; if (same) { T[i].key = &key1; } }
    }
    VP_ASSUME(first);                              /* the table always has a free slot */
    if (w >= 0) {                                  /* a live key can be reached */
        for (n = 0, p = H, at = H & 7; n < 12 && at != w; n++, p >>= PERTURB_SHIFT) {
            VP_ASSUME(T[at].key != NULL && (F != 1 || T[at].hash != H));
            at = (int)(((unsigned)at << 2) + at + p + 1) & 7;
        }
        VP_ASSUME(at == w);
    }
    for (i = 0; i < 8; i++) T0[i] = T[i];
    e = F == 0 ? h_lookup(&h, key) : F == 1 ? h_lookup_ptr(&h, key) : h_resize_lookup(&h, H);
    VP_REACH("found");
    r = -1;
    for (i = 0; i < 8; i++) {
        if (e == &T[i]) r = i;
        else VP_ASSERT(T[i].key == T0[i].key && T[i].hash == T0[i].hash && T[i].value == T0[i].value, "no other slot changes");
    }
    VP_ASSERT(r >= 0, "the entry is in the table");
    VP_ASSUME(r >= 0);
    VP_ASSERT(T[r].hash == H && T[r].key == T0[r].key && T[r].value == T0[r].value, "the entry carries the key's hash and is otherwise unchanged");
    if (w >= 0) VP_ASSERT(r == w, "a key that is in the table is found");
    else {
        VP_ASSERT(T[r].key == NULL || T[r].key == dummy_key, "a key that is not in the table gets a free slot");
        for (n = 0, p = H, at = H & 7; n < 12 && at != r; n++, p >>= PERTURB_SHIFT) {
            VP_ASSERT(T0[at].key != NULL && (F != 1 || T0[at].hash != H || T0[at].key == dummy_key), "the free slot can be reached");
            at = (int)(((unsigned)at << 2) + at + p + 1) & 7;
        }
        VP_ASSERT(at == r, "the free slot lies on the key's probe path");
    }
}
