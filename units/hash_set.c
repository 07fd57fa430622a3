/*VP{
"property":"P07",
"title":"adding to and removing from a set keep insertion order, links, size and ownership right",
"functions":["hs_add","hs_add_safe","hs_rem","hs_del","hs_exists","hs_orig","append"],
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":4},
"assume":["the map under the set behaves as a map (units hash_api, hash_lookup, hash_resize)"]
}VP*/
/* the list is arbitrary: the entry touched, its neighbours, the first and the last entry are explicit, whatever lies between is never read */
#include "env.h"
#include "hashset.h"
#include "internal.h"
static char e1, e2; static HashSetEntry *cur; static void *curkey; static int setn, deln, fn; static void *fe; static void *probe;
void frt_dummy_free(void *p) { }
HashKeyStatus frt_h_has_key(Hash *h, const void *k) { VP_ASSERT(k == probe, "the element itself is looked up"); return !cur ? HASH_KEY_DOES_NOT_EXIST : curkey == k ? HASH_KEY_SAME : HASH_KEY_EQUAL; }
void *frt_h_get(Hash *h, const void *k) { VP_ASSERT(k == probe, "the element itself is looked up"); return cur; }
HashKeyStatus frt_h_set(Hash *h, const void *k, void *v) { setn++; VP_ASSERT(k == probe && !cur, "a new element is entered under itself"); cur = v; curkey = (void *)k; return HASH_KEY_DOES_NOT_EXIST; }
int frt_h_del(Hash *h, const void *k) { deln++; VP_ASSERT(cur && (k == curkey || k == probe), "the element is taken out of the map"); cur = NULL; return 1; }
Hash *frt_h_new(hash_ft h, eq_ft e, free_ft k, free_ft v) { return NULL; }
Hash *frt_h_new_str(free_ft k, free_ft v) { return NULL; }
Hash *frt_h_new_ptr(free_ft v) { return NULL; }
void frt_h_clear(Hash *h) { }
void frt_h_destroy(Hash *h) { }
#include "hashset.c"
static void fr(void *e) { fn++; fe = e; }
static HashSetEntry *mk(void *e) { HashSetEntry *x = VP_NEW(HashSetEntry); x->elem = e; x->next = x->prev = NULL; return x; }
HARNESS
{
    HashSet hs; int op = (int)vp_range(0, 5), live = vp_bool(), same = vp_bool(), before = (int)vp_range(0, 2), after = (int)vp_range(0, 2), r; void *x;
    HashSetEntry *first = NULL, *prev = NULL, *me = NULL, *next = NULL, *last = NULL, *l0; static char far1, far2;
    setn = deln = fn = 0; fe = NULL; probe = &e1; cur = NULL; curkey = NULL;
    /* before/after: 0 none, 1 one entry, 2 several (first .. prev / next .. last) */
    if (before) { prev = mk(&far1); first = prev; }
    if (before == 2) first = mk(&far1);                    /* first and prev are different entries; what links them is never touched */
    if (before == 2) { first->next = vp_bool() ? prev : mk(&far1); first->next->prev = first; if (first->next == prev) prev->prev = first; else { prev->prev = first->next; first->next->next = prev; } }
    if (live) { me = mk(same ? &e1 : &e2); curkey = me->elem; cur = me; me->prev = prev; if (prev) prev->next = me; else first = me; }
    l0 = me ? me : prev;
    if (after && live) { next = mk(&far2); next->prev = me; me->next = next; last = next; }
    else last = l0;
    if (after == 2 && live) { last = mk(&far2); last->prev = vp_bool() ? next : mk(&far2); if (last->prev == next) next->next = last; else { last->prev->next = last; last->prev->prev = next; next->next = last->prev; } }
    hs.first = first; hs.last = last; hs.ht = NULL; hs.free_elem_i = fr;
    hs.size = (int)vp_range(0, 1 << 30);
    VP_ASSUME(hs.size >= (first != NULL) && (hs.size <= 1) == (first == last) && (hs.size == 0) == (first == NULL));
    r = hs.size;
    switch (op) {
    case 0: case 1: {
        int res = op == 0 ? (int)hs_add(&hs, &e1) : hs_add_safe(&hs, &e1);
        if (op == 0) VP_ASSERT(res == (!live ? HASH_KEY_DOES_NOT_EXIST : same ? HASH_KEY_SAME : HASH_KEY_EQUAL), "add reports whether the element was there");
        else VP_ASSERT(!!res == (!live || same), "a safe add fails exactly when another equal element is there");
        VP_ASSERT(fn == (op == 0 && live && !same) && (!fn || fe == &e1), "an equal element that is not kept is released once, the kept one never");
        if (live) VP_ASSERT(hs.first == first && hs.last == last && hs.size == r && setn == 0, "a set keeps one of equal elements");
        else {
            VP_ASSERT(hs.size == r + 1 && setn == 1 && cur != NULL && hs.last == cur && cur->elem == &e1 && cur->next == NULL && cur->prev == last, "a new element goes to the end of the set");
            VP_ASSERT(last ? hs.first == first && last->next == cur : hs.first == cur, "and is linked to what was there");
        }
        break; }
    case 2: case 3: {
        void *el = live ? me->elem : NULL;
        if (op == 2) { x = hs_rem(&hs, &e1); VP_ASSERT(x == el && fn == 0, "remove returns the element that was in the set and does not release it"); }
        else { int d = hs_del(&hs, &e1); VP_ASSERT(!!d == live && fn == live && (!fn || fe == el), "delete releases the element that was in the set once"); }
        VP_ASSERT(hs.size == r - live && deln == live, "the element leaves the map and the count");
        VP_ASSERT(hs.first == (first == me && live ? next : first) && hs.last == (last == me && live ? prev : last), "first and last stay right");
        if (live) { VP_ASSERT(!prev || prev->next == next, "the element before is linked to the one after"); VP_ASSERT(!next || next->prev == prev, "the element after is linked to the one before"); }
        break; }
    case 4: VP_ASSERT(hs_exists(&hs, &e1) == (!live ? HASH_KEY_DOES_NOT_EXIST : same ? HASH_KEY_SAME : HASH_KEY_EQUAL), "exists reports whether the element is there"); break;
    default: x = hs_orig(&hs, &e1); VP_ASSERT(x == (live ? me->elem : NULL), "the original element is returned");
    }
    VP_REACH("done");
}
