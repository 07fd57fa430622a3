/*VP{
"property":"P07",
"title":"set, get, delete, remove and has_key on top of a lookup: they touch exactly the key's entry, release what they replace once, and keep the counts",
"functions":["h_get","h_set","h_set_safe","h_set_ext","h_del","h_rem","h_has_key","h_set_int","h_set_safe_int","h_get_int","h_del_int","h_rem_int","h_has_key_int"],
"variants":[{"name":"key","defs":["INTK=0"]},{"name":"int","defs":["INTK=1"]}],
"replace":["h_resize:vp_h_resize"],
"proof":{"unwind":3},
"assume":["lookups by the contract of unit hash_lookup, resizing by the contract of unit hash_resize"]
}VP*/
#define VP_WATCH_W 8
#include "env.h"
#include <stdio.h>
void frt_dummy_free(void *p) { }
void frt_strsort(char **s, int n) { }
#include "hash.c"
static HashEntry slot, slot2, other; static char key1, key2; static int dk, dv, resized, looked; static void *rk, *rv;
static void fk(void *k) { dk++; rk = k; }
static void fv(void *v) { dv++; rv = v; }
static HashEntry *lookup(Hash *h, const void *key) { looked++; VP_ASSERT(key == (INTK ? (void *)77ul : &key1), "the key itself is looked up"); return resized ? &slot2 : &slot; }
int vp_h_resize(Hash *self, int min)
{
    VP_ASSERT(min >= self->size, "the new table is large enough");
    resized = 1; self->fill = self->size; self->mask = (int)vp_range(7, 1 << 28); VP_ASSUME(self->mask >= min - 1);
    slot2.key = NULL; slot2.value = NULL;       /* a key that was not there gets an empty slot in the rebuilt table */
    return 0;
}
HARNESS
{
    Hash h, h0; int kind = (int)vp_range(0, 3), op = (int)vp_range(0, 6), r; void *k = INTK ? (void *)77ul : (void *)&key1, *x; char va, vb, *old = &va, *nv = vp_bool() ? &va : &vb; HashEntry *e;
    void *oldkey; int live;
    dk = dv = resized = looked = 0; rk = rv = NULL;
    h.lookup_i = lookup; h.free_key_i = fk; h.free_value_i = fv; h.mask = (int)vp_range(7, 1 << 28); h.fill = (int)vp_range(0, 1 << 28); h.size = (int)vp_range(0, 1 << 28); h.table = NULL;
    VP_ASSUME(h.size <= h.fill && h.fill <= h.mask);
    slot.key = kind == 0 ? NULL : kind == 1 ? (void *)dummy_key : INTK ? (void *)dummy_int_key : kind == 2 ? (void *)&key1 : (void *)&key2;
    oldkey = slot.key; live = kind >= 2;
    slot.value = live ? old : NULL; slot.hash = 5;
    VP_ASSUME(!live || h.size > 0); VP_ASSUME(kind == 0 || h.fill > 0); VP_ASSUME(kind != 1 || h.size < h.fill);
#ifdef VP_NATIVE
    VP_ASSUME(!(kind == 0 && (op == 1 || op == 2) && h.fill * 3 > h.mask * 2));
#endif
    h0 = h;
    switch (op) {
    case 0: x = INTK ? h_get_int(&h, 77) : h_get(&h, k); VP_ASSERT(x == (live ? old : NULL), "get returns the stored value or nothing"); break;
    case 1: r = INTK ? h_set_int(&h, 77, nv) : h_set(&h, k, nv);
        e = resized ? &slot2 : &slot;
        VP_ASSERT(e->value == nv && e->key == (INTK ? (void *)dummy_int_key : k), "the value is stored under the key");
        VP_ASSERT((r == HASH_KEY_DOES_NOT_EXIST) == !live && (INTK || kind != 2 || r == HASH_KEY_SAME) && (INTK || kind != 3 || r == HASH_KEY_EQUAL), "set reports whether the key was new");
        VP_ASSERT(dv == (live && nv != old) && (!dv || rv == old), "a value that is replaced is released once");
        VP_ASSERT(dk == (!INTK && kind == 3) && (!dk || rk == oldkey), "an equal key that is replaced is released once");
        VP_ASSERT(h.size == h0.size + !live, "the size counts the keys"); break;
    case 2: r = INTK ? h_set_safe_int(&h, 77, nv) : h_set_safe(&h, k, nv);
        e = resized ? &slot2 : &slot;
        VP_ASSERT(!!r == !live && dk == 0 && dv == 0, "a safe set never replaces");
        VP_ASSERT(live ? e->value == old && e->key == oldkey : e->value == nv && e->key == (INTK ? (void *)dummy_int_key : k), "a safe set stores only a new key");
        VP_ASSERT(h.size == h0.size + !live, "the size counts the keys"); break;
    case 3: r = INTK ? h_del_int(&h, 77) : h_del(&h, k);
        VP_ASSERT(!!r == live && dv == live && dk == live && (!live || (rv == old && rk == oldkey)), "delete reports whether the key was there and releases it");
        VP_ASSERT(h.size == h0.size - live && (!live || (slot.key == dummy_key && slot.value == NULL)), "a deleted key leaves a tombstone"); break;
    case 4: { int destroy = INTK ? 0 : vp_bool(); x = INTK ? h_rem_int(&h, 77) : h_rem(&h, k, destroy);
        VP_ASSERT(x == (live ? old : NULL) && dv == 0 && dk == (live && destroy), "remove returns the value and releases only the key, when asked");
        VP_ASSERT(h.size == h0.size - live && (!live || (slot.key == dummy_key && slot.value == NULL)), "a removed key leaves a tombstone"); break; }
    default: r = INTK ? h_has_key_int(&h, 77) : h_has_key(&h, k);
        VP_ASSERT((r == HASH_KEY_DOES_NOT_EXIST) == !live && (INTK || kind != 2 || r == HASH_KEY_SAME) && (INTK || kind != 3 || r == HASH_KEY_EQUAL), "has_key reports whether and how the key is there");
    }
    VP_REACH("done");
    if (op != 1 && op != 2) VP_ASSERT(h.fill == h0.fill && h.mask == h0.mask, "lookups and removals do not change the table's shape");
    else {
        VP_ASSERT(resized || h.fill == h0.fill + (kind == 0), "the fill counts used slots, tombstones included");
        VP_ASSERT(!resized || h.fill == h0.size + 1, "after a rebuild the fill counts live keys");
        VP_ASSERT(h.fill <= h.mask, "the table always keeps a free slot");
    }
}
