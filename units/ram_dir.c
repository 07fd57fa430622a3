/*VP{
"property":"P03","also":["P20"],
"title":"a RAM directory is a map from file names to contents: from any state, create, open, remove, rename, touch, clear, list and lock operations change exactly the names they should",
"functions":["ram_touch","ram_exists","ram_remove","ram_rename","ram_count","ram_new_output","ram_open_input","ram_length","ram_clear","ram_clear_all","ram_clear_locks","ram_each","ramo_close_i","rami_close_i","rf_close","ram_lock_obtain","ram_lock_release","ram_lock_is_locked"],
"variants":[{"name":"create","defs":["OP=0"]},{"name":"remove","defs":["OP=2"]},{"name":"rename","defs":["OP=3"]},{"name":"touch","defs":["OP=4"]},{"name":"clear","defs":["OP=5"]},{"name":"open","defs":["OP=7"]},{"name":"lock","defs":["OP=8"]},{"name":"each","defs":["OP=9"]}],
"proof":{"unwind":15},
"assume":["the alternatives of the unions in store.h are laid side by side for the verifier","directory of four names (two plain, two locks); the hash table is taken by its map contract (P07)"]
}VP*/

#define VP_WATCH_W 8
#define VP_EXACT_MEM
#define VP_ESTRDUP
#include "env.h"
#include <sys/types.h>
#include <stdio.h>
#include <stdint.h>
#include "hash.h"
#include "hashset.h"
#include "threading.h"
#include "symbol.h"
#include <pthread.h>
#ifndef VP_NATIVE
#define union struct   /* CBMC loses pointers read directly out of a union; store.h never type-puns through one */
#include "store.h"
#undef union
#endif
#ifdef VP_NATIVE
#include "hash.c"
#else
#include "hash.h"
#endif
#undef PERTURB_SHIFT
#include "store.h"
#include "ram_store.c"
#include "store.c"
struct FrtHashSet *frt_hs_new_ptr(frt_free_ft f) { return NULL; }
void frt_hs_destroy(FrtHashSet *h) { }
void frt_register_for_cleanup(void *p, frt_free_ft f) { }
void frt_dummy_free(void *p) { }
#define NN 4
static const char *const names[NN] = { "a", "bb", "ferret-x.lck", "ferret-y.lck" };
static Store g_store; static Hash *g_ht; static int m_has[NN], m_len[NN], m_id[NN], nseen[NN], lastc;
static void seen(const char *fn, void *arg) { int i; for (i = 0; i < NN; i++) if (strcmp(fn, names[i]) == 0) { nseen[i]++; return; } VP_ASSERT(0, "only existing names are listed"); }
static void agree(Store *st)
{
    int i, n = 0;
#ifndef VP_NATIVE

    for (i = 0; i < NN; i++) if (g_ht->table[i].value) VP_ASSERT(strcmp((char *)g_ht->table[i].key, names[i]) == 0 && strcmp(((RAMFile *)g_ht->table[i].value)->name, names[i]) == 0, "a file is filed under its own name");
#endif
    for (i = 0; i < NN; i++) {
        VP_ASSERT(!st->exists(st, names[i]) == !m_has[i], "a file exists exactly when it was created and not removed since");
        VP_ASSERT(st->length(st, names[i]) == (m_has[i] ? m_len[i] : 0), "the length is the number of bytes written");
        n += m_has[i];
    }
    VP_ASSERT(st->count(st) == n, "the count is the number of files");
}
#ifndef VP_NATIVE
/* the map contract of the string hash: one slot per name */

static int g_idx(const void *key) { int i; for (i = 0; i < NN; i++) if (strcmp((const char *)key, names[i]) == 0) return i; VP_ASSERT(0, "only the caller's names are looked up"); return 0; }
void *frt_h_get(FrtHash *h, const void *key) { (void)h; return g_ht->table[g_idx(key)].value; }
FrtHashKeyStatus frt_h_set(FrtHash *h, const void *key, void *value)
{
    FrtHashEntry *e = &g_ht->table[g_idx(key)];
    if (e->value) { if (e->value != value) rf_close(e->value); } else g_ht->size++;
    e->key = (void *)key; e->value = value;
    return 0;
}
void *frt_h_rem(FrtHash *h, const void *key, bool destroy_key)
{
    FrtHashEntry *e = &g_ht->table[g_idx(key)]; void *v = e->value;
    if (v) { e->key = NULL; e->value = NULL; g_ht->size--; }
    return v;
}
int frt_h_del(FrtHash *h, const void *key) { void *v = frt_h_rem(h, key, 0); if (v) rf_close(v); return v != NULL; }
FrtHash *frt_h_new_str(frt_free_ft a, frt_free_ft b) { return NULL; }
void frt_h_destroy(FrtHash *h) { }
#endif
HARNESS
{
    Store *st; int k, i, j, op, steps, q; InStream *held = NULL; int held_len = 0; Lock *lk = NULL;
    for (i = 0; i < NN; i++) m_has[i] = m_len[i] = 0;
#ifdef VP_NATIVE
    st = open_ram_store();
    steps = (int)vp_range(1, 40);
#else
    steps = 1;
    st = &g_store; st->exists = ram_exists; st->length = ram_length; st->count = ram_count; g_ht = VP_NEW(Hash); g_ht->table = VP_NEW_N(HashEntry, NN); g_ht->mask = NN - 1; g_ht->size = 0; st->dir.ht = g_ht;
    for (i = 0; i < NN; i++) {       /* any state of the directory */
        g_ht->table[i].key = NULL; g_ht->table[i].value = NULL;
        if (vp_bool()) {
            RAMFile *rf = rf_new(names[i]);
            rf->len = m_len[i] = (int)vp_range(0, 5); rf->ref_cnt = (int)vp_range(1, 3);
            m_has[i] = 1; m_id[i] = -1;
            g_ht->table[i].key = rf->name; g_ht->table[i].value = rf; g_ht->size++;
        }
    }
#endif
    for (k = 0; k < steps; k++) {
        char *nm; int len; RAMFile *rf0;
#ifdef VP_NATIVE
        op = (int)vp_range(0, 9);
#else
        op = OP;
#endif
        i = (int)vp_range(0, NN - 1); j = (int)vp_range(0, NN - 1);
        nm = frt_estrdup(names[i]);      /* the caller's copy of the name dies after the call */
        rf0 = (RAMFile *)h_get(st->dir.ht, names[i]);
        switch (op) {
        case 0: case 1: {
            OutStream *os = ram_new_output(st, nm);
            if (!m_has[i]) { m_has[i] = 1; m_len[i] = 0; m_id[i] = k; }
            VP_ASSERT(os->pointer == 0 && os->file.rf == h_get(st->dir.ht, names[i]) && os->m == &RAM_OUT_STREAM_METHODS, "writing starts at the beginning of the named file");
            VP_ASSERT(rf0 == NULL || os->file.rf == rf0, "an existing file is opened, not replaced");
#ifdef VP_NATIVE
            len = (int)vp_range(0, 3); if (vp_bool()) len = (int)vp_range(0, 3000);
            for (q = 0; q < len; q++) os_write_byte(os, (uchar)(q + k));
            os_close(os);
            if (len >= m_len[i]) { m_len[i] = len; m_id[i] = k; } else m_id[i] = -1;   /* no truncation of a longer old file */
#else
            VP_ASSERT(os->file.rf->ref_cnt >= 2, "the stream holds a reference of its own");
            ramo_close_i(os);
#endif
            break; }
        case 2: VP_ASSERT(!ram_remove(st, nm) == !m_has[i], "remove reports whether the file existed"); m_has[i] = 0; m_len[i] = 0; break;
        case 3: if (m_has[i]) { ram_rename(st, nm, names[j]); if (i != j) { m_has[j] = 1; m_len[j] = m_len[i]; m_id[j] = m_id[i]; m_has[i] = 0; m_len[i] = 0; } 
                VP_ASSERT(h_get(st->dir.ht, names[j]) == rf0, "the renamed file keeps its contents"); } break;
        case 4: ram_touch(st, nm); if (!m_has[i]) { m_has[i] = 1; m_len[i] = 0; m_id[i] = 0; } break;
        case 5: { int c = (int)vp_range(0, 2);
#ifdef VP_NATIVE
                if (vp_bool()) break;
#endif
                if (c == 0) { ram_clear(st); for (q = 0; q < 2; q++) m_has[q] = m_len[q] = 0; }
                if (c == 1) { ram_clear_locks(st); for (q = 2; q < NN; q++) m_has[q] = m_len[q] = 0; }
                if (c == 2) { ram_clear_all(st); for (q = 0; q < NN; q++) m_has[q] = m_len[q] = 0; } break; }
        case 6: case 7:
                if (m_has[i]) { InStream *is = ram_open_input(st, nm); VP_ASSERT(is->m->length_i(is) == m_len[i], "an opened file has the length written");
                VP_ASSERT(is->file.rf == rf0 && is->d.pointer == 0 && is->buf.start == 0 && is->buf.pos == 0 && is->buf.len == 0, "reading starts at the beginning of the named file");
#ifdef VP_NATIVE
                if (op == 6 && !held) { held = is; held_len = m_len[i]; break; }
                if (m_id[i] >= 0) for (q = 0; q < m_len[i]; q++) VP_ASSERT(is_read_byte(is) == (uchar)(q + m_id[i]), "an opened file has the bytes written");
                is_close(is);
#else
                ram_remove(st, names[i]); m_has[i] = 0; m_len[i] = 0;
                VP_ASSERT(is->m->length_i(is) >= 0 && is->file.rf->buffers[0] != NULL, "an open file outlives its removal");
                rami_close_i(is);
#endif
                }
#ifndef VP_NATIVE
                else { vp_raise_ok = 1; ram_open_input(st, nm); VP_ASSERT(0, "opening a missing file raises"); }
#endif
                break;
        case 8: { int had; lk = VP_NEW(Lock); lk->store = st; lk->name = frt_estrdup(names[2]);
                had = m_has[2];
                VP_ASSERT(!ram_lock_is_locked(lk) == !had, "a lock is held exactly while its file exists");
                VP_ASSERT(!ram_lock_obtain(lk) == !!had, "a lock is obtained exactly when nobody holds it");
                VP_ASSERT(ram_lock_is_locked(lk), "an obtained lock is held");
                if (!m_has[2]) { m_has[2] = 1; m_len[2] = 0; m_id[2] = 0; }
                if (!had && vp_bool()) { ram_lock_release(lk); m_has[2] = 0; m_len[2] = 0; }
                free(lk->name); free(lk); break; }
        default: for (q = 0; q < NN; q++) nseen[q] = 0;
                 ram_each(st, seen, NULL);
                 for (q = 0; q < NN; q++) VP_ASSERT(nseen[q] == (q < 2 && m_has[q]), "every file that is not a lock is listed once");
        }
        free(nm);
        agree(st);
    }
    VP_REACH("done");
#ifdef VP_NATIVE
    if (held) {       /* a removed file stays readable for streams that have it open */
        if (vp_bool()) { st->close_i(st); st = NULL; }
        VP_ASSERT(is_length(held) >= held_len, "an open file keeps its contents");
        is_close(held);
    }
    if (st) st->close_i(st);
#endif
}
