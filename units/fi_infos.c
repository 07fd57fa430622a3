/*VP{
"property":"P21",
"title":"field definitions: the flags of a field are what was asked for, fields are numbered in the order they are added, and a saved list reads back the same",
"functions":["fi_new","fi_set_store","fi_set_index","fi_set_term_vector","fi_check_params","fis_new","fis_add_field","fis_get_field","fis_get_field_num","fis_get_or_add_field","fis_by_number","fis_write","fis_read","fi_deref"],
"variants":[{"name":"flags","defs":["OP=0"],"prune":{"src/index.c":["&","fi_new","fis_new"]}},
{"name":"add","defs":["OP=1"],"prune":{"src/index.c":["&","fis_add_field","fis_get_field","fis_get_field_num","fis_get_or_add_field","fis_by_number"]}},
{"name":"io","defs":["OP=2"],"prune":{"src/index.c":["&","fis_write","fis_read"]},"limit":"at most 3 fields","proof":{"unwind":5}}],
"proof":{"unwind":3},
"bounded":{"K":3,"unwind":6},
"assume":["the dictionary of fields is a map (P07); a segments file reads back the values written to it, in order (P01, P02)"]
}VP*/
#define VP_FREE_PTR
#define VP_WATCH_W 8
#include "env.h"
#include "index.h"
#include "internal.h"
#include "token_common.h"
#include "index.c"
static Hash DICT; static const void *d_key; static void *d_val; static int d_set, d_exists; static free_ft d_free;
Hash *frt_h_new_int(free_ft f) { d_free = f; return &DICT; }
void *frt_h_get(Hash *h, const void *k) { VP_ASSERT(h == &DICT, "the dictionary of the list"); return d_set && k == d_key ? d_val : NULL; }
#if OP < 2
int frt_h_set_safe(Hash *h, const void *k, void *v) { VP_ASSERT(h == &DICT && (!d_set || k != d_key || d_exists), "the dictionary of the list"); if (d_set && k == d_key) return 0; d_set = 1; d_key = k; d_val = v; return 1; }
#else
static int n_set; int frt_h_set_safe(Hash *h, const void *k, void *v) { VP_ASSERT(h == &DICT && ((FieldInfo *)v)->name == k, "filed under its name"); n_set++; return 1; }
static char NM[4];
#endif
void frt_os_write_vint(OutStream *os, register unsigned int v) { tk_put(K_VINT, v); }
void frt_os_write_u32(OutStream *os, u32 v) { tk_put(K_U32, v); }
void frt_os_write_string(OutStream *os, const char *s) { tk_put(K_STR, (u64)s); }
unsigned int frt_is_read_vint(InStream *is) { return (unsigned)tk_get(K_VINT, OP == 2 && tk_r < 3 ? (u64)(tk_r == 1) : vp_u32()); } /* the defaults must form an allowed combination */
u32 frt_is_read_u32(InStream *is) { return (u32)tk_get(K_U32, vp_u32()); }
char *frt_is_read_string_safe(InStream *is) { return (char *)tk_get(K_STR, (u64)&DICT); }
Symbol frt_intern_and_free(char *s) { return (Symbol)s; }
static const int IV[5] = { INDEX_NO, INDEX_UNTOKENIZED, INDEX_YES, INDEX_UNTOKENIZED_OMIT_NORMS, INDEX_YES_OMIT_NORMS };
static const int TV[5] = { TERM_VECTOR_NO, TERM_VECTOR_YES, TERM_VECTOR_WITH_POSITIONS, TERM_VECTOR_WITH_OFFSETS, TERM_VECTOR_WITH_POSITIONS_OFFSETS };
static void flags(FieldInfo *f, int st, int ix, int tv)
{
    VP_ASSERT(!fi_is_stored(f) == (st == STORE_NO), "stored exactly when asked for"); VP_ASSERT(!fi_is_compressed(f) == (st != STORE_COMPRESS), "compressed exactly when asked for");
    VP_ASSERT(!fi_is_indexed(f) == (ix == INDEX_NO), "indexed exactly when asked for"); VP_ASSERT(!fi_is_tokenized(f) == (ix != INDEX_YES && ix != INDEX_YES_OMIT_NORMS), "tokenized exactly when asked for");
    VP_ASSERT(!fi_omit_norms(f) == (ix != INDEX_YES_OMIT_NORMS && ix != INDEX_UNTOKENIZED_OMIT_NORMS), "norms are omitted exactly when asked for"); VP_ASSERT(!fi_has_norms(f) == !(ix == INDEX_YES || ix == INDEX_UNTOKENIZED), "an indexed field has norms unless they are omitted");
    VP_ASSERT(!fi_store_term_vector(f) == (tv == TERM_VECTOR_NO), "term vectors exactly when asked for"); VP_ASSERT(!fi_store_positions(f) == (tv != TERM_VECTOR_WITH_POSITIONS && tv != TERM_VECTOR_WITH_POSITIONS_OFFSETS), "positions exactly when asked for");
    VP_ASSERT(!fi_store_offsets(f) == (tv != TERM_VECTOR_WITH_OFFSETS && tv != TERM_VECTOR_WITH_POSITIONS_OFFSETS), "offsets exactly when asked for");
}
HARNESS
{
    int st = (int)vp_range(0, 2), ix = IV[vp_range(0, 4)], tv = TV[vp_range(0, 4)]; Symbol nm = (Symbol)&DICT;
    d_set = 0; d_exists = 0; vp_raise_ok = 0; tk_init();
#if OP == 0
    vp_raise_ok = ix == INDEX_NO && tv != TERM_VECTOR_NO;
    if (vp_bool()) { FieldInfo *f = fi_new(nm, st, ix, tv); flags(f, st, ix, tv); VP_ASSERT(f->name == nm && f->boost == 1.0f && f->ref_cnt == 1, "a new field"); }
    else { FieldInfos *fs = fis_new(st, ix, tv); VP_ASSERT(fs->store == st && fs->index == ix && fs->term_vector == tv && fs->size == 0 && fs->capa > 0 && fs->ref_cnt == 1 && fs->field_dict == &DICT && d_free == (free_ft)&fi_deref, "an empty list with its defaults"); fs->fields[fs->capa - 1] = NULL; }
    VP_ASSERT(!(ix == INDEX_NO && tv != TERM_VECTOR_NO), "term vectors of an unindexed field are refused");
#elif OP == 1
    FieldInfos fs; FieldInfo other, add, *r; int n = (int)vp_range(0, VP_SZ(1 << 20, 6)), ca, w = (int)vp_range(0, VP_SZ(1 << 20, 6)), op = (int)vp_range(0, 4), has = vp_bool(), k; FieldInfo *e = NULL;
    VP_ASSUME(tv == TERM_VECTOR_NO || ix != INDEX_NO); VP_ASSUME(w < n || n == 0);
    ca = n > 1 && vp_bool() ? n : n + 2; fs.fields = (FieldInfo **)malloc(sizeof(FieldInfo *) * (size_t)ca); fs.capa = ca; fs.size = n; fs.field_dict = &DICT; fs.store = st; fs.index = ix; fs.term_vector = tv; fs.ref_cnt = 1;
    if (n) { other.number = w; other.name = nm; fs.fields[w] = &other; e = &other; } vp_watch(w);
    add.name = nm; add.ref_cnt = 1; add.number = -7;
    if (n && has) { d_set = 1; d_key = nm; d_val = &other; } else has = 0;
    switch (op) {
    case 0: vp_raise_ok = has; d_exists = 1; r = fis_add_field(&fs, &add); VP_ASSERT(!has, "a name is not added twice"); VP_ASSERT(r == &add && add.number == n && fs.size == n + 1 && fs.fields[n] == &add && d_val == &add && d_key == nm && fs.capa > n, "the field gets the next number and is found under its name"); break;
    case 1: r = fis_get_or_add_field(&fs, nm); if (has) VP_ASSERT(r == &other && fs.size == n, "an existing field is returned"); else { VP_ASSERT(r->number == n && fs.size == n + 1 && fs.fields[n] == r && r->name == nm && d_val == r, "a new field is added"); flags(r, st, ix, tv); } break;
    case 2: VP_ASSERT(fis_get_field(&fs, nm) == (has ? &other : NULL) && fs.size == n, "found exactly when it is there"); break;
    case 3: VP_ASSERT(fis_get_field_num(&fs, nm) == (has ? w : -1) && fs.size == n, "its number, or -1"); break;
    default: k = (int)vp_range(0, 1 << 22) - 5; VP_ASSUME(k < 0 || k >= n || k == w); VP_ASSERT(fis_by_number(&fs, k) == (n && k == w ? &other : NULL) && fs.size == n, "the field with that number, or none"); break;
    }
    if (n) VP_ASSERT(fs.fields[w] == e && e->number == w, "the other fields keep their numbers");
#else
    FieldInfos fs, *r; FieldInfo f[3], *fp[3]; int n = (int)vp_range(0, 3), i, w = (int)vp_range(0, 2); u32 b[3];
    VP_ASSUME(tv == TERM_VECTOR_NO || ix != INDEX_NO);
    for (i = 0; i < 3; i++) { union { u32 i; float f; } t; t.i = b[i] = vp_u32(); VP_ASSUME((t.i & 0x7f800000) != 0x7f800000); f[i].name = (Symbol)&NM[i]; f[i].boost = t.f; f[i].bits = vp_u32() & 0xff; f[i].number = i; fp[i] = &f[i]; }
    fs.fields = fp; fs.size = n; fs.capa = 3; fs.store = st; fs.index = ix; fs.term_vector = tv; G_T = (long)vp_range(0, 13); VP_ASSUME(G_T != 1 || ix != INDEX_NO || tv == TERM_VECTOR_NO); G_S = 3; n_set = 0;
    fis_write(&fs, NULL); VP_ASSERT(tk_w == 4 + 3 * n, "all values are written"); VP_ASSUME(G_T < tk_w);
    r = fis_read(NULL);
    VP_ASSERT(tk_r == tk_w && r->size == n && n_set == n && r->ref_cnt == 1, "all of it is read back");
    if (G_T == 0) VP_ASSERT(r->store == st, "default of stored"); if (G_T == 1) VP_ASSERT(r->index == ix, "default of indexed"); if (G_T == 2) VP_ASSERT(r->term_vector == tv, "default of term vectors");
    if (w < n) { FieldInfo *g = r->fields[w]; union { u32 i; float f; } t; VP_ASSERT(g->number == w && g->ref_cnt == 1, "in order"); t.f = g->boost;
        if (G_T == 4 + 3 * w) VP_ASSERT(g->name == f[w].name, "name"); if (G_T == 5 + 3 * w) VP_ASSERT(t.i == b[w], "boost"); if (G_T == 6 + 3 * w) VP_ASSERT(g->bits == f[w].bits, "flags"); }
#endif
    VP_REACH("done");
}
