/*VP{
"property":"P10",
"title":"the field list and the index entries are read as they were written",
"functions":["sfi_open","sti_ensure_index_is_read","te_get_term","tir_open"],
"variants":[{"name":"fields","defs":["OP=0"],"prune":{"src/index.c":["&","sfi_open","tir_open"]},"limit":"at most 3 fields","replace":["frt_ste_new:vp_new"]},
{"name":"index","defs":["OP=1"],"prune":{"src/index.c":["&","sti_ensure_index_is_read"]},"limit":"at most 3 index entries","replace":["ste_next:vp_next","ste_reset:vp_reset"]}],
"proof":{"unwind":10},
"bounded":{"K":3,"unwind":10}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include "index.h"
#include "internal.h"
#ifndef VP_NATIVE
int sprintf(char *o, const char *f, ...) { int k; __builtin_va_list ap; const char *s; __builtin_va_start(ap, f); s = __builtin_va_arg(ap, const char *); VP_ASSERT(f[0] == '%' && f[1] == 's', "a name"); for (k = 0; k < 2; k++) o[k] = s[k]; for (k = 2; k < 6 && f[k]; k++) o[k] = f[k]; o[k] = 0; __builtin_va_end(ap); return k; }
#endif
#include "index.c"
#if OP == 0
static char I1, I2, I3, HD; static struct { int f, ic, sz; off_t ip, p; } X[3]; static int n, iv, sk, step, got, closed, mask; static SegmentTermEnum TEe, TEi;
static InStream *st_open(Store *s, const char *nm) { VP_ASSERT(nm[0] == '_' && nm[1] == 'a' && nm[2] == '.' && nm[3] == 't', "a dictionary file of the segment"); return (InStream *)(nm[4] == 'f' && nm[5] == 'x' ? &I1 : nm[4] == 'i' && nm[5] == 'x' ? &I2 : &I3); }
u32 frt_is_read_u32(InStream *is) { VP_ASSERT(is == (InStream *)&I1 && step == 0, "the number of fields"); step = 1; return (u32)n; }
unsigned int frt_is_read_vint(InStream *is)
{
    int k = (step - 3) / 5, o = (step - 3) % 5; VP_ASSERT(is == (InStream *)&I1 && step > 0, "the field list"); step++;
    if (step == 2) return (unsigned)iv; if (step == 3) return (unsigned)sk; VP_ASSERT(k < n && (o == 0 || o == 3 || o == 4), "the numbers in the order they are written"); return (unsigned)(o == 0 ? X[k].f : o == 3 ? X[k].ic : X[k].sz);
}
off_t frt_is_read_voff_t(InStream *is) { int k = (step - 3) / 5, o = (step - 3) % 5; VP_ASSERT(is == (InStream *)&I1 && step > 2 && k < n && (o == 1 || o == 2), "the places in the order they are written"); step++; return o == 1 ? X[k].ip : X[k].p; }
void frt_is_close(InStream *is) { VP_ASSERT(is == (InStream *)&I1 && !closed, "the field list is closed"); closed = 1; }
Hash *frt_h_new_int(free_ft f) { return (Hash *)&HD; }
HashKeyStatus frt_h_set_int(Hash *h, unsigned long key, void *v)
{
    SegmentTermIndex *t = (SegmentTermIndex *)v; VP_ASSERT(h == (Hash *)&HD && got < n && key == (unsigned long)X[got].f, "every field under its number");
    VP_ASSERT(t->index_ptr == X[got].ip && t->ptr == X[got].p && t->index_cnt == X[got].ic && t->size == X[got].sz && t->index_terms == NULL, "where its terms start and how many there are"); got++; return 0;
}
HashKeyStatus frt_h_set(Hash *h, const void *k, void *v) { return frt_h_set_int(h, (unsigned long)k, v); }
TermEnum *vp_new(InStream *is, SegmentFieldIndex *s) { if (is == (InStream *)&I2) { VP_ASSERT(s->skip_interval == sk, "the skip interval is known"); return TE(&TEi); } VP_ASSERT(is == (InStream *)&I3, "the term file"); return TE(&TEe); }
void **frt_ary_new_i(int s, int c) { return (void **)&HD; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { return 0; }
#else
static char IN; static SegmentTermEnum E; static int n, at, rd, sought, len[3]; static off_t d[3], ip; static char txt[3][3]; static TermInfo ti[3];
void vp_reset(TermEnum *te) { VP_ASSERT(te == TE(&E), "the index enumeration"); at = 0; rd = 0; E.pos = -1; }
void frt_is_seek(InStream *is, off_t p) { VP_ASSERT(is == (InStream *)&IN && p == ip, "at the field's index entries"); sought = 1; }
char *vp_next(TermEnum *te)
{
    int k; VP_ASSERT(te == TE(&E) && sought && E.size == n && at == rd, "one entry after the other"); if (at >= n) { te->curr_term[0] = 0; te->curr_term_len = 0; return NULL; }
    for (k = 0; k < 3; k++) te->curr_term[k] = txt[at][k]; te->curr_term_len = len[at]; te->curr_ti = ti[at]; at++; return te->curr_term;
}
off_t frt_is_read_voff_t(InStream *is) { VP_ASSERT(is == (InStream *)&IN && at == rd + 1, "the place of the entry's term"); return d[rd++]; }
#endif
HARNESS
{
    int k;
#if OP == 0
    Store st; SegmentFieldIndex *s; TermInfosReader *t; st.open_input = st_open; step = got = closed = 0; n = (int)vp_range(0, 3); iv = (int)vp_range(1, 1 << 20); sk = (int)vp_range(1, 1 << 20);
    for (k = 0; k < 3; k++) { X[k].f = (int)vp_range(0, 1 << 20); X[k].ic = (int)vp_range(0, 1 << 20); X[k].sz = (int)vp_range(0, 1 << 20); X[k].ip = (off_t)vp_range(0, 1ll << 40); X[k].p = (off_t)vp_range(0, 1ll << 40); }
    s = sfi_open(&st, "_a");
    VP_ASSERT(got == n && closed && step == 3 + 5 * n && s->index_interval == iv && s->skip_interval == sk && s->field_dict == (Hash *)&HD && s->index_te == TE(&TEi), "the whole list, with its intervals");
    t = tir_open(&st, s, "_a"); VP_ASSERT(t->orig_te == TE(&TEe) && t->field_num == -1, "on no field yet");
#else
    SegmentTermIndex t; off_t p = 0; n = (int)vp_range(1, 3); E.is = (InStream *)&IN; at = -1; rd = sought = 0; ip = (off_t)vp_range(0, 1ll << 40); t.index_terms = NULL; t.index_cnt = n; t.index_ptr = ip; t.size = 50; t.ptr = 4; E.size = 0;
    for (k = 0; k < 3; k++) { txt[k][0] = (char)vp_byte(); txt[k][1] = (char)vp_byte(); len[k] = (int)vp_range(0, 2); txt[k][2] = 0; txt[k][len[k]] = 0; ti[k].doc_freq = (int)vp_range(0, 99); ti[k].frq_ptr = (off_t)vp_range(0, 1ll << 40); ti[k].prx_ptr = (off_t)vp_range(0, 1ll << 40); ti[k].skip_offset = (off_t)vp_range(0, 1ll << 40); d[k] = (off_t)vp_range(0, 1ll << 40); }
    sti_ensure_index_is_read(&t, TE(&E));
    for (k = 0; k < n; k++) { p += d[k]; VP_ASSERT(t.index_terms[k] != E.te.curr_term && strcmp(t.index_terms[k], txt[k]) == 0 && t.index_term_lens[k] == len[k], "the text of every entry"); VP_ASSERT(t.index_ptrs[k] == p, "the place of every entry's term"); VP_ASSERT(t.index_term_infos[k].doc_freq == ti[k].doc_freq && t.index_term_infos[k].frq_ptr == ti[k].frq_ptr && t.index_term_infos[k].prx_ptr == ti[k].prx_ptr && t.index_term_infos[k].skip_offset == ti[k].skip_offset, "the postings before it"); }
    VP_ASSERT(t.index_cnt == n && t.size == 50 && t.ptr == 4, "the field stays");
    at = -1; sought = 0; sti_ensure_index_is_read(&t, TE(&E)); VP_ASSERT(at == -1 && !sought, "read only once");
#endif
    VP_REACH("done");
}
