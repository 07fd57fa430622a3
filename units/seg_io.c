/*VP{
"property":"P17",
"title":"the segment list read from a segments file is the one written: every segment with its name, document count, deletion and norm generations and file kind, and the version and name counter",
"functions":["si_write","si_read","sis_write","sis_read_i","sis_add_si"],
"variants":[{"name":"segment","defs":["OP=0"],"prune":{"src/index.c":["&","si_write","si_read"]},
"loops":[{"file":"src/index.c","func":"si_write","loop":0,"of":1,"text":"__CPROVER_assigns(i, tk_w, tk_k, tk_v, tk_k2, tk_v2) __CPROVER_loop_invariant(i >= -1 && i < si->norm_gens_size && tk_w == 4 + (si->norm_gens_size - 1 - i) && (G_T < tk_w && G_T == 4 + si->norm_gens_size - 1 - g_i ==> tk_k == K_VINT && tk_v == (u64)(unsigned)g_e) && (G_T < 4 ==> tk_k == __CPROVER_loop_entry(tk_k) && tk_v == __CPROVER_loop_entry(tk_v)) && (G_T >= 4 && G_T < tk_w ==> tk_k == K_VINT) && tk_k2 == __CPROVER_loop_entry(tk_k2) && tk_v2 == __CPROVER_loop_entry(tk_v2))"},
{"file":"src/index.c","func":"si_read","loop":0,"of":1,"text":"__CPROVER_assigns(i, tk_r, __CPROVER_object_whole(si->norm_gens)) __CPROVER_loop_invariant(i >= -1 && i < si->norm_gens_size && tk_r == 4 + (si->norm_gens_size - 1 - i) && (G_T < tk_r && G_T == 4 + si->norm_gens_size - 1 - g_i ==> si->norm_gens[g_i] == g_e))"}]},
{"name":"list","defs":["OP=1"],"prune":{"src/index.c":["&","sis_write","sis_read_i"]},
"replace":["si_write:vp_siw","si_read:vp_sir","frt_fis_write:vp_fw","frt_fis_read:vp_fr","segfn_for_generation:vp_segfn","frt_deleter_delete_file:vp_deldel"],
"loops":[{"file":"src/index.c","func":"sis_write","loop":0,"of":1,"text":"__CPROVER_assigns(i, tk_w, tk_k, tk_v, tk_k2, tk_v2) __CPROVER_loop_invariant(i >= 0 && i <= sis_size && tk_w == 4 + i && (G_T == 4 + g_i && g_i < i ==> tk_k == 90 && tk_v == (u64)g_si) && (G_T < 4 ==> tk_k == __CPROVER_loop_entry(tk_k) && tk_v == __CPROVER_loop_entry(tk_v)) && (G_T >= 4 && G_T < tk_w ==> tk_k == 90) && tk_k2 == __CPROVER_loop_entry(tk_k2) && tk_v2 == __CPROVER_loop_entry(tk_v2))"},
{"file":"src/index.c","func":"sis_read_i","loop":0,"of":2,"text":"__CPROVER_assigns(sis->capa) __CPROVER_loop_invariant(sis->capa >= 4 && sis->capa <= 0x20000000)"},
{"file":"src/index.c","func":"sis_read_i","loop":1,"of":2,"text":"__CPROVER_assigns(i, tk_r, sis->size, __CPROVER_object_whole(sis->segs)) __CPROVER_loop_invariant(i >= 0 && i <= seg_cnt && sis->size == i && tk_r == 4 + i && (G_T == 4 + g_i && g_i < i ==> (u64)sis->segs[g_i] == tk_v))"}],
"nosearch":true,"bounded":{"K":3,"unwind":6,"replace":["si_write:vp_siw","si_read:vp_sir","frt_fis_write:vp_fw","frt_fis_read:vp_fr","segfn_for_generation:vp_segfn","frt_deleter_delete_file:vp_deldel"]}}],
"proof":{"unwind":8},
"bounded":{"K":3,"unwind":6},
"assume":["a segments file reads back the values written to it, in order (P01, P02)"]
}VP*/
#define VP_FREE_PTR
#include "env.h"
#include "index.h"
#include "internal.h"
#include "token_common.h"
static int g_i, g_e; static void *g_si;
#include "index.c"
void frt_os_write_vint(OutStream *os, register unsigned int v) { tk_put(K_VINT, v); }
void frt_os_write_u32(OutStream *os, u32 v) { tk_put(K_U32, v); }
void frt_os_write_u64(OutStream *os, u64 v) { tk_put(K_U64, v); }
void frt_os_write_byte(OutStream *os, uchar b) { tk_put(K_BYTE, b); }
void frt_os_write_string(OutStream *os, const char *s) { tk_put(K_STR, (u64)s); }
unsigned int frt_is_read_vint(InStream *is) { return (unsigned)tk_get(K_VINT, vp_u32()); }
u32 frt_is_read_u32(InStream *is) { return (u32)tk_get(K_U32, vp_u32()); }
u64 frt_is_read_u64(InStream *is) { return tk_get(K_U64, vp_u64()); }
uchar frt_is_read_byte(InStream *is) { return (uchar)tk_get(K_BYTE, vp_u32() & 255); }
static char fresh[4];
char *frt_is_read_string_safe(InStream *is) { return (char *)tk_get(K_STR, (u64)fresh); }
#if OP == 1
static int phase, ngen; static char S1, S2, NMN, NMO, nbuf; static i64 gen0; static Store ST;
void vp_siw(SegmentInfo *si, OutStream *os) { VP_ASSERT(os == (OutStream *)&S1, "into the segments file"); tk_put(90, (u64)si); }
static SegmentInfo FSI; SegmentInfo *vp_sir(Store *st, InStream *is) { VP_ASSERT(st == &ST, "the store"); return (SegmentInfo *)tk_get(90, (u64)&FSI); }
static FieldInfos FF; void vp_fw(FieldInfos *f, OutStream *os) { tk_put(91, (u64)f); } FieldInfos *vp_fr(InStream *is) { return (FieldInfos *)tk_get(91, (u64)&FF); }
char *vp_segfn(char *b, u64 g) { b[0] = (i64)g == gen0 + 1 ? 'n' : (i64)g == gen0 ? 'o' : '?'; b[1] = 0; return b; }
static OutStream *nout(Store *s, const char *n) {
    VP_ASSERT(s == &ST && (phase == 0 || phase == 2), "one file after the other"); phase++;
    if (phase == 1) { VP_ASSERT(n[0] == 'n' && n[1] == 0, "the segments file of the next generation"); return (OutStream *)&S1; }
    return (OutStream *)&S2; }
void frt_os_close(OutStream *os) { VP_ASSERT(os == (OutStream *)(phase == 1 ? &S1 : &S2), "each file is closed once"); phase++; }
static InStream *oin(Store *s, const char *n) { VP_ASSERT(n[0] == 'n', "the segments file of the generation"); return (InStream *)&S1; }
void frt_is_close(InStream *is) { ngen++; }
void vp_deldel(Deleter *d, char *n) { VP_ASSERT(phase == 4, "the old segments file goes only when the new one is complete"); VP_ASSERT(n[0] == 'o' && gen0 + 1 > 0, "only the previous generation"); phase++; }
#endif
HARNESS
{
    tk_init(); G_T = (long)vp_range(0, VP_SZ(100000100, 9));
#if OP == 0
    SegmentInfo s, *r; Store st; int n = (int)vp_range(0, VP_SZ(100000000, 3)); g_i = (int)vp_range(0, VP_SZ(100000000, 3)); VP_ASSUME(g_i < n || n == 0);
    s.name = (char *)&s; s.doc_cnt = vp_int(); s.del_gen = vp_int(); s.norm_gens_size = n; s.norm_gens = n ? (int *)malloc(sizeof(int) * (size_t)n) : NULL; s.use_compound_file = vp_bool(); s.ref_cnt = 3;
    if (n) g_e = s.norm_gens[g_i]; G_S = 3;
    si_write(&s, NULL);
    VP_ASSERT(tk_w == 5 + n, "all values are written");
    r = si_read(&st, NULL);
    VP_ASSERT(tk_r == tk_w && r->norm_gens_size == n && r->ref_cnt == 1 && r->store == &st, "and read back");
    if (G_T == 0) VP_ASSERT(r->name == s.name, "name"); if (G_T == 1) VP_ASSERT(r->doc_cnt == s.doc_cnt, "document count"); if (G_T == 2) VP_ASSERT(r->del_gen == s.del_gen, "deletion generation");
    if (n && G_T == 4 + n - 1 - g_i) VP_ASSERT(r->norm_gens[g_i] == s.norm_gens[g_i], "norm generations");
    if (G_T == 4 + n) VP_ASSERT(!r->use_compound_file == !s.use_compound_file, "compound file flag");
#else
    SegmentInfos s, *r; int n = (int)vp_range(0, VP_SZ(100000000, 3)); FindSegmentsFile fsf; u64 v0 = vp_u64(); Deleter dl; FieldInfos fi; int del = vp_bool();
    g_i = (int)vp_range(0, VP_SZ(100000000, 3)); VP_ASSUME(g_i < n || n == 0); phase = 0;
    s.size = n; s.segs = n ? (SegmentInfo **)malloc(sizeof(SegmentInfo *) * (size_t)n) : NULL; s.version = v0; s.counter = vp_u64(); s.fis = &fi; gen0 = (i64)vp_range(0, 100000) - 1; s.generation = gen0; if (n) g_si = s.segs[g_i];
    ST.new_output = nout; ST.open_input = oin; G_S = 3;
    sis_write(&s, &ST, del ? &dl : NULL);
    VP_ASSERT(phase == (del && gen0 >= 0 ? 5 : 4) && s.generation == gen0 + 1 && s.version == v0 + 1, "both files are complete; the previous list is given up last, and every commit has a new version");
    tk_w -= 2; fsf.generation = gen0 + 1; VP_ASSUME(G_T < tk_w);
    sis_read_i(&ST, &fsf); r = fsf.ret.sis;
    VP_ASSERT(tk_r == tk_w && r->size == n && r->generation == gen0 + 1 && r->capa >= n && r->store == &ST, "all of it is read back");
    if (G_T == 1) VP_ASSERT(r->version == s.version, "version"); if (G_T == 2) VP_ASSERT(r->counter == s.counter, "name counter");
    if (n && G_T == 4 + g_i) VP_ASSERT(r->segs[g_i] == s.segs[g_i], "segments in order"); if (G_T == 4 + n) VP_ASSERT(r->fis == &fi, "field infos");
#endif
    VP_REACH("done");
}
