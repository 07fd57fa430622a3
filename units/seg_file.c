/*VP{
"property":"P17",
"title":"file names carry segment name, generation, extension and field number; the current generation is the highest of the segments files in the directory; a new segment gets a name of its own",
"functions":["fn_for_generation","fn_for_gen_field","segfn_for_generation","which_gen_i","sis_current_segment_generation","sis_curr_seg_file_name","new_segment","si_norm_file_name","si_new","sis_new_segment"],
"prune":{"src/index.c":["&","fn_for_generation","fn_for_gen_field","segfn_for_generation","which_gen_i","sis_current_segment_generation","sis_curr_seg_file_name","sis_new_segment","si_norm_file_name"]},
"variants":[{"name":"names","defs":["OP=0"]},{"name":"gen","defs":["OP=1"]},{"name":"big","defs":["OP=3"]},{"name":"new","defs":["OP=2"]}],
"limit":"generations below 1296 (two digits; in the choice of the newest also some of ten digits beside small ones), field numbers below 100",
"proof":{"unwind":14,"args":["--unwindset","strlen.0:24,strcmp.0:24,strncmp.0:24,strrchr.0:24"]},
"bounded":{"K":3,"unwind":14}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#define VP_ESTRDUP
#include "env.h"
#include <stdarg.h>
#ifndef VP_NATIVE
/* the conversions the file names use, by their definition in the C standard */
int sprintf(char *o, const char *f, ...)
{
    va_list ap; char *o0 = o; va_start(ap, f);
    for (; *f; f++) {
        if (*f != '%') *o++ = *f;
        else if (*++f == 's') { const char *s = va_arg(ap, const char *); while (*s) *o++ = *s++; }
        else { int d = va_arg(ap, int); VP_ASSERT(*f == 'd' && d >= 0 && d < 100, "a small number"); if (d >= 10) *o++ = (char)('0' + d / 10); *o++ = (char)('0' + d % 10); }
    }
    *o = 0; va_end(ap); return (int)(o - o0);
}
#endif
#include "index.c"
#define L SEGMENT_NAME_MAX_LENGTH
static char dig(unsigned d) { return (char)(d < 10 ? '0' + d : 'a' + (d - 10)); }
static char *put(char *o, const char *s) { while (*s) *o++ = *s++; *o = 0; return o; }
static char *num(char *o, unsigned g) { if (g >= 36) *o++ = dig(g / 36); *o++ = dig(g % 36); *o = 0; return o; }
#if OP == 1
static int n1, n2, nother; static unsigned g1, g2;
static void st_each(Store *s, void (*fn)(const char *, void *), void *arg)
{
    char b[L];
    if (n1) { num(put(b, "segments_"), g1); fn(b, arg); }
    fn("_1.cfs", arg); fn("_segments_zz", arg); fn("segments", arg);
    if (n2) { num(put(b, "segments_"), g2); fn(b, arg); }
    fn("_zz_zz.del", arg); fn("fields", arg);
}
#endif
#if OP == 3
static char big[16], small[16]; static int first, both;
static void st_each(Store *s, void (*fn)(const char *, void *), void *arg)
{
    char b[L], c[L]; put(put(b, "segments_"), big); put(put(c, "segments_"), small);
    if (first) fn(b, arg);
    if (both) fn(c, arg);
    fn("_zzzzzzzzzzzz.cfs", arg);
    if (!first) fn(b, arg);
}
#endif
HARNESS
{
#if OP == 3
    Store st; int k; i64 gb = 0, gs, r; unsigned d0 = (unsigned)vp_range(1, 35), d1 = (unsigned)vp_range(0, 35); 
    for (k = 0; k < 10; k++) { unsigned d = k == 1 ? d0 : k == 5 ? d1 : 1; big[k] = dig(d); gb = gb * 36 + d; } big[10] = 0;
    gs = (i64)vp_range(0, 35); small[0] = dig((unsigned)gs); small[1] = 0;
    first = vp_bool(); both = vp_bool(); st.each = st_each;
    r = sis_current_segment_generation(&st);
    VP_ASSERT(r == (both && gs > gb ? gs : gb), "the highest generation, however large");
    VP_REACH("done");
}
#else
    char b[L], x[L], *o; unsigned g = (unsigned)vp_range(0, 1295);
#if OP == 0
    int fnum = (int)vp_range(0, 99), cf = vp_bool(), ng, i; SegmentInfo si; int gens[2]; const char *nm = vp_bool() ? "_1" : "_2b";
    VP_ASSERT(fn_for_generation(b, nm, "del", -1) == NULL, "no file without a generation");
    VP_ASSERT(fn_for_generation(b, nm, "del", g) == b, "a file name"); o = num(put(put(x, nm), "_"), g); put(o, ".del"); VP_ASSERT(strcmp(b, x) == 0, "segment, generation and extension");
    VP_ASSERT(fn_for_generation(b, nm, NULL, g) == b, "a file name"); num(put(put(x, nm), "_"), g); VP_ASSERT(strcmp(b, x) == 0, "segment and generation");
    VP_ASSERT(segfn_for_generation(b, g) == b, "a file name"); num(put(x, "segments_"), g); VP_ASSERT(strcmp(b, x) == 0, "the segments file of a generation");
    si.name = (char *)nm; si.use_compound_file = cf; si.norm_gens = gens; si.norm_gens_size = 2; gens[0] = -1; i = vp_bool(); ng = (int)vp_range(0, 1296) - 1; gens[1] = ng;
    o = si_norm_file_name(&si, b, i);
    if (i == 0 || ng < 0) VP_ASSERT(o == NULL, "no norms file");
    else { VP_ASSERT(o == b, "a norms file"); put(put(num(put(put(x, nm), "_"), (unsigned)ng), cf && ng > 0 ? ".s" : ".f"), "1"); VP_ASSERT(strcmp(b, x) == 0, "segment, generation, kind and field"); }
    VP_ASSERT(si_norm_file_name(&si, b, 2 + fnum) == NULL, "no norms for a field beyond the list");
#elif OP == 1
    Store st; i64 r; st.each = st_each; n1 = vp_bool(); n2 = vp_bool(); g1 = (unsigned)vp_range(0, 1295); g2 = (unsigned)vp_range(0, 1295);
    r = sis_current_segment_generation(&st);
    VP_ASSERT(r == (n1 && (!n2 || g1 >= g2) ? (i64)g1 : n2 ? (i64)g2 : -1), "the highest generation of the segments files, none if there is no such file");
    if (n1 || n2) { VP_ASSERT(sis_curr_seg_file_name(b, &st) == b, "a file name"); num(put(x, "segments_"), (unsigned)r); VP_ASSERT(strcmp(b, x) == 0, "the current segments file"); }
#else
    SegmentInfos sis; SegmentInfo *old[4], *si; Store st; int n = (int)vp_range(0, 4), dc = vp_int(), k; SegmentInfo *l;
    sis.counter = g; sis.size = n; sis.capa = 4; sis.segs = (SegmentInfo **)malloc(sizeof(SegmentInfo *) * 4); for (k = 0; k < 4; k++) { old[k] = (SegmentInfo *)&old[k]; sis.segs[k] = old[k]; }
    si = sis_new_segment(&sis, dc, &st);
    VP_ASSERT(sis.counter == g + 1 && sis.size == n + 1 && sis.segs[n] == si && sis.capa >= sis.size, "added at the end, and the counter moves on");
    for (k = 0; k < n; k++) VP_ASSERT(sis.segs[k] == old[k], "the others stay");
    VP_ASSERT(si->doc_cnt == dc && si->store == &st && si->del_gen == -1 && si->norm_gens == NULL && si->norm_gens_size == 0 && si->ref_cnt == 1 && !si->use_compound_file, "an empty new segment");
    num(put(x, "_"), g); VP_ASSERT(strcmp(si->name, x) == 0, "named after the counter");
#endif
    VP_REACH("done");
}
#endif
