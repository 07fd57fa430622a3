/*VP{
"property":"P18",
"title":"cleaning up a directory queues exactly the index files that the current list of segments does not refer to",
"functions":["deleter_find_deletable_files_i","deleter_find_deletable_files","file_name_filter_is_index_file","file_name_filter_is_cfs_file","fn_for_generation","si_norm_file_name","fn_for_gen_field"],
"prune":{"src/index.c":["&","deleter_find_deletable_files_i"]},
"replace":["u64_to_str36:vp_36","deleter_queue_file:vp_queue","file_name_filter_init:vp_noinit"],
"variants":[{"name":"plain","defs":["CF=0"]},{"name":"cfs","defs":["CF=1"]}],
"limit":"one segment with up to 3 fields; names of up to 10 characters with one-digit generations",
"proof":{"unwind":12,"args":["--unwindset","strcpy.0:14"]},
"bounded":{"K":3,"unwind":12,"replace":["u64_to_str36:vp_36","deleter_queue_file:vp_queue","file_name_filter_init:vp_noinit"]}
}VP*/
#define VP_FREE_PTR
#define VP_LIB_MEM
#include "env.h"
#include <stdarg.h>
#include <ctype.h>
#undef isdigit
#define isdigit(c) ((c) >= '0' && (c) <= '9')
#define atoi vp_atoi
static int vp_atoi(const char *s) { int v = 0; while (isdigit(*s)) v = v * 10 + (*s++ - '0'); return v; }
#ifndef VP_NATIVE
int sprintf(char *o, const char *f, ...)
{
    va_list ap; char *o0 = o; va_start(ap, f);
    for (; *f; f++) {
        if (*f != '%') *o++ = *f;
        else if (*++f == 's') { const char *s = va_arg(ap, const char *); while (*s) *o++ = *s++; }
        else { int d = va_arg(ap, int); VP_ASSERT(*f == 'd' && d >= 0 && d < 10, "a small number"); *o++ = (char)('0' + d); }
    }
    *o = 0; va_end(ap); return (int)(o - o0);
}
#endif
#include "index.c"
static int nq; static const char *FN; static SegmentInfo SI; static Hash EXT, CUR; static Deleter DL;
char *vp_36(char *b, int n, u64 u) { VP_ASSERT(u < 10, "small"); b[n - 1] = 0; b[n - 2] = (char)('0' + u); return b + n - 2; }
void vp_noinit(void) { VP_ASSERT(0, "initialised"); }
void vp_queue(Deleter *d, const char *n) { VP_ASSERT(d == &DL && n == FN, "the file itself"); nq++; }
static int is3(const char *s, const char *t) { return s[0] == t[0] && s[1] == t[1] && s[2] == t[2] && s[3] == 0; }
static int listed(const char *s) { return is3(s, "frq") || is3(s, "prx") || is3(s, "fdx") || is3(s, "fdt") || is3(s, "tfx") || is3(s, "tix") || is3(s, "tis"); }
void *frt_h_get(Hash *h, const void *k) { const char *s = k;
    if (h == &EXT) return listed(s) || is3(s, "del") || is3(s, "gen") || is3(s, "cfs") ? &EXT : NULL;
    VP_ASSERT(h == &CUR, "the current segments"); return s[0] == '_' && s[1] == '1' && s[2] == 0 ? &SI : NULL; }
HARNESS
{
    struct DelFilesArg dfa; char f[24], *o = f; int gens[3], k, seg, gen, ext, fld, idx, ref, cur, ngen; static const char *const X[] = {"frq", "prx", "fdx", "fdt", "tfx", "tix", "tis", "del", "gen", "cfs"};
    fn_extensions = &EXT; dfa.current = &CUR; dfa.dlr = &DL; nq = 0; FN = f;
    cur = (int)vp_range(0, 9); strcpy(dfa.curr_seg_file_name, "segments_0"); dfa.curr_seg_file_name[9] = (char)('0' + cur);
    SI.name = "_1"; SI.use_compound_file = CF; SI.del_gen = (int)vp_range(0, 10) - 1; SI.norm_gens = gens; SI.norm_gens_size = (int)vp_range(0, 3); for (k = 0; k < 3; k++) gens[k] = (int)vp_range(0, 10) - 1;
    seg = (int)vp_range(0, 3); gen = (int)vp_range(0, 10) - 1; ext = (int)vp_range(0, 12); fld = (int)vp_range(0, 5);
    if (seg == 3) { strcpy(f, "segments_0"); if (gen < 0) f[8] = 0; else f[9] = (char)('0' + gen); idx = 1; ref = gen < 0 || gen == cur; }
    else {
        *o++ = '_'; *o++ = seg == 2 ? '2' : '1'; if (seg == 1) *o++ = '1'; if (gen >= 0) { *o++ = '_'; *o++ = (char)('0' + gen); }
        *o++ = '.'; if (ext < 10) { o[0] = X[ext][0]; o[1] = X[ext][1]; o[2] = X[ext][2]; o[3] = 0; } else if (ext < 12) { o[0] = ext == 10 ? 'f' : 's'; o[1] = (char)('0' + fld); o[2] = 0; } else { o[0] = 't'; o[1] = 'x'; o[2] = 't'; o[3] = 0; }
        idx = ext < 12; VP_ASSUME(ext == 7 || ext == 10 || ext == 11 ? gen >= 0 : ext == 12 || gen < 0);   /* names the index gives its files, and one it does not */
        ngen = fld < SI.norm_gens_size ? gens[fld] : -1;
        ref = seg == 0 && (ext < 7 ? !CF : ext == 7 ? SI.del_gen >= 0 && SI.del_gen == gen : ext == 8 ? 1 : ext == 9 ? CF : ext == 10 ? gen >= 0 && gen == ngen && !CF : CF && ngen > 0 && gen == ngen);
    }
    deleter_find_deletable_files_i(f, &dfa);
    VP_ASSERT(!(ref && nq), "a file that the current segments need stays");
    VP_ASSERT(idx || !nq, "files that do not belong to the index stay");
    VP_ASSERT(!idx || ref || nq == 1, "an index file that no segment refers to goes");
    VP_REACH("done");
}
