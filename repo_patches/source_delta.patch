From 96018d167a2aa9af61463b4e6d1cbe5591d943c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:58 +0000
Subject: [PATCH 01/22] fix: bit vector scans read past the end of the bit
 array

bv_scan_next_from and bv_scan_next_unset_from loaded the word of the start
bit before checking that the bit lies inside the vector.
---
 c/include/bitvector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 032283d..1f91c42 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -271,11 +271,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Keep only the bits above this position */
     word &= ~0 << (bit & 31);
     if (word) {
@@ -321,11 +323,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_unset_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Set all of the bits below this position */
     word |= (1 << (bit & 31)) - 1;
     if (~word) {
-- 
2.43.0


From 92e04cd89e9f900a12e5e80ecdff3fd1c39fcf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:58 +0000
Subject: [PATCH 02/22] fix: bv_recount reads past the end of the bit array

When the size is a multiple of 32 there is no partial word to count, but one
byte of the word after the last one was read (and counted).
---
 c/include/bitvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 1f91c42..2d23a1b 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -220,7 +220,7 @@ extern void frt_bv_clear(FrtBitVector *bv);
 static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_recount(FrtBitVector *bv)
 {
-    unsigned int extra = ((bv->size & 31) >> 3) + 1;
+    unsigned int extra = ((bv->size & 31) + 7) >> 3;
     unsigned int len   = bv->size >> 5;
     unsigned int idx, count = 0;
 
-- 
2.43.0


From 899a3d9c7ed7bf42740084a02ad3911bd534894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:31 +0000
Subject: [PATCH 03/22] fix: in-place bit vector operations use a stale
 extension flag

FRT_BV_OP overwrote the result's extends_as_ones before reading the operands'
flags, so an in-place operation on a vector that extends with ones lost the
other operand's words, and words beyond the result's size kept the previous
extension value, which a later bv_set made visible.
---
 c/include/bitvector.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 2d23a1b..7724c4b 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -421,8 +421,11 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
     int max_word_size = FRT_TO_WORD(max_size);                        \
     int min_word_size = FRT_TO_WORD(min_size);                        \
     int capa = frt_max2(frt_round2(max_word_size), 4);                \
+    /* bv may be a or b so remember how they extend */                \
+    bool a_ones = a->extends_as_ones;                                 \
+    bool b_ones = b->extends_as_ones;                                 \
                                                                       \
-    bv->extends_as_ones = (a->extends_as_ones op b->extends_as_ones); \
+    bv->extends_as_ones = (a_ones op b_ones);                         \
     frt_bv_capa(bv, capa, max_size);                                  \
                                                                       \
     for (i = 0; i < min_word_size; ++i)                               \
@@ -430,13 +433,16 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
                                                                       \
     if (a_wsz != b_wsz) {                                             \
         frt_u32 *bits = a->bits;                                      \
-        bool extends_as_ones = b->extends_as_ones;                    \
+        bool extends_as_ones = b_ones;                                \
         if (a_wsz < b_wsz) {                                          \
             bits = b->bits;                                           \
-            extends_as_ones = a->extends_as_ones;                     \
+            extends_as_ones = a_ones;                                 \
         }                                                             \
         ext_cb(bv->bits, bits, extends_as_ones, i, max_word_size);    \
     }                                                                 \
+    memset(bv->bits + max_word_size,                                  \
+           (bv->extends_as_ones ? 0xFF : 0),                          \
+           sizeof(frt_u32) * (bv->capa - max_word_size));             \
     frt_bv_recount(bv);                                               \
 } while(0)
 
-- 
2.43.0


From 02467a56d500a4febfac2d3526d1e50a7c15abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:41 +0000
Subject: [PATCH 04/22] fix: ram_touch keeps the caller's file name as its hash
 key

---
 c/src/ram_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 6052fb1..2af0b47 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -40,7 +40,8 @@ static void rf_close(void *p)
 static void ram_touch(Store *store, const char *filename)
 {
     if (h_get(store->dir.ht, filename) == NULL) {
-        h_set(store->dir.ht, filename, rf_new(filename));
+        RAMFile *rf = rf_new(filename);
+        h_set(store->dir.ht, rf->name, rf);
     }
 }
 
-- 
2.43.0


From 9569f539c793aa6f132397fd9202cd6471ddab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:41 +0000
Subject: [PATCH 05/22] fix: reading past the end of a RAM file does not raise

---
 c/src/ram_store.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 2af0b47..f41ecfc 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -302,6 +302,12 @@ static void rami_read_i(InStream *is, uchar *b, int len)
     off_t start = is->d.pointer;
     uchar *buffer;
 
+    if (start + len > rf->len) {
+        RAISE(EOF_ERROR, "Tried to read past end of file. File length is "
+              "<%"OFF_T_PFX"d> and tried to read to <%"OFF_T_PFX"d>",
+              rf->len, start + len);
+    }
+
     while (remainder > 0) {
         buffer_number = (int) (start / BUFFER_SIZE);
         buffer_offset = start % BUFFER_SIZE;
-- 
2.43.0


From 2d6707f19d538cdb12773e64b2f84db9fa5b7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:41 +0000
Subject: [PATCH 06/22] fix: ramo_write_to reads past the buffer table of a
 full RAM file

---
 c/src/ram_store.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index f41ecfc..de18ec9 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -248,7 +248,9 @@ void ramo_write_to(OutStream *os, OutStream *other_o)
     last_buffer_offset = rf->len % BUFFER_SIZE;
     for (i = 0; i <= last_buffer_number; i++) {
         len = (i == last_buffer_number ? last_buffer_offset : BUFFER_SIZE);
-        os_write_bytes(other_o, rf->buffers[i], len);
+        if (len > 0) {
+            os_write_bytes(other_o, rf->buffers[i], len);
+        }
     }
 }
 
-- 
2.43.0


From a5c371ffef1566e5181a27922c1affdff510dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:42 +0000
Subject: [PATCH 07/22] fix: float2byte encodes some positive values to zero

---
 c/src/helper.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/helper.c b/c/src/helper.c
index 6aace5e..0f02a8e 100644
--- a/c/src/helper.c
+++ b/c/src/helper.c
@@ -54,7 +54,8 @@ unsigned char float2byte(float f)
             mantissa = 0x07;   /* 0x07 =  7 = 0b00000111 */
         }
 
-        if (exponent < 0) {
+        /* a positive value never encodes to 0, which means zero */
+        if (exponent < 0 || (exponent == 0 && mantissa == 0)) {
             exponent = 0;
             mantissa = 1;
         }
-- 
2.43.0


From 84ea7adec4c0b059ec54bef4855633b3fa2023d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:20 +0000
Subject: [PATCH 08/22] fix: a page that reaches past INT_MAX makes a search
 return nothing

---
 c/src/search.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9f7a937..387984e 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1033,7 +1033,8 @@ static TopDocs *isea_search_w(Searcher *self,
                               PostFilter *post_filter,
                               bool load_fields)
 {
-    int max_size = num_docs + (num_docs == INT_MAX ? 0 : first_doc);
+    int max_size = (first_doc > 0 && num_docs > INT_MAX - first_doc)
+        ? INT_MAX : num_docs + first_doc;
     int i;
     Scorer *scorer;
     Hit **score_docs = NULL;
@@ -1669,7 +1670,8 @@ static TopDocs *msea_search_w(Searcher *self,
                               PostFilter *post_filter,
                               bool load_fields)
 {
-    int max_size = num_docs + (num_docs == INT_MAX ? 0 : first_doc);
+    int max_size = (first_doc > 0 && num_docs > INT_MAX - first_doc)
+        ? INT_MAX : num_docs + first_doc;
     int i;
     int total_hits = 0;
     Hit **score_docs = NULL;
-- 
2.43.0


From 5750cb077159631c5dba99d4da8208226c33dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 09/22] fix: setting a norm through a multi-reader leaves stale
 cached norms

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 289a1b7..f1298b4 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4883,7 +4883,7 @@ static void mr_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val
     if (fnum >= 0) {
         IndexReader *reader = MR(ir)->sub_readers[i];
         ir->has_changes = true;
-        h_del_int(MR(ir)->norms_cache, fnum);/* clear cache */
+        h_del_int(MR(ir)->norms_cache, field_num);/* clear cache */
         ir_set_norm_i(reader, doc_num - MR(ir)->starts[i], fnum, val);
     }
 }
-- 
2.43.0


From 48027304a38b16063a72f03184f172a85d9caa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:23 +0000
Subject: [PATCH 10/22] fix: seeking a missing term in a multi-reader leaves
 the previous term's postings

---
 c/src/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index f1298b4..41b6cb6 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3298,6 +3298,8 @@ static void mtde_seek(TermDocEnum *tde, int field_num, const char *term)
     }
     else {
         memset(mtde->state, 0, mtde->ir_cnt);
+        mtde->curr_tde = NULL; /* no posting of the previous term is left */
+        mtde->ptr = mtde->ir_cnt - 1;
     }
 }
 
-- 
2.43.0


From c7d1c2631825f2c390bd0904d1c1b79326596c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:33 +0000
Subject: [PATCH 11/22] fix: seeking a term position enumerator by term enum
 leaves the positions of the previous term

---
 c/src/index.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 41b6cb6..abb36de 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3132,6 +3132,7 @@ static void stpe_seek_ti(SegmentTermDocEnum *stde, TermInfo *ti)
         stde_seek_ti(stde, ti);
         is_seek(stde->prx_in, ti->prx_ptr);
     }
+    stde->prx_cnt = 0;
 }
 
 static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
@@ -3139,7 +3140,11 @@ static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
     SegmentTermDocEnum *stde = STDE(tde);
     TermInfo *ti = tir_get_ti_field(stde->tir, field_num, term);
     stpe_seek_ti(stde, ti);
-    stde->prx_cnt = 0;
+}
+
+static void stpe_seek_te(TermDocEnum *tde, TermEnum *te)
+{
+    stpe_seek_ti(STDE(tde), &(te->curr_ti));
 }
 
 static bool stpe_next(TermDocEnum *tde)
@@ -3203,6 +3208,7 @@ TermDocEnum *stpe_new(TermInfosReader *tir,
 
     /* TermDocEnum methods */
     tde->seek                = &stpe_seek;
+    tde->seek_te             = &stpe_seek_te;
     tde->next                = &stpe_next;
     tde->read                = &stpe_read;
     tde->next_position       = &stpe_next_position;
-- 
2.43.0


From b691d3783f81070b05a1d4e0ccf3a31e0ec55fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:44 +0000
Subject: [PATCH 12/22] fix: skipping in a posting list miscounts a skip entry
 for document 0

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index abb36de..9749b58 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3029,7 +3029,7 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
             last_frq_ptr = stde->frq_ptr;
             last_prx_ptr = stde->prx_ptr;
 
-            if (0 != stde->skip_doc && stde->skip_doc >= stde->doc_num) {
+            if (stde->skip_count > 0 && stde->skip_doc >= stde->doc_num) {
                 num_skipped += stde->skip_interval;
             }
 
-- 
2.43.0


From 72c289c226415b38cfbbd961a9a30acca024d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:23 +0000
Subject: [PATCH 13/22] fix: an untokenized value of exactly 255 bytes is not
 truncated

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 9749b58..d3cc829 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5630,7 +5630,7 @@ Hash *dw_invert_field(DocWriter *dw,
         for (i = 0; i < df_size; i++) {
             int len = df->lengths[i];
             char *data_ptr = df->data[i];
-            if (len > MAX_WORD_SIZE) {
+            if (len >= MAX_WORD_SIZE) {
                 len = MAX_WORD_SIZE - 1;
                 data_ptr = (char *)memcpy(buf, df->data[i], len);
             }
-- 
2.43.0


From b0aa4724ed985783f2dd94dc96a6978dc9dc9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 14/22] fix: skipping in a conjunction ignores a clause that
 ran out

---
 c/src/q_boolean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 17028ab..dc6fb59 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -396,12 +396,12 @@ static bool csc_skip_to(Scorer *self, int doc_num)
             more = sub_scorer->skip_to(sub_scorer, doc_num);
         }
     }
+    csc->more = more;
     if (more) {
         /* resort the scorers */
         csc_sort_scorers(csc);
     }
 
-    csc->more = more;
     return csc_do_next(self);
 }
 
-- 
2.43.0


From e0f232faa85f40f5f5bb4a23a0c4ff3c768f515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:21 +0000
Subject: [PATCH 15/22] fix: an orphaned norms file is compared with an
 uninitialised name

---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index d3cc829..b979b5b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3809,9 +3809,9 @@ static void deleter_find_deletable_files_i(const char *file_name, void *arg)
             else if (NULL != extension
                      && ('s' == *extension || 'f' == *extension)
                      && isdigit(extension[1])) {
-                si_norm_file_name(si, tmp_fn, atoi(extension + 1));
                 /* This is a _segmentName_N.sX file: */
-                if (0 != strcmp(tmp_fn, file_name)) {
+                if (!si_norm_file_name(si, tmp_fn, atoi(extension + 1))
+                    || 0 != strcmp(tmp_fn, file_name)) {
                     /* This is an orphan'd norms file: */
                     do_delete = true;
                 }
-- 
2.43.0


From bc2256200d77097cffce22b893f4572b08cb7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:17 +0000
Subject: [PATCH 16/22] fix: adding an index brings its deleted documents back

The deletions of a segment are kept in a file with a generation in its
name; iw_cp_fields still looked for the old name, so that deletions were
never copied.
---
 c/src/index.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index b979b5b..01d246b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6555,16 +6555,6 @@ static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
     sprintf(file_name, "%s.fdx", sr_segment);
     fdx_in = store_in->open_input(store_in, file_name);
 
-    sprintf(file_name, "%s.del", sr_segment);
-    if (store_in->exists(store_in, file_name)) {
-        OutStream *del_out;
-        InStream *del_in = store_in->open_input(store_in, file_name);
-        sprintf(file_name, "%s.del", segment);
-        del_out = store_out->new_output(store_out, file_name);
-        is2os_copy_bytes(del_in, del_out, is_length(del_in));
-    }
-
-
     if (map) {
         int i;
         const int max_doc = sr_max_doc(IR(sr));
@@ -6781,6 +6771,13 @@ static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
     else {
         iw_cp_files(iw, sr, si);
     }
+
+    if (sr->deleted_docs) {
+        char file_name[SEGMENT_NAME_MAX_LENGTH];
+        si->del_gen++;
+        fn_for_generation(file_name, si->name, "del", si->del_gen);
+        bv_write(sr->deleted_docs, iw->store, file_name);
+    }
 }
 
 static void iw_add_segments(IndexWriter *iw, IndexReader *ir)
-- 
2.43.0


From ae870ccea22e137c31ea470ac5c190e513a08a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:26 +0000
Subject: [PATCH 17/22] fix: a term is looked up in the field another thread
 used last

The field a TermInfosReader is on was remembered for all threads while the
enumeration belongs to one thread, so a lookup could be made in the field
this thread had used before.
---
 c/src/index.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 01d246b..a36e370 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2644,10 +2644,13 @@ static INLINE TermEnum *tir_enum(TermInfosReader *tir)
 
 TermInfosReader *tir_set_field(TermInfosReader *tir, int field_num)
 {
-    if (field_num != tir->field_num) {
-        ste_set_field(tir_enum(tir), field_num);
-        tir->field_num = field_num;
+    TermEnum *te = tir_enum(tir);
+
+    /* the enumeration belongs to the thread, tir->field_num to all of them */
+    if (field_num != te->field_num) {
+        ste_set_field(te, field_num);
     }
+    tir->field_num = field_num;
     return tir;
 }
 
@@ -2669,10 +2672,10 @@ static TermInfo *tir_get_ti_field(TermInfosReader *tir, int field_num,
     TermEnum *te = tir_enum(tir);
     char *match;
 
-    if (field_num != tir->field_num) {
+    if (field_num != te->field_num) {
         ste_set_field(te, field_num);
-        tir->field_num = field_num;
     }
+    tir->field_num = field_num;
 
     if (NULL != (match = ste_scan_to(te, term))
         && 0 == strcmp(match, term)) {
-- 
2.43.0


From be92071152974766f214c166d443e8621196725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:53 +0000
Subject: [PATCH 18/22] fix: compressed fields longer than the buffer cannot be
 stored or read

The output buffer was not renewed between rounds of the compressor and of the
decompressor, the whole compressed length was read into the fixed input buffer
and the terminator was written before room was made for it.
---
 c/src/index.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index a36e370..dc5ab2b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1266,15 +1266,15 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, buf_in, zip_len);
+        is_read_bytes(is, buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, uchar, buf_out_idx + ZIP_BUFFER_SIZE);
             zstrm.next_out = buf_out + buf_out_idx;
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             ret = inflate(&zstrm, Z_NO_FLUSH);
             assert(ret != Z_STREAM_ERROR);  /* state not clobbered */
             switch(ret) {
@@ -1286,14 +1286,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != Z_STREAM_END && zstrm.avail_out == 0);
     } while (ret != Z_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)inflateEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, uchar, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1356,15 +1356,15 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, (uchar *)buf_in, zip_len);
+        is_read_bytes(is, (uchar *)buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, char, buf_out_idx + ZIP_BUFFER_SIZE);
             zstrm.next_out = buf_out + buf_out_idx;
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             ret = BZ2_bzDecompress(&zstrm);
             assert(ret != BZ_SEQUENCE_ERROR);  /* state not clobbered */
             if (ret != BZ_OK && ret != BZ_STREAM_END) {
@@ -1372,14 +1372,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != BZ_STREAM_END && zstrm.avail_out == 0);
     } while (ret != BZ_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)BZ2_bzDecompressEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, char, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1849,15 +1849,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = deflate(&zstrm, Z_FINISH); /* no bad return value */
         assert(ret != Z_STREAM_ERROR) ;  /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != Z_STREAM_END);
     assert(zstrm.avail_in == 0);         /* all input will be used */
 
     /* clean up */
@@ -1877,15 +1877,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = (char *)data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = BZ2_bzCompress(&zstrm, BZ_FINISH); /* no bad return value */
         assert(ret != BZ_SEQUENCE_ERROR);        /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, (uchar *)out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != BZ_STREAM_END);
     assert(zstrm.avail_in == 0);       /* all input will be used */
 
     /* clean up */
-- 
2.43.0


From 7a54835548ff2a3707db665c18658c842a1c2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:07 +0000
Subject: [PATCH 19/22] fix: bytes of a compressed field that start at a
 separator lose it

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index dc5ab2b..50e6d94 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1438,7 +1438,7 @@ void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
         int cur_start = 0, buf_start = 0, cur_end, i, copy_start, copy_len;
         for (i = 0; i < self->size; i++) {
             cur_end = cur_start + self->data[i].length;
-            if (start < cur_end) {
+            if (start <= cur_end) {
                 copy_start = start > cur_start ? start - cur_start : 0;
                 copy_len = cur_end - cur_start - copy_start;
                 if (copy_len >= len) {
-- 
2.43.0


From 8dd40cdc94589e8e3b9f9d3ab88c6338abc735aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:33 +0000
Subject: [PATCH 20/22] fix: the term vector after that of a field without
 terms is read wrongly

fw_add_postings writes the number of offsets for every field that stores
offsets, but fr_read_term_vector read it only when there are terms, so that
fr_get_tv lost its place behind a field without terms and gave an empty
vector for the next one.
---
 c/src/index.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 50e6d94..b1e8787 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1722,6 +1722,11 @@ static TermVector *fr_read_term_vector(FieldsReader *fr, int field_num)
             }
         }
     }
+    else if (fi_store_offsets(fi)) {
+        /* the (empty) list of offsets is written for a field without terms
+         * too and the next term vector starts behind it */
+        tv->offset_cnt = is_read_vint(fdt_in);
+    }
     return tv;
 }
 
-- 
2.43.0


From 436dd7b9097fdaf4bcf1c4b95eb06aa5e8649ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:07 +0000
Subject: [PATCH 21/22] fix: a wildcard query with a long prefix overruns a
 buffer on the stack

wcq_rewrite copied everything before the first wildcard to a buffer of
MAX_WORD_SIZE bytes. No term is that long, so that such a query matches
nothing.
---
 c/src/q_wildcard.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index d46ce02..534e5fc 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -102,6 +102,10 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
                 ? first_ques : first_star;
 
             prefix_len = (int)(pattern - WCQ(self)->pattern);
+            if (prefix_len >= MAX_WORD_SIZE) {
+                /* no term is that long */
+                return q;
+            }
 
             if (prefix_len > 0) {
                 memcpy(prefix, WCQ(self)->pattern, prefix_len);
-- 
2.43.0


From 17e9ab6311f502494e3f69f9943258436552796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:07 +0000
Subject: [PATCH 22/22] fix: the boost of a wildcard, fuzzy or range query is
 lost when it is rewritten

---
 c/src/q_fuzzy.c    | 5 ++++-
 c/src/q_range.c    | 2 ++
 c/src/q_wildcard.c | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/src/q_fuzzy.c b/c/src/q_fuzzy.c
index cce8219..76c7126 100644
--- a/c/src/q_fuzzy.c
+++ b/c/src/q_fuzzy.c
@@ -189,10 +189,13 @@ static Query *fuzq_rewrite(Query *self, IndexReader *ir)
         return bq_new(true);
     }
     if (fuzq->pre_len >= (int)strlen(term)) {
-        return tq_new(fuzq->field, term);
+        q = tq_new(fuzq->field, term);
+        q->boost = self->boost;
+        return q;
     }
 
     q = multi_tq_new_conf(fuzq->field, MTQMaxTerms(self), fuzq->min_sim);
+    q->boost = self->boost;        /* set the boost */
     if (pre_len > 0) {
         prefix = ALLOC_N(char, pre_len + 1);
         strncpy(prefix, term, pre_len);
diff --git a/c/src/q_range.c b/c/src/q_range.c
index 4270909..16142dd 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -503,6 +503,7 @@ static Query *rq_rewrite(Query *self, IndexReader *ir)
                                r->include_lower, r->include_upper);
     (void)ir;
     csq = csq_new_nr(filter);
+    csq->boost = self->boost;
     ((ConstantScoreQuery *)csq)->original = self;
     csq->get_matchv_i = &rq_get_matchv_i;
     return (Query *)csq;
@@ -645,6 +646,7 @@ static Query *trq_rewrite(Query *self, IndexReader *ir)
                                 r->include_lower, r->include_upper);
     (void)ir;
     csq = csq_new_nr(filter);
+    csq->boost = self->boost;
     ((ConstantScoreQuery *)csq)->original = self;
     csq->get_matchv_i = &trq_get_matchv_i;
     return (Query *)csq;
diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index 534e5fc..1a5f25a 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -92,6 +92,7 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
     else {
         const int field_num = fis_get_field_num(ir->fis, WCQ(self)->field);
         q = multi_tq_new_conf(WCQ(self)->field, MTQMaxTerms(self), 0.0);
+        q->boost = self->boost;        /* set the boost */
 
         if (field_num >= 0) {
             TermEnum *te;
-- 
2.43.0

