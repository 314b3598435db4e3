From a267bb8c0c5cbb2aa64d8528c674bfe57fc33e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:00 +0000
Subject: [PATCH 01/10] fix: keep the more restrictive illumination state when
 merging QAI values

---
 src/modules/cross-level/quality-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/quality-cl.c b/src/modules/cross-level/quality-cl.c
index 40ba25c..28bd740 100755
--- a/src/modules/cross-level/quality-cl.c
+++ b/src/modules/cross-level/quality-cl.c
@@ -413,7 +413,7 @@ void merge_qai_from_values(brick_t *qai, int p, short qai_1, short qai_2){
 
   // Merge illumination flag
   set_illumination(qai, p, 
-    (get_illumination_from_value(qai_1) < get_illumination_from_value(qai_2)) ? 
+    (get_illumination_from_value(qai_1) > get_illumination_from_value(qai_2)) ? 
      get_illumination_from_value(qai_1) : get_illumination_from_value(qai_2));
 
   // Merge slope flag
-- 
2.43.0


From 685ef662e1e6d944d1eaf80fe2d7f567df609ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:12 +0000
Subject: [PATCH 02/10] fix: compute the NDVIre1n index under its documented
 name

The index definition and the documentation call it NDVIre1n, but the
dispatch compared with "NDVIren", so requesting it ended the program
with "There is no implementation for INDEX NDVIre1n".
---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 4750307..5c6acc2 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -1101,7 +1101,7 @@ int tsa_spectral_index(ard_t *ard, tsa_t *ts, small *mask_, int nc, int nt, int
           band_for_index(ard[0].DAT, index->band_names[idx][0]), 
           band_for_index(ard[0].DAT, index->band_names[idx][1]), 
           nc, nt, nodata);
-      } else if (strcmp(index->names[idx], "NDVIren") == 0){
+      } else if (strcmp(index->names[idx], "NDVIre1n") == 0){
         cite_me(_CITE_NDVIre1n_);
         check_nbands_for_index(index->names[idx], 2, index->n_bands[idx]);
         index_differenced(ard, mask_, ts, 
-- 
2.43.0


From 73bd374b58c7a5220c398994c376318365dfad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:05 +0000
Subject: [PATCH 03/10] fix: select a pixel also when all of its scores are -1
 or lower

For water pixels the score is derived from SWIR2 reflectance and can drop
below -1. No observation was selected in this case, and the composite was
then read from index -1.
---
 src/modules/higher-level/bap-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 7504e01..8de115d 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -726,7 +726,7 @@ double max_score = -1;
     n++;
 
     // find best score
-    if (score[t].t > max_score){
+    if (max_t < 0 || score[t].t > max_score){
       max_score = score[t].t;
       max_t = t;
     }
-- 
2.43.0


From c95b1394c264914c6e99bcd20dce00784905f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:05 +0000
Subject: [PATCH 04/10] fix: do not write the weighted composite if it was not
 requested

With OUTPUT_BST = FALSE the composite has no memory assigned, and
writing to it crashed the compositing.
---
 src/modules/higher-level/bap-hl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 8de115d..8ff0777 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -892,7 +892,9 @@ double sum_r = 0, sum_v = 0;
 
   }
 
-  for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  if (l3->bap != NULL){
+    for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  }
 
   free((void*)sum_reflection);
 
-- 
2.43.0


From c0d6efbfb6894c9985695987c3abd9f42edce800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:32 +0000
Subject: [PATCH 05/10] fix: derive tile number of a processing unit with
 integer arithmetic

Single precision cannot represent unit numbers above 2^24, which put units
on the wrong tile.
---
 src/modules/higher-level/progress-hl.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modules/higher-level/progress-hl.c b/src/modules/higher-level/progress-hl.c
index c9dba9a..a672337 100755
--- a/src/modules/higher-level/progress-hl.c
+++ b/src/modules/higher-level/progress-hl.c
@@ -188,8 +188,7 @@ void forward_processing_unit(progress_t *progress, team_t *subset){
   }
 
   subset->tile_number = 
-    floor(subset->processing_unit / 
-    (float)progress->dim_chunks.cells);
+    subset->processing_unit / progress->dim_chunks.cells;
 
   subset->tile[_X_] = progress->tiles[_X_][subset->tile_number]; 
   subset->tile[_Y_] = progress->tiles[_Y_][subset->tile_number];
-- 
2.43.0


From e1efa3b6c64883c44e9dcf570fd5a93b15cea4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:18 +0000
Subject: [PATCH 06/10] fix: crop images of all data types from the interior

Source and target positions were swapped for all types but 16bit signed
integers, which read the wrong pixels and wrote outside of the target.
---
 src/modules/cross-level/brick_base-cl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index 72e26d6..ee4f233 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -474,8 +474,8 @@ int datatype;
     case _DT_SMALL_:
       for (i=0; i<ny_; i++){
       for (j=0; j<nx_; j++){
-        p  = i*nx_+j;
-        p_ = (i+pix)*nx + (j+pix);
+        p_ = i*nx_+j;
+        p  = (i+pix)*nx + (j+pix);
         for (b=0; b<nb; b++) brick->vsmall[b][p_] = from->vsmall[b][p];
       }
       }
@@ -483,8 +483,8 @@ int datatype;
     case _DT_FLOAT_:
       for (i=0; i<ny_; i++){
       for (j=0; j<nx_; j++){
-        p  = i*nx_+j;
-        p_ = (i+pix)*nx + (j+pix);
+        p_ = i*nx_+j;
+        p  = (i+pix)*nx + (j+pix);
         for (b=0; b<nb; b++) brick->vfloat[b][p_] = from->vfloat[b][p];
       }
       }
@@ -492,8 +492,8 @@ int datatype;
     case _DT_INT_:
       for (i=0; i<ny_; i++){
       for (j=0; j<nx_; j++){
-        p  = i*nx_+j;
-        p_ = (i+pix)*nx + (j+pix);
+        p_ = i*nx_+j;
+        p  = (i+pix)*nx + (j+pix);
         for (b=0; b<nb; b++) brick->vint[b][p_] = from->vint[b][p];
       }
       }
@@ -501,8 +501,8 @@ int datatype;
     case _DT_USHORT_:
       for (i=0; i<ny_; i++){
       for (j=0; j<nx_; j++){
-        p  = i*nx_+j;
-        p_ = (i+pix)*nx + (j+pix);
+        p_ = i*nx_+j;
+        p  = (i+pix)*nx + (j+pix);
         for (b=0; b<nb; b++) brick->vushort[b][p_] = from->vushort[b][p];
       }
       }
-- 
2.43.0


From a65f7f451eba85266b878b1a1e613b8530220325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:43:51 +0000
Subject: [PATCH 07/10] fix: allow images without provenance to be copied and
 freed

The lists of texts end the program when they are allocated or freed with
zero entries. An image without recorded input images could therefore
neither be copied nor freed.
---
 src/modules/cross-level/brick_base-cl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index ee4f233..eb7d982 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -219,7 +219,7 @@ void free_brick(brick_t *brick){
   brick->wavelength  = NULL;
   brick->date        = NULL;
 
-  free_string_vector(&brick->provenance);
+  if (brick->provenance.number > 0) free_string_vector(&brick->provenance);
 
   free_string_vector(&brick->unit);
   free_string_vector(&brick->domain);
@@ -974,7 +974,7 @@ void set_brick_nprovenance(brick_t *brick, int n){
     free_string_vector(&brick->provenance);
   }
 
-  if (brick->provenance.string == NULL){
+  if (brick->provenance.string == NULL && n > 0){
     alloc_string_vector(&brick->provenance, n, 1);
   }
 
-- 
2.43.0


From 332916134f681d078f47813ef19e4039107f399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:39:58 +0000
Subject: [PATCH 08/10] fix: reject not-a-number for floating point parameters

A parameter given as 'nan' passed the range check, because every
comparison with not-a-number is false.
---
 src/modules/cross-level/param-cl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index d6ee773..a355752 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -1214,12 +1214,12 @@ int error = 0, n;
 
 
   if (par->length == NULL){
-    if (*par->float_ < par->float_range[_MIN_] ||
-        *par->float_ > par->float_range[_MAX_]) error++;
+    if (!(*par->float_ >= par->float_range[_MIN_] &&
+          *par->float_ <= par->float_range[_MAX_])) error++;
   } else {
     for (n=0; n<*par->length; n++){
-      if (par->float_vec_[0][n] < par->float_range[_MIN_] ||
-          par->float_vec_[0][n] > par->float_range[_MAX_]) error++;
+      if (!(par->float_vec_[0][n] >= par->float_range[_MIN_] &&
+            par->float_vec_[0][n] <= par->float_range[_MAX_])) error++;
     }
   }
 
@@ -1242,12 +1242,12 @@ int error = 0, n;
 
 
   if (par->length == NULL){
-    if (*par->double_ < par->double_range[_MIN_] ||
-        *par->double_ > par->double_range[_MAX_]) error++;
+    if (!(*par->double_ >= par->double_range[_MIN_] &&
+          *par->double_ <= par->double_range[_MAX_])) error++;
   } else {
     for (n=0; n<*par->length; n++){
-      if (par->double_vec_[0][n] < par->double_range[_MIN_] ||
-          par->double_vec_[0][n] > par->double_range[_MAX_]) error++;
+      if (!(par->double_vec_[0][n] >= par->double_range[_MIN_] &&
+            par->double_vec_[0][n] <= par->double_range[_MAX_])) error++;
     }
   }
 
-- 
2.43.0


From 641e86652fa35d6412d9a120a891b6884c2dbf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:05 +0000
Subject: [PATCH 09/10] fix: check all bands of a saturated pixel for void
 values

A pixel with a saturated band was not checked any further, such that a
void value in one of the following bands did not mark it as nodata, and
the temperature band was not counted.
---
 src/modules/lower-level/read-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 846ee97..478ec25 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -196,7 +196,7 @@ int tvalid = 0;
         if (b != b_cirrus && dn_[b][p] == 0){ off_[p] = true; break;}
 
         // if any (non-temp) layer saturated
-        if (b != b_temp && dn_[b][p] >= meta->sat){ set_saturation(qai, p, true); break;}
+        if (b != b_temp && dn_[b][p] >= meta->sat) set_saturation(qai, p, true);
 
         // if temperature has any non-0 value
         if (b == b_temp) tvalid++;
-- 
2.43.0


From 55ed8566017e172792296ab373fa340461526573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:05 +0000
Subject: [PATCH 10/10] fix: keep TOA reflectance within the range of the
 output data type

Reflectance above 3.2767 (low sun, saturated pixels) wrapped around to
negative values. Cap it like it is done for the brightness temperature.
---
 src/modules/lower-level/read-ll.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 478ec25..fda299d 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -397,11 +397,18 @@ float dn_scale, toa_scale;
       dn_scale  = get_brick_scale(DN,  b);
       toa_scale = get_brick_scale(TOA, b);
       
-      #pragma omp parallel shared(b, nc, dn_scale, toa_scale, dn_, toa_, meta) default(none) 
+      #pragma omp parallel private(tmp) shared(b, nc, dn_scale, toa_scale, dn_, toa_, meta) default(none) 
       {
 
         #pragma omp for schedule(static)
-        for (p=0; p<nc; p++) toa_[b][p] = (dn_[b][p] + meta->cal[b].radd) / dn_scale*toa_scale;
+        for (p=0; p<nc; p++){
+          tmp = (dn_[b][p] + meta->cal[b].radd) / dn_scale*toa_scale;
+          if (tmp < SHRT_MAX){
+            toa_[b][p] = (short)tmp;
+          } else {
+            toa_[b][p] = SHRT_MAX;
+          }
+        }
         
       }
 
@@ -461,8 +468,10 @@ float dn_scale, toa_scale;
                 toa_[b][p] = (short)nodata;
                 set_off(QAI, p, true);
               }
-            } else {
+            } else if (tmp*toa_scale < SHRT_MAX){
               toa_[b][p] = (short)(tmp*toa_scale);
+            } else {
+              toa_[b][p] = SHRT_MAX;
             }
 
           }
-- 
2.43.0

