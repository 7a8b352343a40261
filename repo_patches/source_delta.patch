From 81e419a284fe605cc394a8c07fd16afab83dbbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:56 +0000
Subject: [PATCH 01/60] fix: evaluate majority filling on an unmodified copy of
 the image

The filter read neighboring cells that other threads were filling at the
same time, so the result depended on the number of threads and on their
timing. Neighbors are now counted in a copy of the input image.
---
 src/modules/cross-level/imagefuns-cl.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index d43baa3..a6f6afd 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -239,9 +239,14 @@ int nx, ny;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int majorfill_(small *image, int nx, int ny){
 int i, j, ii, jj, ni, nj, p, k;
+small *copy = NULL;
 
 
-  #pragma omp parallel private(j, p, ii, jj, ni, nj, k) shared(nx, ny, image) default(none) 
+  // neighbors need to be evaluated on the unfilled image
+  alloc((void**)&copy, nx*ny, sizeof(small));
+  memcpy(copy, image, nx*ny*sizeof(small));
+
+  #pragma omp parallel private(j, p, ii, jj, ni, nj, k) shared(nx, ny, image, copy) default(none) 
   {
 
     #pragma omp for schedule(guided)
@@ -250,7 +255,7 @@ int i, j, ii, jj, ni, nj, p, k;
       
       p = i*nx+j;
 
-      if (image[p]) continue;
+      if (copy[p]) continue;
 
       k = 0;
 
@@ -261,7 +266,7 @@ int i, j, ii, jj, ni, nj, p, k;
         ni = i+ii; nj = j+jj;
         if (ni < 0 || ni >= ny || nj < 0 || nj >= nx) continue;
 
-        k += image[ni*nx+nj];
+        k += copy[ni*nx+nj];
 
       }
       }
@@ -273,6 +278,7 @@ int i, j, ii, jj, ni, nj, p, k;
     
   }
   
+  free((void*)copy);
 
   return SUCCESS;
 }
-- 
2.43.0


From 091079dc930c157fff00e6bbba678ce49ac00117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:31 +0000
Subject: [PATCH 02/60] fix: predict Sentinel-2 20m bands from their original
 values

The regression kernel of the resolution merge read 20m bands that were
overwritten with predictions in the same loop, so the result depended on
the number of threads and on their timing. The kernel now reads a copy of
the original bands.
---
 src/modules/lower-level/resmerge-ll.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/resmerge-ll.c b/src/modules/lower-level/resmerge-ll.c
index 89a3ab7..7434657 100755
--- a/src/modules/lower-level/resmerge-ll.c
+++ b/src/modules/lower-level/resmerge-ll.c
@@ -97,6 +97,7 @@ gsl_vector *x, **y, **c;
 gsl_multifit_linear_workspace **work;
 double chisq, est, err;
 short **toa_ = NULL;
+short **low_ = NULL;
 
 
   #ifdef FORCE_CLOCK
@@ -123,8 +124,12 @@ short **toa_ = NULL;
   // kernel size
   w = r*2+1; nw = w*w;
 
+  // keep original 20m bands, the kernel must not see values that were already predicted
+  alloc_2D((void***)&low_, nb, nx*ny, sizeof(short));
+  for (b=0; b<nb; b++) memcpy(low_[b], toa_[bands[b]], nx*ny*sizeof(short));
 
-  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,bands,green,red,bnir) default(none)
+
+  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,low_,bands,green,red,bnir) default(none)
   {
 
     /** initialize and allocate
@@ -187,7 +192,7 @@ short **toa_ = NULL;
         gsl_matrix_set(X, k, 2, toa_[red][np]/10000.0);
         gsl_matrix_set(X, k, 3, toa_[bnir][np]/10000.0);
         
-        for (b=0; b<nb; b++) gsl_vector_set(y[b], k, toa_[bands[b]][np]/10000.0);
+        for (b=0; b<nb; b++) gsl_vector_set(y[b], k, low_[b][np]/10000.0);
 
         k++;
 
@@ -228,6 +233,8 @@ short **toa_ = NULL;
 
   }
 
+  free_2D((void**)low_, nb);
+
   #ifdef FORCE_DEBUG
   set_brick_filename(TOA, "TOA-RESMERGED");
   print_brick_info(TOA); set_brick_open(TOA, OPEN_CREATE); write_brick(TOA);
-- 
2.43.0


From 1ff2c820ad1bcabcbfb98a0997186dcb68fb0d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:39 +0000
Subject: [PATCH 03/60] fix: write nodata to the NRT product where no harmonic
 is fitted

---
 src/modules/higher-level/interpolate-hl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/higher-level/interpolate-hl.c b/src/modules/higher-level/interpolate-hl.c
index 9296e96..4a2ebc5 100755
--- a/src/modules/higher-level/interpolate-hl.c
+++ b/src/modules/higher-level/interpolate-hl.c
@@ -532,6 +532,11 @@ bool model_terms[_TERM_LEN_];
     #pragma omp for
     for (p=0; p<nc; p++){
 
+      // nodata if deriving NRT failed
+      if (tsi->onrt){
+        for (k=0; k<nr; k++) ts->nrt_[k][p] = nodata;
+      }
+
       if (mask_ != NULL && !mask_[p]){
         for (i=0; i<ni; i++) ts->tsi_[i][p] = nodata;
         continue;
-- 
2.43.0


From c980cf65c424459b36248a678ac63efcd109cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:39 +0000
Subject: [PATCH 04/60] fix: write nodata to the polar coordinate products of
 masked pixels

---
 src/modules/higher-level/polar-hl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index b4db061..d23d3bd 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -357,6 +357,9 @@ float green_val, base_val;
           for (y=0; y<pol->ny; y++) ts->pol_[l][y][p] = nodata;
         }
       }
+      if (pol->opct){
+        for (i=0; i<ni; i++) ts->pcx_[i][p] = ts->pcy_[i][p] = nodata;
+      }
       
       if (mask_ != NULL && !mask_[p]) continue;
 
-- 
2.43.0


From a930662dd6268215104482e005bd272781f7d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:39 +0000
Subject: [PATCH 05/60] fix: write nodata to the unmixing residuals of masked
 pixels

---
 src/modules/higher-level/index-compute-hl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 4750307..7476678 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -576,6 +576,9 @@ gsl_vector *a   =  NULL;
 
       if (mask_ != NULL && !mask_[p]){
         for (t=0; t<nt; t++) ts->tss_[t][p] = nodata;
+        if (sma->orms){
+          for (t=0; t<nt; t++) ts->rms_[t][p] = nodata;
+        }
         continue;
       }
       
-- 
2.43.0


From 6dfe926c3e139f0c5dbfb5c2c68b79b41376a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:39 +0000
Subject: [PATCH 06/60] fix: crop all data types from the source image into the
 cropped image

The small, float, int and ushort cases of crop_brick had source and target
pixel swapped. They wrote past the end of the cropped image.
---
 src/modules/cross-level/brick_base-cl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index 72e26d6..ee4f233 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -474,8 +474,8 @@ int datatype;
     case _DT_SMALL_:
       for (i=0; i<ny_; i++){
       for (j=0; j<nx_; j++){
-        p  = i*nx_+j;
-        p_ = (i+pix)*nx + (j+pix);
+        p_ = i*nx_+j;
+        p  = (i+pix)*nx + (j+pix);
         for (b=0; b<nb; b++) brick->vsmall[b][p_] = from->vsmall[b][p];
       }
       }
@@ -483,8 +483,8 @@ int datatype;
     case _DT_FLOAT_:
       for (i=0; i<ny_; i++){
       for (j=0; j<nx_; j++){
-        p  = i*nx_+j;
-        p_ = (i+pix)*nx + (j+pix);
+        p_ = i*nx_+j;
+        p  = (i+pix)*nx + (j+pix);
         for (b=0; b<nb; b++) brick->vfloat[b][p_] = from->vfloat[b][p];
       }
       }
@@ -492,8 +492,8 @@ int datatype;
     case _DT_INT_:
       for (i=0; i<ny_; i++){
       for (j=0; j<nx_; j++){
-        p  = i*nx_+j;
-        p_ = (i+pix)*nx + (j+pix);
+        p_ = i*nx_+j;
+        p  = (i+pix)*nx + (j+pix);
         for (b=0; b<nb; b++) brick->vint[b][p_] = from->vint[b][p];
       }
       }
@@ -501,8 +501,8 @@ int datatype;
     case _DT_USHORT_:
       for (i=0; i<ny_; i++){
       for (j=0; j<nx_; j++){
-        p  = i*nx_+j;
-        p_ = (i+pix)*nx + (j+pix);
+        p_ = i*nx_+j;
+        p  = (i+pix)*nx + (j+pix);
         for (b=0; b<nb; b++) brick->vushort[b][p_] = from->vushort[b][p];
       }
       }
-- 
2.43.0


From 1e8d132677b8ae852191207c74c64d39f20f3916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:15 +0000
Subject: [PATCH 07/60] fix: address the Sentinel-2 sun and view angle grids by
 their row length

The grids are stored row by row, but the number of rows was used as row
length. Grids with a different number of rows and columns were mixed up.
---
 src/modules/lower-level/meta-ll.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/modules/lower-level/meta-ll.c b/src/modules/lower-level/meta-ll.c
index d0610a3..e4426ed 100755
--- a/src/modules/lower-level/meta-ll.c
+++ b/src/modules/lower-level/meta-ll.c
@@ -1022,18 +1022,18 @@ int svgrid = 5000;
 
           if (s){
             if (z){
-              if (strcmp(tokenptr, "NaN") !=0) s_sz[i*sv_ny+j] = atof(tokenptr);
+              if (strcmp(tokenptr, "NaN") !=0) s_sz[i*sv_nx+j] = atof(tokenptr);
             } else if (a){
-              if (strcmp(tokenptr, "NaN") !=0) s_sa[i*sv_ny+j] = atof(tokenptr);
+              if (strcmp(tokenptr, "NaN") !=0) s_sa[i*sv_nx+j] = atof(tokenptr);
             }
           } else if (v){
             if (z){
               if (strcmp(tokenptr, "NaN") !=0){
-                s_vz[b][d][i*sv_ny+j] += atof(tokenptr);
+                s_vz[b][d][i*sv_nx+j] += atof(tokenptr);
               }
             } else if (a){
               if (strcmp(tokenptr, "NaN") !=0){
-                s_va[b][d][i*sv_ny+j] += atof(tokenptr);
+                s_va[b][d][i*sv_nx+j] += atof(tokenptr);
               }
             }
           }
@@ -1081,8 +1081,8 @@ int svgrid = 5000;
   for (i=0; i<sv_ny; i++){
   for (j=0; j<sv_nx; j++){
 
-    if (s_vz[0][0][i*sv_ny+j] != meta->s2.nodata && 
-        s_va[0][0][i*sv_ny+j] != meta->s2.nodata){
+    if (s_vz[0][0][i*sv_nx+j] != meta->s2.nodata && 
+        s_va[0][0][i*sv_nx+j] != meta->s2.nodata){
       if (j < left)   left   = j;
       if (j > right)  right  = j;
       if (i < top)    top    = i;
@@ -1102,7 +1102,7 @@ int svgrid = 5000;
   //while (fmod(right*svgrid,  60) != 0 && right  < (sv_nx-2)) right++;
   //while (fmod(bottom*svgrid, 60) != 0 && bottom < (sv_nx-2)) bottom++;
   while (fmod(right*svgrid,  60) != 0 && right  < (sv_nx-1)) right++;
-  while (fmod(bottom*svgrid, 60) != 0 && bottom < (sv_nx-1)) bottom++;
+  while (fmod(bottom*svgrid, 60) != 0 && bottom < (sv_ny-1)) bottom++;
 
   if (!pl2->doreproj && !pl2->dotile){
     right  = sv_nx; left = 0;
@@ -1133,10 +1133,10 @@ int svgrid = 5000;
     ii = i+top;
     jj = j+left;
 
-    meta->s2.szen[i][j] = s_sz[ii*sv_ny+jj];
-    meta->s2.sazi[i][j] = s_sa[ii*sv_ny+jj];
-    meta->s2.vzen[i][j] = s_vz[0][0][ii*sv_ny+jj];
-    meta->s2.vazi[i][j] = s_va[0][0][ii*sv_ny+jj];
+    meta->s2.szen[i][j] = s_sz[ii*sv_nx+jj];
+    meta->s2.sazi[i][j] = s_sa[ii*sv_nx+jj];
+    meta->s2.vzen[i][j] = s_vz[0][0][ii*sv_nx+jj];
+    meta->s2.vazi[i][j] = s_va[0][0][ii*sv_nx+jj];
 
 
   }
@@ -1372,7 +1372,7 @@ float sum, num;
     for (ii=0; ii<=1; ii++){
     for (jj=0; jj<=1; jj++){
 
-      int_p = (i+ii) * int_ny + (j+jj);
+      int_p = (i+ii) * int_nx + (j+jj);
 
       if ((*int_grid)[int_p] > 0){
         sum += (*int_grid)[int_p];
-- 
2.43.0


From 1cb159c9db855b38f0bd2fecd24a2b12558011cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:14 +0000
Subject: [PATCH 08/60] fix: release the lock and close the files when writing
 an image fails

---
 src/modules/cross-level/brick_io-cl.cpp | 54 ++++++++++++++++---------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 33a57fb..eed841f 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -268,20 +268,20 @@ int write_brick(brick_t *brick){
         #endif
   
         if ((fo = GDALOpen(fname, GA_ReadOnly)) == NULL){
-          printf("Unable to open %s. ", fname); return FAILURE;}
+          printf("Unable to open %s. ", fname); goto failed;}
   
         if (GDALGetRasterCount(fo) != nbands){
           printf("Number of bands %d do not match for UPDATE/MERGE mode (file: %d). ", 
             nbands, GDALGetRasterCount(fo)); 
-          return FAILURE;}
+          goto failed;}
         if (GDALGetRasterXSize(fo) != brick->nx){
           printf("Number of cols %d do not match for UPDATE/MERGE mode (file: %d). ", 
             brick->nx, GDALGetRasterXSize(fo)); 
-          return FAILURE;}
+          goto failed;}
         if (GDALGetRasterYSize(fo) != brick->ny){
           printf("Number of rows %d do not match for UPDATE/MERGE mode (file: %d). ", 
             brick->ny, GDALGetRasterYSize(fo)); 
-          return FAILURE;}
+          goto failed;}
   
         alloc((void**)&buf, brick->nc, sizeof(float));
   
@@ -294,7 +294,7 @@ int write_brick(brick_t *brick){
   
           if (GDALRasterIO(band, GF_Read, 0, 0, brick->nx, brick->ny, buf, 
             brick->nx, brick->ny, GDT_Float32, 0, 0) == CE_Failure){
-            printf("Unable to read %s. ", fname); return FAILURE;} 
+            printf("Unable to read %s. ", fname); goto failed;} 
   
   
           for (int p=0; p<brick->nc; p++){
@@ -317,6 +317,7 @@ int write_brick(brick_t *brick){
         }
   
         GDALClose(fo);
+        fo = NULL;
   
         free((void*)buf);
   
@@ -329,10 +330,10 @@ int write_brick(brick_t *brick){
       if (brick->open == OPEN_CHUNK && fileexist(fname) && 
          (brick->chunk[_X_] > 0 || brick->chunk[_Y_] > 0)){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
-          printf("Unable to open %s. ", fname); return FAILURE;}
+          printf("Unable to open %s. ", fname); goto failed;}
       } else {
         if ((fp = GDALCreate(driver_create, fname, brick->nx, brick->ny, nbands, file_datatype, options)) == NULL){
-          printf("Error creating file %s. ", fname); return FAILURE;}
+          printf("Error creating file %s. ", fname); goto failed;}
       }
         
       if (brick->open == OPEN_CHUNK){
@@ -341,7 +342,7 @@ int write_brick(brick_t *brick){
             brick->chunk[_X_] >= brick->dim_chunk.cols || 
             brick->chunk[_Y_] >= brick->dim_chunk.rows){
           printf("attempting to write invalid chunk\n");
-          return FAILURE;
+          goto failed;
         }
         nx_write     = brick->cx;
         ny_write     = brick->cy;
@@ -367,36 +368,36 @@ int write_brick(brick_t *brick){
             if (GDALRasterIO(band, GF_Write, xoff_write, yoff_write, 
               nx_write, ny_write, brick->vshort[b_brick], 
               nx_write, ny_write, file_datatype, 0, 0) == CE_Failure){
-              printf("Unable to write %s. ", fname); return FAILURE;}
+              printf("Unable to write %s. ", fname); goto failed;}
             break;
           case _DT_SMALL_:
             if (GDALRasterIO(band, GF_Write, xoff_write, yoff_write, 
               nx_write, ny_write, brick->vsmall[b_brick], 
               nx_write, ny_write, file_datatype, 0, 0) == CE_Failure){
-              printf("Unable to write %s. ", fname); return FAILURE;} 
+              printf("Unable to write %s. ", fname); goto failed;} 
             break;
           case _DT_FLOAT_:
             if (GDALRasterIO(band, GF_Write, xoff_write, yoff_write, 
               nx_write, ny_write, brick->vfloat[b_brick], 
               nx_write, ny_write, file_datatype, 0, 0) == CE_Failure){
-              printf("Unable to write %s. ", fname); return FAILURE;} 
+              printf("Unable to write %s. ", fname); goto failed;} 
             break;
           case _DT_INT_:
             if (GDALRasterIO(band, GF_Write, xoff_write, yoff_write, 
               nx_write, ny_write, brick->vint[b_brick], 
               nx_write, ny_write, file_datatype, 0, 0) == CE_Failure){
-              printf("Unable to write %s. ", fname); return FAILURE;} 
+              printf("Unable to write %s. ", fname); goto failed;} 
             break;
           case _DT_USHORT_:
             if (GDALRasterIO(band, GF_Write, xoff_write, yoff_write, 
               nx_write, ny_write, brick->vushort[b_brick], 
               nx_write, ny_write, file_datatype, 0, 0) == CE_Failure){
-              printf("Unable to write %s. ", fname); return FAILURE;} 
+              printf("Unable to write %s. ", fname); goto failed;} 
             break;
   
           default:
             printf("unknown datatype for writing brick. ");
-            return FAILURE;
+            goto failed;
         }
   
         GDALSetDescription(band, brick->bandname.string[b_brick]);
@@ -415,7 +416,7 @@ int write_brick(brick_t *brick){
       // copy to physical file. This is needed for drivers that do not support CREATE
       if (!create){
         if ((fp_copy = GDALCreateCopy(driver_physical, fname, fp, FALSE, options, NULL, NULL)) == NULL){
-          printf("Error creating file %s. ", fname); return FAILURE;}
+          printf("Error creating file %s. ", fname); goto failed;}
         fp_finish = fp_copy;
       } else {
         fp_finish = fp;
@@ -437,7 +438,7 @@ int write_brick(brick_t *brick){
         copy_string(band_meta[i++], NPOW_14, "Wavelength");
         nchar = snprintf(band_meta[i], NPOW_14, "%.3f", brick->wavelength[b_brick]); i++;
         if (nchar < 0 || nchar >= NPOW_14){ 
-          printf("Buffer Overflow in assembling band metadata\n"); return FAILURE;}
+          printf("Buffer Overflow in assembling band metadata\n"); goto failed;}
   
         copy_string(band_meta[i++], NPOW_14, "Wavelength_unit");
         copy_string(band_meta[i++], NPOW_14, brick->unit.string[b_brick]);
@@ -445,7 +446,7 @@ int write_brick(brick_t *brick){
         copy_string(band_meta[i++], NPOW_14, "Scale");
         nchar = snprintf(band_meta[i], NPOW_14, "%.3f", brick->scale[b_brick]); i++;
         if (nchar < 0 || nchar >= NPOW_14){ 
-          printf("Buffer Overflow in assembling band metadata\n"); return FAILURE;}
+          printf("Buffer Overflow in assembling band metadata\n"); goto failed;}
   
         copy_string(band_meta[i++], NPOW_14, "Sensor");
         copy_string(band_meta[i++], NPOW_14, brick->sensor.string[b_brick]);
@@ -462,10 +463,13 @@ int write_brick(brick_t *brick){
       }
    
       if (!create) GDALClose(fp_copy);
+      fp_copy = NULL;
       GDALClose(fp);
+      fp = NULL;
   
     
       CPLUnlockFile(lock);
+      lock = NULL;
     
       // write provenance info
       if (brick->provenance.number > 0 && 
@@ -480,13 +484,13 @@ int write_brick(brick_t *brick){
   
           if ((fprov = fopen(provname, "a")) == NULL){
             printf("Unable to re-open provenance file!\n"); 
-            return FAILURE;}
+            goto failed;}
   
         } else {
   
           if ((fprov = fopen(provname, "w")) == NULL){
             printf("Unable to create provenance file!\n"); 
-            return FAILURE;}
+            goto failed;}
   
           fprintf(fprov, "%s,%s,%s,%s\n", "file", "origin", "mode", "creation");
   
@@ -502,6 +506,7 @@ int write_brick(brick_t *brick){
         fclose(fprov);
   
         CPLUnlockFile(lock);
+        lock = NULL;
   
       }
     
@@ -517,6 +522,17 @@ int write_brick(brick_t *brick){
     //CPLPopErrorHandler();
   
     return SUCCESS;
+
+
+    // close and unlock the file, or others will wait for the lock in vain
+    failed:
+
+    if (fo      != NULL) GDALClose(fo);
+    if (fp_copy != NULL) GDALClose(fp_copy);
+    if (fp      != NULL) GDALClose(fp);
+    CPLUnlockFile(lock);
+
+    return FAILURE;
   }
   
 
-- 
2.43.0


From 1946440e6723113bf1befe0877f9786e217eb6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:20 +0000
Subject: [PATCH 09/60] fix: release the lock when the datacube definition
 cannot be written

---
 src/modules/cross-level/cube-cl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index e2ba358..aa2253a 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -250,7 +250,9 @@ FILE *fp = NULL;
     if ((lock = (char*)lock_file(cube->def_path, 60)) == NULL) return FAILURE;
 
     if ((fp = fopen(cube->def_path, "w")) == NULL){
-      printf("Unable to open %s. ", cube->def_path); return FAILURE;}
+      printf("Unable to open %s. ", cube->def_path); 
+      unlock_file(lock);
+      return FAILURE;}
 
     fprintf(fp, "PROJECTION = %s\n", cube->projection);
     fprintf(fp, "ORIGIN_GEO_X = %f\n", cube->origin_geo.x);
-- 
2.43.0


From 1bbd8c7a41751714790d021e7116efec3462f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:20 +0000
Subject: [PATCH 10/60] fix: release the lock when the citation file cannot be
 written

---
 src/modules/cross-level/cite-cl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/cross-level/cite-cl.c b/src/modules/cross-level/cite-cl.c
index 59348d5..4646a34 100755
--- a/src/modules/cross-level/cite-cl.c
+++ b/src/modules/cross-level/cite-cl.c
@@ -460,6 +460,7 @@ int i;
 
   if ((_cite_fp_ = fopen(fname, "w")) == NULL){
     printf("Unable to open CITEME file!\n"); 
+    unlock_file(lock);
     return;}
 
   fprintf(_cite_fp_, "FORCE - Framework for Operational Radiometric "
-- 
2.43.0


From 22e8ede7ce3e92af1d8663348ff0122f45004ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:59 +0000
Subject: [PATCH 11/60] fix: stop when the INPUT_FEATURE parameter is rejected

The problem was printed, but processing went on and ended with success.
---
 src/modules/higher-level/param-hl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 604a62f..053363b 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1007,7 +1007,8 @@ double tol = 5e-3;
   
   if (phl->type == _HL_LSM_) parse_lsm(&phl->lsm);
 
-  if (phl->input_level1 == _INP_FTR_) parse_ftr(&phl->ftr);
+  if (phl->input_level1 == _INP_FTR_ && parse_ftr(&phl->ftr) == FAILURE){
+    printf("Compiling features failed.\n"); return FAILURE;}
 
   if (phl->input_level1 == _INP_ARD_ ||
       phl->input_level1 == _INP_QAI_) parse_quality(&phl->qai);
-- 
2.43.0


From 2f35fa9d8479b54127a75aa9dc496fca62c80490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:59 +0000
Subject: [PATCH 12/60] fix: exit with failure if the product cannot be written

force-qai-inflate and force-import-modis ignored a failed write and
ended with success.
---
 src/main/higher-level/force-qai-inflate.c | 3 ++-
 src/main/lower-level/force-import-modis.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/higher-level/force-qai-inflate.c b/src/main/higher-level/force-qai-inflate.c
index a7158f7..c39d7b3 100755
--- a/src/main/higher-level/force-qai-inflate.c
+++ b/src/main/higher-level/force-qai-inflate.c
@@ -219,7 +219,8 @@ small **qim_ = NULL;
   }
 
 
-  write_brick(QIM);
+  if (write_brick(QIM) == FAILURE){
+    printf("Writing inflated QAI failed.\n"); return FAILURE;}
 
   free_brick(QAI);
   free_brick(QIM);
diff --git a/src/main/lower-level/force-import-modis.c b/src/main/lower-level/force-import-modis.c
index 4598076..c60ac53 100755
--- a/src/main/lower-level/force-import-modis.c
+++ b/src/main/lower-level/force-import-modis.c
@@ -418,8 +418,8 @@ short nodata = -9999;
   //print_brick_info(BOA);
   //print_brick_info(QAI);
 
-  write_brick(BOA);
-  write_brick(QAI);
+  if (write_brick(BOA) == FAILURE || write_brick(QAI) == FAILURE){
+    printf("Writing product failed.\n"); return FAILURE;}
   write_modcube(args.dout, proj);
 
   free_brick(BOA);
-- 
2.43.0


From 7962854dbf91a6972bcb238655f00b6238773afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:59 +0000
Subject: [PATCH 13/60] fix: do not go on if cloud shadow detection failed

The results of shadow probability and matching were ignored, and the
missing images were used.
---
 src/modules/lower-level/cloud-ll.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/cloud-ll.c b/src/modules/lower-level/cloud-ll.c
index 83f484d..e9a73a0 100755
--- a/src/modules/lower-level/cloud-ll.c
+++ b/src/modules/lower-level/cloud-ll.c
@@ -1790,10 +1790,12 @@ small *shd_   = NULL;
       // if there is no cloud, there is no shadow
       if (ncloud > 0){
         
-        shadow_probability(pl2->nthread, nland, atc, TOA, QAI, lnd_, cld_, &spr_);
+        if (shadow_probability(pl2->nthread, nland, atc, TOA, QAI, lnd_, cld_, &spr_) == FAILURE){
+          printf("error in shadow probability module.\n"); return FAILURE;}
         free((void*)lnd_);
         
-        shadow_matching(pl2->shdprob, lowtemp, hightemp, atc, TOA, QAI, EXP, cld_, spr_, &shd_);
+        if (shadow_matching(pl2->shdprob, lowtemp, hightemp, atc, TOA, QAI, EXP, cld_, spr_, &shd_) == FAILURE){
+          printf("error in shadow matching module.\n"); return FAILURE;}
         free((void*)spr_);
 
       } else {
-- 
2.43.0


From c4dbf5bc112a2ca7119f3d0258b4538176bc1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:59 +0000
Subject: [PATCH 14/60] fix: do not go on if elevation-dependent modelling
 failed

---
 src/modules/lower-level/atmo-ll.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/lower-level/atmo-ll.c b/src/modules/lower-level/atmo-ll.c
index 458d80f..c4802ac 100755
--- a/src/modules/lower-level/atmo-ll.c
+++ b/src/modules/lower-level/atmo-ll.c
@@ -2073,7 +2073,8 @@ brick_t **L2 = NULL;
 
     /** elevation-dependent coarse-grid atmospheric modelling
     +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-    atmo_elevdep(pl2, atc, QAI, TOP);
+    if (atmo_elevdep(pl2, atc, QAI, TOP) == FAILURE){
+      printf("error in elevation-dependent atmospheric modelling.\n"); return NULL;}
     
     /** water vapor and gaseous transmittance estimation
     +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-- 
2.43.0


From befb45ac342ee6aa69f44c322d76d3d38fffe14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:59 +0000
Subject: [PATCH 15/60] fix: stop if the EQUI7 tile dictionary cannot be
 written

The released datacubes were used further.
---
 src/modules/lower-level/equi7-ll.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/lower-level/equi7-ll.c b/src/modules/lower-level/equi7-ll.c
index 469dd72..fcc21c6 100755
--- a/src/modules/lower-level/equi7-ll.c
+++ b/src/modules/lower-level/equi7-ll.c
@@ -351,6 +351,7 @@ int nchar;
       if (write_equi7dict(cube, abbr7[c]) == FAILURE){
         printf("writing EQUI7 tile translation failed.\n"); 
         free_multicube(multicube);
+        return NULL;
       }
 
       if (write_datacube_def(cube) == FAILURE){
-- 
2.43.0


From f7228474aef37fd409be262257a54f74fed82545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:26 +0000
Subject: [PATCH 16/60] fix: sum up the data read and written over all
 processing units

Without streaming, only the last unit was counted, so that a run with
an empty last unit was reported, and with FAIL_IF_EMPTY failed, as if
it had no input or output at all.
---
 src/modules/higher-level/tasks-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 5cf6e91..97e344b 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -116,7 +116,7 @@ off_t bytes = 0;
   }
 
 
-  *ibytes = bytes;
+  *ibytes += bytes;
 
   measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
 
@@ -317,7 +317,7 @@ int o;
   free((void*)OUTPUT[pu]);
   OUTPUT[pu] = NULL;
 
-  *obytes = bytes;
+  *obytes += bytes;
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TOCK_);
 
-- 
2.43.0


From a5c5e0daace89d20d22fe5f4ab88356ea434baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:40 +0000
Subject: [PATCH 17/60] fix: report failed processing units in the exit status

force-higher-level ignored products that could not be written, counted
them as written, and ended with success. Failures while reading,
computing and writing are now counted, and the program exits with
failure if there were any.
---
 src/main/higher-level/force-higher-level.c |  6 +++++
 src/modules/higher-level/progress-hl.h     |  1 +
 src/modules/higher-level/tasks-hl.c        | 26 +++++++++++++---------
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/main/higher-level/force-higher-level.c b/src/main/higher-level/force-higher-level.c
index 25e2ebc..4f06921 100755
--- a/src/main/higher-level/force-higher-level.c
+++ b/src/main/higher-level/force-higher-level.c
@@ -242,6 +242,12 @@ int         exit_code = SUCCESS;
 
   exit_code = handle_no_io(ibytes, obytes, phl);
 
+  if (pro.errors[_TASK_INPUT_] + pro.errors[_TASK_COMPUTE_] + pro.errors[_TASK_OUTPUT_] > 0){
+    printf("%d reading, %d computing, and %d writing errors.\n", 
+      pro.errors[_TASK_INPUT_], pro.errors[_TASK_COMPUTE_], pro.errors[_TASK_OUTPUT_]);
+    exit_code = FAILURE;
+  }
+
   cite_push(phl->d_higher);
 
 
diff --git a/src/modules/higher-level/progress-hl.h b/src/modules/higher-level/progress-hl.h
index 9156944..c62d780 100755
--- a/src/modules/higher-level/progress-hl.h
+++ b/src/modules/higher-level/progress-hl.h
@@ -71,6 +71,7 @@ typedef struct {
   dim_t dim_chunks; // chunk layout is rectangular
   int n_processing_units; // # of tiles x chunks
   float done;
+  int errors[_TASK_LENGTH_]; // # of failures per task
   int pretty_progress;
 } progress_t;
 
diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 97e344b..185e1e6 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -72,6 +72,7 @@ off_t bytes = 0;
     if (mask_status == FAILURE){
       printf("error reading mask tile X%04d_Y%04d chunk X:%d Y:%d.\n", 
         tile[_X_], tile[_Y_], chunk[_X_], chunk[_Y_]);
+      pro->errors[_TASK_INPUT_]++;
     } else if (mask_status == CANCEL){
       //printf("no mask data. skip chunk.\n");
     }
@@ -93,6 +94,7 @@ off_t bytes = 0;
   if (ARD1[pu] == NULL && nt1[pu] < 0){
     printf("error reading data from tile X%04d_Y%04d chunk X:%d Y:%d.\n", 
       tile[_X_], tile[_Y_], chunk[_X_], chunk[_Y_]);
+    pro->errors[_TASK_INPUT_]++;
     measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
     return;
   }
@@ -111,6 +113,7 @@ off_t bytes = 0;
   if (ARD2[pu] == NULL && nt2[pu] < 0){
     printf("error reading secondary data from tile X%04d_Y%04d chunk X:%d Y:%d.\n", 
       tile[_X_], tile[_Y_], chunk[_X_], chunk[_Y_]);
+    pro->errors[_TASK_INPUT_]++;
     measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
     return;
   }
@@ -161,8 +164,6 @@ bool error = false;
     if (phl->input_level1 == _INP_ARD_ || phl->input_level1 == _INP_QAI_){
       if (screen_noise(ARD1[pu], nt1[pu], MASK[pu], &phl->qai) == FAILURE) error = true;
     }
-  } else {
-    error = true;
   }
 
   if (nt2[pu] > 0){
@@ -173,12 +174,14 @@ bool error = false;
   }
 
 
-  if (!error && phl->input_level1 == _INP_ARD_){
+  if (!error && nt1[pu] > 0 && phl->input_level1 == _INP_ARD_){
     if (spectral_adjust(ARD1[pu], MASK[pu], nt1[pu], phl) == FAILURE) error = true;
   }
 
 
-  if (!error){
+  if (error) pro->errors[_TASK_COMPUTE_]++;
+
+  if (!error && nt1[pu] > 0){
 
     switch (phl->type){
       case _HL_BAP_:
@@ -255,7 +258,7 @@ void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int
 char dname[NPOW_10]; 
 int nchar;
 char *lock = NULL;
-bool error = false;
+int error = 0;
 off_t bytes = 0;
 int o;
 
@@ -277,10 +280,10 @@ int o;
 
   if ((lock = (char*)CPLLockFile(dname, 60)) == NULL){
     printf("Unable to lock directory %s (timeout: %ds). ", dname, 60);
-    error = true;
+    error++;
   }
 
-  if (!error){
+  if (error == 0){
 
     createdir(dname);
     CPLUnlockFile(lock);
@@ -288,7 +291,7 @@ int o;
 
     omp_set_num_threads(phl->othread);
   
-    #pragma omp parallel shared(OUTPUT,pu,nprod,phl) reduction(+: bytes) default(none)
+    #pragma omp parallel shared(OUTPUT,pu,nprod,phl) reduction(+: bytes, error) default(none)
     {
 
       CPLPushErrorHandler(CPLQuietErrorHandler);
@@ -298,8 +301,10 @@ int o;
       for (o=0; o<nprod[pu]; o++){
         if (phl->radius > 0) OUTPUT[pu][o] = crop_brick(
           OUTPUT[pu][o], phl->radius);
-        write_brick(OUTPUT[pu][o]);
-        if (OUTPUT[pu][o] != NULL && 
+        if (write_brick(OUTPUT[pu][o]) == FAILURE){
+          printf("Writing product failed.\n");
+          error++;
+        } else if (OUTPUT[pu][o] != NULL && 
             get_brick_open(OUTPUT[pu][o]) != OPEN_FALSE){
             bytes += get_brick_size(OUTPUT[pu][o]);
         }
@@ -318,6 +323,7 @@ int o;
   OUTPUT[pu] = NULL;
 
   *obytes += bytes;
+  pro->errors[_TASK_OUTPUT_] += error;
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TOCK_);
 
-- 
2.43.0


From 4702e3042369a603af08a7c2b3282ac0823407d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:50 +0000
Subject: [PATCH 18/60] fix: compute the y coordinate of an image row downwards

Row coordinates were counted upwards from the upper left corner. The
sampling module therefore found no sample in any chunk, and the corner
of cropped Sentinel-2 images was misplaced.
---
 src/modules/cross-level/brick_base-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index ee4f233..9e2454c 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -1657,7 +1657,7 @@ double get_brick_uly(brick_t *brick){
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 double get_brick_y(brick_t *brick, int i){
 
-  return (brick->geotran[_GT_ULY_] + i*brick->geotran[_GT_RES_]);
+  return (brick->geotran[_GT_ULY_] - i*brick->geotran[_GT_RES_]);
 }
 
 
-- 
2.43.0


From 6c472f6b674275244239505f769bbe755814f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:50 +0000
Subject: [PATCH 19/60] fix: report a failed reconstruction in the shadow
 probability

The incomplete result was used if the queue of the greyscale
reconstruction ran full.
---
 src/modules/lower-level/cloud-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/cloud-ll.c b/src/modules/lower-level/cloud-ll.c
index e9a73a0..8f9a079 100755
--- a/src/modules/lower-level/cloud-ll.c
+++ b/src/modules/lower-level/cloud-ll.c
@@ -840,7 +840,7 @@ char domains[2][NPOW_10] = { "NIR", "SWIR1" };
       }
       }
 
-      greyscale_reconstruction_(mask_, marker_, nx, ny);
+      if (greyscale_reconstruction_(mask_, marker_, nx, ny) == FAILURE){ err++; continue;}
       for (p=0; p<nc; p++) marker_[p]  -= mask_[p];
 
     }
-- 
2.43.0


From 00826c1300811e362e3932508130dba49bdd646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:59 +0000
Subject: [PATCH 20/60] fix: read the right columns of neighbouring chunks

When a tile has several chunks side by side, the last columns of a chunk
were always taken from the first chunk of the row.
---
 src/modules/higher-level/read-ard-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/read-ard-hl.c b/src/modules/higher-level/read-ard-hl.c
index 3d7f226..eab44c2 100755
--- a/src/modules/higher-level/read-ard-hl.c
+++ b/src/modules/higher-level/read-ard-hl.c
@@ -997,7 +997,7 @@ double tol = 5e-3;
 
   if (fabs(partial_x) > tol){
     width = fabs(partial_x);
-    if (partial_x < 0) x_offset = chunk_size[_X_]+partial_x;
+    if (partial_x < 0) x_offset = x_offset+chunk_size[_X_]+partial_x;
   }
   
   if (fabs(partial_y) > tol){
-- 
2.43.0


From 2def25c41e08936bde024c82290acc7af625b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:39 +0000
Subject: [PATCH 21/60] fix: estimate ozone at the position of the coarse cell

Rows and columns were exchanged, so the coordinates were wrong if the
coarse grid is not square.
---
 src/modules/lower-level/atmo-ll.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/atmo-ll.c b/src/modules/lower-level/atmo-ll.c
index c4802ac..a31a7d7 100755
--- a/src/modules/lower-level/atmo-ll.c
+++ b/src/modules/lower-level/atmo-ll.c
@@ -690,8 +690,8 @@ double lon, lat;
   #endif
   
   
-  ne = get_brick_ncols(atc->xy_mod);
-  nf = get_brick_nrows(atc->xy_mod);
+  nf = get_brick_ncols(atc->xy_mod);
+  ne = get_brick_nrows(atc->xy_mod);
   nb = get_brick_nbands(atc->xy_mod);
 
   #pragma omp parallel private(g, b, ms, mv, psi, Hr, doy, lon, lat, ozone, dem) shared(nb, ne, nf, meta, atc, pl2, QAI, TOP) default(none) 
-- 
2.43.0


From 676de85327e84b2ea352d7687eed6a581d5a7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:56 +0000
Subject: [PATCH 22/60] fix: assign points on a tile border to the tile that
 starts there

Right of and below the origin, such points were given to the previous
tile, with a pixel number outside of this tile. Samples on these lines
were never extracted.
---
 src/modules/cross-level/cube-cl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index aa2253a..d0a2ad3 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -445,7 +445,7 @@ int px = 0, py = 0;
   if (x > tx){
 
     // shift tile-x to the right until x is left of tile-x
-    while (x > tx){
+    while (x >= tx){
       tx += cube->tile_size[_X_];
       px++;
     }
@@ -468,7 +468,7 @@ int px = 0, py = 0;
   if (y < ty){
 
     // shift tile-y to the bottom until y is above tile-y
-    while (y < ty){
+    while (y <= ty){
       ty -= cube->tile_size[_Y_];
       py++;
     }
-- 
2.43.0


From 6976de6acc96bad15b19f6f85a33c651bea3296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:31 +0000
Subject: [PATCH 23/60] fix: write nodata to masked pixels of improved
 continuous fields

Masked pixels kept the value zero, or received the coarse value in years
without high-resolution data.
---
 src/modules/higher-level/cf-improphe-hl.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index 371e522..b77ed6e 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -265,10 +265,16 @@ bool is_empty;
     if (is_empty){
 
       for (f=0; f<ncf; f++){
-        #pragma omp parallel shared(cfi,cf,nc,y,f,b_cf) default(none)
+        #pragma omp parallel shared(mask_,cfi,cf,nc,y,f,cf_nodata,b_cf) default(none)
         {
           #pragma omp for
-          for (p=0; p<nc; p++) cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
+          for (p=0; p<nc; p++){
+            if (mask_ != NULL && !mask_[p]){
+              cfi.imp_[f][y][p] = cf_nodata;
+            } else {
+              cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
+            }
+          }
         }
       }
 
@@ -321,6 +327,7 @@ bool is_empty;
             //cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
             cf_[f][p] = cf_nodata;
           } else {
+            pred_[f][p] = cf_nodata;
             cf_[f][p] = cf[f].dat[b_cf][p];
           }
         }
@@ -344,10 +351,10 @@ bool is_empty;
 
         p = i*nx+j;
 
-        if (cf_[0][p] == cf_nodata) continue;
-
-        improphe(ard_, ard_tex_, cf_, cf_tex_, pred_, KDIST, ard_nodata, cf_nodata, i, j, p, 
-          nx, ny, phl->imp.ksize, npc, ncf, nk, mink);
+        if (cf_[0][p] != cf_nodata){
+          improphe(ard_, ard_tex_, cf_, cf_tex_, pred_, KDIST, ard_nodata, cf_nodata, i, j, p, 
+            nx, ny, phl->imp.ksize, npc, ncf, nk, mink);
+        }
 
         for (f=0; f<ncf; f++) cfi.imp_[f][y][p] = pred_[f][p];
 
-- 
2.43.0


From 26277c976fc3da5ffb24ec9040f52937d35b9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:31 +0000
Subject: [PATCH 24/60] fix: predict the remaining years after a year without
 data

Continuous field ImproPhe returned at the first year without
high-resolution data and left all later years empty. It also lost the
seasonal averages of that year.
---
 src/modules/higher-level/cf-improphe-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index b77ed6e..b7112e4 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -278,8 +278,8 @@ bool is_empty;
         }
       }
 
-      *nproduct = nprod;
-      return CFI;
+      free_2D((void**)seasonal_avg_, phl->imp.nwin*nb_ard);
+      continue;
 
     }
 
-- 
2.43.0


From 2742e20cc9edcdb7cfb4c8fb6359f5e00d8b263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:31 +0000
Subject: [PATCH 25/60] fix: write nodata to masked pixels of Level 2 ImproPhe
 without target data

---
 src/modules/higher-level/l2-improphe-hl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/l2-improphe-hl.c b/src/modules/higher-level/l2-improphe-hl.c
index 5bf0e40..6215a37 100755
--- a/src/modules/higher-level/l2-improphe-hl.c
+++ b/src/modules/higher-level/l2-improphe-hl.c
@@ -217,11 +217,15 @@ bool is_empty;
   if (is_empty){
     
     for (t=0; t<nt_mr; t++){
-      #pragma omp parallel private(b) shared(l2i,ard_mr,nc,nb_mr,t) default(none)
+      #pragma omp parallel private(b) shared(mask_,l2i,ard_mr,nc,nb_mr,t,nodata) default(none)
       {
         #pragma omp for
         for (p=0; p<nc; p++){
-          for (b=0; b<nb_mr; b++) l2i.imp_[t][b][p] = ard_mr[t].dat[b][p];
+          if (mask_ != NULL && !mask_[p]){
+            for (b=0; b<nb_mr; b++) l2i.imp_[t][b][p] = nodata;
+          } else {
+            for (b=0; b<nb_mr; b++) l2i.imp_[t][b][p] = ard_mr[t].dat[b][p];
+          }
         }
       }
     }
-- 
2.43.0


From 1b689b4076864b982c175c4050d46ff55bb85152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:31 +0000
Subject: [PATCH 26/60] fix: release the seasonal averages of Level 2 ImproPhe
 without target data

---
 src/modules/higher-level/l2-improphe-hl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/higher-level/l2-improphe-hl.c b/src/modules/higher-level/l2-improphe-hl.c
index 6215a37..c1c046c 100755
--- a/src/modules/higher-level/l2-improphe-hl.c
+++ b/src/modules/higher-level/l2-improphe-hl.c
@@ -230,6 +230,8 @@ bool is_empty;
       }
     }
 
+    free_2D((void**)seasonal_avg_, phl->imp.nwin*nb_hr);
+    free((void*)l2i.imp_);
     *nproduct = nprod;
     return L2I;
 
-- 
2.43.0


From dc453d961e84f658f0e86b4dd4b61d140e758d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:31 +0000
Subject: [PATCH 27/60] fix: release the tie points when too few are left

---
 src/modules/lower-level/coreg-ll.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/coreg-ll.c b/src/modules/lower-level/coreg-ll.c
index 449f316..c671a91 100755
--- a/src/modules/lower-level/coreg-ll.c
+++ b/src/modules/lower-level/coreg-ll.c
@@ -1177,7 +1177,14 @@ double mean_residual, fitting_rmse;
   }
   }
   
-  if (ntie < MIN_TIES_NUM) return ntie;
+  if (ntie < MIN_TIES_NUM){
+    free(target_i);
+    free(target_j);
+    free(base_i);
+    free(base_j);
+    free(residuals);
+    return ntie;
+  }
 
 
   base_i_   = base_i;
@@ -1231,7 +1238,14 @@ double mean_residual, fitting_rmse;
 
   // refit transformation
   ntie -= nout;
-  if (ntie < MIN_TIES_NUM) return ntie;
+  if (ntie < MIN_TIES_NUM){
+    free(target_i);
+    free(target_j);
+    free(base_i);
+    free(base_j);
+    free(residuals);
+    return ntie;
+  }
 
   switch (transform){
   case enum_TRANSLATION:
-- 
2.43.0


From dd0f479b9db37cd14068a453b83b5335de38fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:13 +0000
Subject: [PATCH 28/60] fix: release the outline of each tile when tabulating
 the grid

---
 src/main/aux-level/force-tabulate-grid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/aux-level/force-tabulate-grid.c b/src/main/aux-level/force-tabulate-grid.c
index f970479..1356d8f 100755
--- a/src/main/aux-level/force-tabulate-grid.c
+++ b/src/main/aux-level/force-tabulate-grid.c
@@ -311,6 +311,7 @@ cube_t *cube = NULL;
     OGR_G_SetPoint_2D(ring, 3, left,  bottom);
     OGR_G_SetPoint_2D(ring, 4, left,  top);
     OGR_G_AddGeometry(poly, ring);
+    OGR_G_DestroyGeometry(ring);
     OGR_F_SetGeometry(feature, poly);
     OGR_G_DestroyGeometry(poly);
 
-- 
2.43.0


From 5532183c6c4ebc188ca8edc246a880d7bf714909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:13 +0000
Subject: [PATCH 29/60] fix: use all bands for the shadow probability with a
 single thread

The result of a band was merged after the loop over bands, such that a
thread that processed several bands only contributed its last one.
---
 src/modules/lower-level/cloud-ll.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules/lower-level/cloud-ll.c b/src/modules/lower-level/cloud-ll.c
index 8f9a079..4773a7c 100755
--- a/src/modules/lower-level/cloud-ll.c
+++ b/src/modules/lower-level/cloud-ll.c
@@ -843,13 +843,13 @@ char domains[2][NPOW_10] = { "NIR", "SWIR1" };
       if (greyscale_reconstruction_(mask_, marker_, nx, ny) == FAILURE){ err++; continue;}
       for (p=0; p<nc; p++) marker_[p]  -= mask_[p];
 
-    }
-
-    #pragma omp critical
-    {
-      for (p=0; p<nc; p++){
-        if (marker_[p] < spr_[p]) spr_[p] = marker_[p];
+      #pragma omp critical
+      {
+        for (p=0; p<nc; p++){
+          if (marker_[p] < spr_[p]) spr_[p] = marker_[p];
+        }
       }
+
     }
 
     free((void*)mask_);
-- 
2.43.0


From cba849bc99de2bed16271afa6b8a92ceec75ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:48 +0000
Subject: [PATCH 30/60] fix: free the land mask of fully cloudy images

The branch for images without clear pixels freed all cloud masks but this one.
---
 src/modules/lower-level/cloud-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/cloud-ll.c b/src/modules/lower-level/cloud-ll.c
index 4773a7c..42f1371 100755
--- a/src/modules/lower-level/cloud-ll.c
+++ b/src/modules/lower-level/cloud-ll.c
@@ -1829,7 +1829,7 @@ small *shd_   = NULL;
     alloc((void**)&shd_, nc, sizeof(small));
 
     for (p=0; p<nc; p++){ cld_[p] = pcp_[p]; shd_[p] = true;}
-    free((void*)pcp_); free((void*)clr_); free((void*)brt_); free((void*)var_);
+    free((void*)pcp_); free((void*)clr_); free((void*)lnd_); free((void*)brt_); free((void*)var_);
 
     atc->cc = finalize_cloud(pl2, npix, atc, TOA, QAI, DEM, cld_, shd_);
     atc->cc = 100;
-- 
2.43.0


From dfe6f562a1c9b5dcb7f86ce224abc91d77afe93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:48 +0000
Subject: [PATCH 31/60] fix: free the granule tables when no MODIS granule
 matches

The list of intersecting granules leaked for every coordinate without
coverage, and the granule tables leaked on days without valid granules.
---
 src/modules/lower-level/modwvp-ll.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/modwvp-ll.c b/src/modules/lower-level/modwvp-ll.c
index 83b36c9..095a233 100755
--- a/src/modules/lower-level/modwvp-ll.c
+++ b/src/modules/lower-level/modwvp-ll.c
@@ -576,7 +576,12 @@ const char *separator = ",";
   #endif
 
   // if no granule is valid, return
-  if (nv == 0){ *avg = average; *count = ctrall; return;}
+  if (nv == 0){
+    free_3D((void***)gr, NPOW_10, 2);
+    free_2D((void**)id, NPOW_10);
+    free((void*)v);
+    CSLDestroy(sdsopenoptions);
+    *avg = average; *count = ctrall; return;}
 
 
   // do for each requested coordinate
@@ -590,7 +595,7 @@ const char *separator = ",";
 
     // get intersecting granules
     if ((ni = modis_intersect(COO[1][c], COO[0][c], gr, v, 
-                                  nl, nv, &ptr)) < 1) continue;
+                                  nl, nv, &ptr)) < 1){ free((void*)ptr); continue;}
 
     #ifdef FORCE_DEBUG
     printf("requested box: UL %.2f/%.2f, LR %.2f/%.2f\n", wlon, nlat, elon, slat);
-- 
2.43.0


From 70c9013510db1180d874ab5ba063994531567ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:54 +0000
Subject: [PATCH 32/60] fix: replace_string does nothing when the pattern does
 not occur

The working buffer leaked when nothing was found, and a source that is
shorter than the pattern ended the program because of an unsigned underflow.
---
 src/modules/cross-level/string-cl.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules/cross-level/string-cl.c b/src/modules/cross-level/string-cl.c
index 22faad1..226ec0e 100755
--- a/src/modules/cross-level/string-cl.c
+++ b/src/modules/cross-level/string-cl.c
@@ -130,6 +130,12 @@ size_t suffix_len;
   //printf("length search:  %lu\n", search_len);
   //printf("length replace: %lu\n", replace_len);
 
+  // search for pattern
+  match = strstr(source, search);
+
+  // no match, stop
+  if (match == NULL) return;
+
   if (source_len - search_len + replace_len >= buffer_len){
     printf("Error: Insufficient buffer size for replacing.\n");
     exit(1);
@@ -138,12 +144,6 @@ size_t suffix_len;
   alloc((void**)&buffer, buffer_len, sizeof(char**));
   insert_point = buffer;
 
-  // search for pattern
-  match = strstr(source, search);
-
-  // no match, stop
-  if (match == NULL) return;
-
   // length before match
   prefix_len = match - source;
 
-- 
2.43.0


From 2355be2d87c2977f5d35c334d4c576273afdb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:54 +0000
Subject: [PATCH 33/60] fix: bound the first word read from parameter files

A first word longer than the buffer overwrote the stack.
---
 src/modules/aux-level/param-train-aux.c | 2 +-
 src/modules/higher-level/param-hl.c     | 2 +-
 src/modules/lower-level/param-ll.c      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/aux-level/param-train-aux.c b/src/modules/aux-level/param-train-aux.c
index 907fd7d..c8874c0 100755
--- a/src/modules/aux-level/param-train-aux.c
+++ b/src/modules/aux-level/param-train-aux.c
@@ -121,7 +121,7 @@ float sum = 0.0, tol=0.01;
   if ((fpar = fopen(train->f_par, "r")) == NULL){
     printf("Unable to open parameter file!\n"); return FAILURE;}
 
-  if (fscanf(fpar, "%s", buffer) < 0){
+  if (fscanf(fpar, "%65535s", buffer) < 0){
     printf("No valid parameter file!\n"); return FAILURE;}
 
 
diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 053363b..e96956b 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -850,7 +850,7 @@ double tol = 5e-3;
   if ((fpar = fopen(phl->f_par, "r")) == NULL){
     printf("Unable to open parameter file!\n"); return FAILURE;}
 
-  if (fscanf(fpar, "%s", buffer) < 0){
+  if (fscanf(fpar, "%65535s", buffer) < 0){
     printf("No valid parameter file!\n"); return FAILURE;}
 
 
diff --git a/src/modules/lower-level/param-ll.c b/src/modules/lower-level/param-ll.c
index c2c4f69..4eb6870 100755
--- a/src/modules/lower-level/param-ll.c
+++ b/src/modules/lower-level/param-ll.c
@@ -198,7 +198,7 @@ char  bname[NPOW_10] = "\0";
     printf("Unable to open parameter file!\n"); return FAILURE;}
 
   // check
-  if (fscanf(fpar, "%s", buffer) < 0){
+  if (fscanf(fpar, "%65535s", buffer) < 0){
     printf("Cannot scan parameter file!\n"); return FAILURE;}
     
   // check
-- 
2.43.0


From a5c2af2c0fbb5e63f550fb2dae21bda38c25a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:54 +0000
Subject: [PATCH 34/60] fix: do not read beyond dates that are too short

A date like '2020' took month and day from the text that follows it.
---
 src/modules/cross-level/param-cl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index d6ee773..1b7daa3 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -99,11 +99,15 @@ int y, m, d;
 date_t date;
 
 
+  init_date(&date);
+
+  // too short to be a date, the empty date is out of any range
+  if (strlen(str) < 10) return date;
+
   strncpy(cy, str,   4); cy[4] = '\0'; y = atoi(cy);
   strncpy(cm, str+5, 2); cm[2] = '\0'; m = atoi(cm);
   strncpy(cd, str+8, 2); cd[2] = '\0'; d = atoi(cd);
 
-  init_date(&date);
   set_date(&date, y, m, d);
 
   return date;
-- 
2.43.0


From 9b5318c3704b01287c8eb9e0fcbb919f4ede3998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:54 +0000
Subject: [PATCH 35/60] fix: terminate the separator of printed and logged
 parameter vectors

A single character without terminator was printed as text.
---
 src/modules/cross-level/param-cl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index 1b7daa3..cb37296 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -929,7 +929,7 @@ const char *separator = " =";
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void print_parameter(params_t *params){
 int i, n;
-char eol[1];
+char eol[2] = "";
 
 
   printf("Parameter printout:\n");
@@ -1023,7 +1023,7 @@ void log_parameter(params_t *params){
 int i, n;
 char *cur = params->log;
 char *const end = params->log + NPOW_14;
-char eol[1];
+char eol[2] = "";
 
 
   for (i=0; i<params->n; i++){
-- 
2.43.0


From d081783621e22d34856938392435ff3361d7c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:54 +0000
Subject: [PATCH 36/60] fix: null-terminate the option lists for vector warping
 and rasterizing

GDAL reads such a list up to its null pointer, which was not there.
---
 src/modules/cross-level/vector-cl.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/modules/cross-level/vector-cl.c b/src/modules/cross-level/vector-cl.c
index f4dd81d..bafc37d 100755
--- a/src/modules/cross-level/vector-cl.c
+++ b/src/modules/cross-level/vector-cl.c
@@ -68,9 +68,8 @@ GDALVectorTranslateOptions *translate_options = NULL;
   }
 
   // prepare the translation options
-  alloc_2D((void***)&options, 2, 1024, sizeof(char));
-  copy_string(options[0], NPOW_10, "-t_srs");
-  copy_string(options[1], NPOW_10, destination_proj);
+  options = CSLAddString(options, "-t_srs");
+  options = CSLAddString(options, destination_proj);
   translate_options = GDALVectorTranslateOptionsNew(options, NULL);
 
   // warp the dataset
@@ -80,7 +79,7 @@ GDALVectorTranslateOptions *translate_options = NULL;
   }
 
   // cleanup
-  free_2D((void**)options, 2);
+  CSLDestroy(options);
   GDALVectorTranslateOptionsFree(translate_options);
   GDALClose(input_dataset);
 
@@ -145,9 +144,8 @@ small *brick_band = NULL;
   GDALSetProjection(raster_dataset, destination_proj);
 
   // Prepare rasterization options
-  alloc_2D((void***)&options, 2, 1024, sizeof(char));
-  copy_string(options[0], NPOW_10, "-burn");
-  copy_string(options[1], NPOW_10, "1");
+  options = CSLAddString(options, "-burn");
+  options = CSLAddString(options, "1");
   rasterize_options = GDALRasterizeOptionsNew(options, NULL);
 
   // Perform rasterization
@@ -165,7 +163,7 @@ small *brick_band = NULL;
   }
 
   // cleanup
-  free_2D((void**)options, 2);
+  CSLDestroy(options);
   GDALRasterizeOptionsFree(rasterize_options);
   GDALClose(output_dataset);
 
-- 
2.43.0


From 94d40a8aa910196afd062395483024c7e705755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:12 +0000
Subject: [PATCH 37/60] fix: do not look in front of empty paths when stripping
 slashes

For an empty path, or one made of slashes only, the characters in front of
the path were inspected and overwritten.
---
 src/modules/cross-level/dir-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/dir-cl.c b/src/modules/cross-level/dir-cl.c
index b6bfc5f..e02e64d 100755
--- a/src/modules/cross-level/dir-cl.c
+++ b/src/modules/cross-level/dir-cl.c
@@ -278,7 +278,7 @@ char *start;
   plen = strlen(path);
 
   // Strip trailing slashes if any
-  while (path[plen-1] == '/'){
+  while (plen > 0 && path[plen-1] == '/'){
     path[plen-1] = '\0';
     plen--;
   }
-- 
2.43.0


From 466abee2ebb639a46a1d0ff655878000f13c0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:57 +0000
Subject: [PATCH 38/60] fix: give the secondary sensors a target sensor and
 product types

The low resolution sensors of the L2IMP submodule had no target sensor and
no product types. Every L2IMP run stopped with "Compiling secondary sensors
failed".
---
 src/modules/higher-level/param-hl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index e96956b..bbca090 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -989,7 +989,12 @@ double tol = 5e-3;
        phl->input_level1 == _INP_ARD_) &&
     retrieve_sensor(&phl->sen) != SUCCESS){
     printf("Compiling sensors failed.\n"); return FAILURE;}
-    
+
+  // secondary sensors share the product definition of the primary sensors
+  phl->sen2.target          = phl->sen.target;
+  phl->sen2.main_product    = phl->sen.main_product;
+  phl->sen2.quality_product = phl->sen.quality_product;
+
   if ((phl->input_level2 == _INP_QAI_ ||
        phl->input_level2 == _INP_ARD_) &&
     retrieve_sensor(&phl->sen2) != SUCCESS){
-- 
2.43.0


From 6be17a9f097901abe1a174872b234a3fa6bcc8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:57 +0000
Subject: [PATCH 39/60] fix: reject endmember numbers that do not exist

SMA_ENDMEMBER is documented as a number between 1 and the number of
endmembers. Zero and too large numbers were accepted and aborted the
program during the unmixing.
---
 src/modules/higher-level/param-hl.c      | 2 +-
 src/modules/higher-level/read-aux-hl.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index bbca090..777ea2f 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -200,7 +200,7 @@ void register_tsa(params_t *params, par_hl_t *phl){
   register_bool_par(params, "SMA_SUM_TO_ONE", &phl->tsa.sma.sto);
   register_bool_par(params, "SMA_NON_NEG",    &phl->tsa.sma.pos);
   register_bool_par(params, "SMA_SHD_NORM",   &phl->tsa.sma.shn);
-  register_int_par(params,  "SMA_ENDMEMBER",  0, INT_MAX, &phl->tsa.sma.emb);
+  register_int_par(params,  "SMA_ENDMEMBER",  1, INT_MAX, &phl->tsa.sma.emb);
   register_bool_par(params, "OUTPUT_RMS",     &phl->tsa.sma.orms);
 
   // interpolation parameters
diff --git a/src/modules/higher-level/read-aux-hl.cpp b/src/modules/higher-level/read-aux-hl.cpp
index 4cabf27..7ba6d5a 100755
--- a/src/modules/higher-level/read-aux-hl.cpp
+++ b/src/modules/higher-level/read-aux-hl.cpp
@@ -67,6 +67,11 @@ float scale = 10000.0;
   print_table(&aux->endmember, false, false);
   #endif
   
+  if (phl->tsa.sma.emb > aux->endmember.ncol){
+    printf("SMA_ENDMEMBER (%d) exceeds the number of endmembers (%d).\n", phl->tsa.sma.emb, aux->endmember.ncol);
+    return FAILURE;
+  }
+
   if (aux->endmember.nrow != phl->sen.n_bands){
     printf("Endmember spectra (%d bands) do not match sensor configuration (%d bands).\n", aux->endmember.nrow, phl->sen.n_bands);
     return FAILURE;
-- 
2.43.0


From da6343d3d08aff0aa993308530a0468c3508e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:57 +0000
Subject: [PATCH 40/60] fix: standardize the polarmetrics time series

STANDARDIZE_POL was read from the parameter file but had no effect.
---
 src/modules/higher-level/standardize-hl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/higher-level/standardize-hl.c b/src/modules/higher-level/standardize-hl.c
index 070523a..4376961 100755
--- a/src/modules/higher-level/standardize-hl.c
+++ b/src/modules/higher-level/standardize-hl.c
@@ -116,6 +116,7 @@ int t, p;
 +++ Return: SUCCESS/FAILURE
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int tsa_standardize(tsa_t *ts, small *mask_, int nc, int nt, int ni, short nodata, par_hl_t *phl){
+int l;
 
 
   if (phl->tsa.otss)     standardize_timeseries(ts->tss_, mask_, nc, nt,      nodata, phl->tsa.standard);
@@ -126,6 +127,10 @@ int tsa_standardize(tsa_t *ts, small *mask_, int nc, int nt, int ni, short nodat
   if (phl->tsa.fld.ofbw) standardize_timeseries(ts->fbw_, mask_, nc, phl->nw, nodata, phl->tsa.fld.standard);
   if (phl->tsa.fld.ofbd) standardize_timeseries(ts->fbd_, mask_, nc, phl->nd, nodata, phl->tsa.fld.standard);
 
+  for (l=0; l<_POL_LENGTH_; l++){
+    if (phl->tsa.pol.use[l] && phl->tsa.pol.opol) standardize_timeseries(ts->pol_[l], mask_, nc, phl->tsa.pol.ny, nodata, phl->tsa.pol.standard);
+  }
+
   return SUCCESS;
 }
 
-- 
2.43.0


From 8a624d43c68b841486f67f18c2e83c69847b9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:57 +0000
Subject: [PATCH 41/60] fix: test the documented limits of two parameters

LSM_MIN_PATCHSIZE and RF_DT_REG_ACCURACY accepted zero, although their
documented ranges exclude it.
---
 src/modules/aux-level/param-train-aux.c | 2 +-
 src/modules/higher-level/param-hl.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/aux-level/param-train-aux.c b/src/modules/aux-level/param-train-aux.c
index c8874c0..a95e4f6 100755
--- a/src/modules/aux-level/param-train-aux.c
+++ b/src/modules/aux-level/param-train-aux.c
@@ -55,7 +55,7 @@ void register_train(params_t *params, par_train_t *train){
   register_bool_par(params,     "RF_FEATURE_IMPORTANCE", &train->rf.feature_importance);
   register_int_par(params,      "RF_DT_MINSAMPLE",       0, INT_MAX, &train->rf.dt.min_sample);
   register_int_par(params,      "RF_DT_MAXDEPTH",        0, INT_MAX, &train->rf.dt.max_depth);
-  register_float_par(params,    "RF_DT_REG_ACCURACY",    0, INT_MAX, &train->rf.dt.reg_accuracy);
+  register_float_par(params,    "RF_DT_REG_ACCURACY", 0.01, INT_MAX, &train->rf.dt.reg_accuracy);
   register_int_par(params,      "SVM_MAXITER",           0, INT_MAX, &train->sv.max_iter);
   register_float_par(params,    "SVM_ACCURACY",          0, INT_MAX, &train->sv.accuracy);
   register_int_par(params,      "SVM_KFOLD",             1, INT_MAX, &train->sv.kfold);
diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 777ea2f..23ae6e0 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -425,7 +425,7 @@ void register_lsm(params_t *params, par_hl_t *phl){
 
 
   register_double_par(params,  "LSM_RADIUS",    0, 1e6,  &phl->lsm.radius);
-  register_int_par(params,     "LSM_MIN_PATCHSIZE",    0, 1e6,  &phl->lsm.minpatchsize);
+  register_int_par(params,     "LSM_MIN_PATCHSIZE",    1, 1e6,  &phl->lsm.minpatchsize);
   register_enumvec_par(params, "LSM_THRESHOLD_TYPE", _TAGGED_ENUM_QUERY_, _QUERY_LENGTH_, -1, &phl->lsm.query, &phl->lsm.nquery);
   register_intvec_par(params,  "LSM_THRESHOLD", SHRT_MIN, SHRT_MAX, -1, &phl->lsm.threshold, &phl->lsm.nthreshold);
   register_bool_par(params,    "LSM_ALL_PIXELS", &phl->lsm.allpx);
-- 
2.43.0


From aef30a0f54ee54208462f468be0530827bca0d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:57 +0000
Subject: [PATCH 42/60] fix: reserve room for the sensor that is added for
 spectral adjustment

The band lists were allocated before the additional sensor was counted. With
SPECTRAL_ADJUST, one element behind each list was written.
---
 src/modules/higher-level/sensor-hl.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules/higher-level/sensor-hl.c b/src/modules/higher-level/sensor-hl.c
index 0aa03ae..92b6b8f 100644
--- a/src/modules/higher-level/sensor-hl.c
+++ b/src/modules/higher-level/sensor-hl.c
@@ -344,12 +344,6 @@ char **band_names = NULL;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int retrieve_sensor(sen_t *sen){
 
-  int *nbands = NULL;
-  alloc((void**)&nbands, sen->n, sizeof(int));
-
-  char ***band_names = NULL;
-  alloc((void**)&band_names, sen->n, sizeof(char**));
-
   // ugly hack to make sure spectral adjustment works when no target sensor is included in SENSORS
   if (sen->spec_adjust){
     re_alloc_2D((void***)&sen->sensor, sen->n, NPOW_10, sen->n+1, NPOW_10, sizeof(char));
@@ -357,6 +351,12 @@ int retrieve_sensor(sen_t *sen){
     sen->n++;
   }
 
+  int *nbands = NULL;
+  alloc((void**)&nbands, sen->n, sizeof(int));
+
+  char ***band_names = NULL;
+  alloc((void**)&band_names, sen->n, sizeof(char**));
+
   int error = 0;
 
   for (int s=0; s<sen->n; s++){
-- 
2.43.0


From b919bace591e0198ad326eef05475c38853786cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:09 +0000
Subject: [PATCH 43/60] fix: compute the index NDVIre1n under its documented
 name

The index definitions and the documentation call it NDVIre1n, but the
computation only knew NDVIren, which cannot be requested. Processing
ended with 'no implementation' for the documented name.
---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 7476678..61b414f 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -1104,7 +1104,7 @@ int tsa_spectral_index(ard_t *ard, tsa_t *ts, small *mask_, int nc, int nt, int
           band_for_index(ard[0].DAT, index->band_names[idx][0]), 
           band_for_index(ard[0].DAT, index->band_names[idx][1]), 
           nc, nt, nodata);
-      } else if (strcmp(index->names[idx], "NDVIren") == 0){
+      } else if (strcmp(index->names[idx], "NDVIre1n") == 0){
         cite_me(_CITE_NDVIre1n_);
         check_nbands_for_index(index->names[idx], 2, index->n_bands[idx]);
         index_differenced(ard, mask_, ts, 
-- 
2.43.0


From 9497af785a0cd0b2952be953cae7c86efd90a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:03 +0000
Subject: [PATCH 44/60] fix: set spectral indices to nodata that do not fit the
 image

EVI and the related indices are unbounded when the denominator is small,
and Tasseled Cap components of bright pixels exceed 16 bit. The values
wrapped around, e.g. an EVI of 50 was stored as -2.4.
---
 src/modules/higher-level/index-compute-hl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 61b414f..031a29c 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -400,7 +400,7 @@ float tmp, x = 0, nir, red, blue, ind, scale = 10000.0;
           red -= x*(blue-red);
           tmp = nir+f2*red-f3*blue+f4*scale;
           ind = f1*(nir-red)/tmp;
-          if (tmp == 0){// || ind < -1 || ind > 1){
+          if (tmp == 0 || ind*scale > SHRT_MAX || ind*scale < SHRT_MIN){
             ts->tss_[t][p] = nodata;
           } else {
             ts->tss_[t][p] = (short)(ind*scale);
@@ -466,7 +466,11 @@ float tc[3][6] = {
                   tc[i][4]*ard[t].dat[s1][p] + tc[i][5]*ard[t].dat[s2][p];
             ind += x[i]*tmp;
           }
-          ts->tss_[t][p] = (short)ind;
+          if (ind > SHRT_MAX || ind < SHRT_MIN){
+            ts->tss_[t][p] = nodata;
+          } else {
+            ts->tss_[t][p] = (short)ind;
+          }
 
         }
 
-- 
2.43.0


From 7af80b99dd29c38e53a809a2996d4d741445d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:18 +0000
Subject: [PATCH 45/60] fix: take clear-sky interval statistics with the number
 of intervals

The moments and quantiles of the gaps between clear observations were
computed with the number of observations. There is one gap more than
there are observations, because the window boundaries count as well.
The standard deviation of two gaps was divided by zero, quantiles left
out the last gap, and windows without observation had quantiles of 0.
---
 src/modules/higher-level/cso-hl.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/modules/higher-level/cso-hl.c b/src/modules/higher-level/cso-hl.c
index 61eb151..dad2411 100755
--- a/src/modules/higher-level/cso-hl.c
+++ b/src/modules/higher-level/cso-hl.c
@@ -356,14 +356,17 @@ bool alloc_q_array = false;
 
         } else {
 
-          minimum = maximum = mean = cs.d_cso[w+1].ce-cs.d_cso[w].ce;
+          d_ce = cs.d_cso[w+1].ce-cs.d_cso[w].ce;
+          if (alloc_q_array) q_array[k] = (float)d_ce;
+          minimum = maximum = mean = d_ce;
+          k++;
 
         }
 
 
-        if (n > 0){
-          skewscaled = skewness(var, skew, n)*1000;
-          kurtscaled = (kurtosis(var, kurt, n)-3)*1000;
+        if (k > 1){
+          skewscaled = skewness(var, skew, k)*1000;
+          kurtscaled = (kurtosis(var, kurt, k)-3)*1000;
           if (skewscaled < -30000) skewscaled = -30000;
           if (skewscaled >  30000) skewscaled =  30000;
           if (kurtscaled < -30000) kurtscaled = -30000;
@@ -374,21 +377,21 @@ bool alloc_q_array = false;
         if (phl->cso.sta.max > -1) cs.cso_[phl->cso.sta.max][w][p] = maximum;
         if (phl->cso.sta.rng > -1) cs.cso_[phl->cso.sta.rng][w][p] = maximum-minimum;
         if (phl->cso.sta.avg > -1) cs.cso_[phl->cso.sta.avg][w][p] = (short)mean;
-        if (phl->cso.sta.std > -1) cs.cso_[phl->cso.sta.std][w][p] = (short)standdev(var, n);
+        if (phl->cso.sta.std > -1) cs.cso_[phl->cso.sta.std][w][p] = (k > 1) ? (short)standdev(var, k) : 0;
         if (phl->cso.sta.skw > -1) cs.cso_[phl->cso.sta.skw][w][p] = (short)skewscaled;
         if (phl->cso.sta.krt > -1) cs.cso_[phl->cso.sta.krt][w][p] = (short)kurtscaled;
 
         if (phl->cso.sta.quantiles){
           for (q=0; q<phl->cso.sta.nquantiles; q++){
-            cs.cso_[phl->cso.sta.qxx[q]][w][p] = (short)quantile(q_array, n, phl->cso.sta.q[q]);
+            cs.cso_[phl->cso.sta.qxx[q]][w][p] = (short)quantile(q_array, k, phl->cso.sta.q[q]);
             if (phl->cso.sta.q[q] == 0.25) q25_ = cs.cso_[phl->cso.sta.qxx[q]][w][p];
             if (phl->cso.sta.q[q] == 0.75) q75_ = cs.cso_[phl->cso.sta.qxx[q]][w][p];
           }
         }
 
         if (phl->cso.sta.iqr > -1){
-          if (q25_ == SHRT_MIN) q25_ = (short)quantile(q_array, n, 0.25);
-          if (q75_ == SHRT_MIN) q75_ = (short)quantile(q_array, n, 0.75);
+          if (q25_ == SHRT_MIN) q25_ = (short)quantile(q_array, k, 0.25);
+          if (q75_ == SHRT_MIN) q75_ = (short)quantile(q_array, k, 0.75);
           cs.cso_[phl->cso.sta.iqr][w][p] = q75_-q25_;
         }
 
-- 
2.43.0


From de565bf07eaaf010e26700688411221a0f021804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:26 +0000
Subject: [PATCH 46/60] fix: test the unscaled slope of date trends in change
 and trend analysis

For phenological dates, the slope was scaled by 1000 before it was
compared with its standard error, such that nearly every trend was
reported as significant. Scale it after the test, as the trend
analysis does.
---
 src/modules/higher-level/trend-hl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/trend-hl.c b/src/modules/higher-level/trend-hl.c
index b64ecb7..a601a9a 100755
--- a/src/modules/higher-level/trend-hl.c
+++ b/src/modules/higher-level/trend-hl.c
@@ -404,13 +404,15 @@ double mae, rmse;
         // account for values given in continuous days
         if (in_ce){
           my  -= 365*(nf-1)/2;
-          slp -= 365; slp *= 1000;
+          slp -= 365;
         }
 
         // standard error of slope, and significance of slope
         seb = sqrt(1.0/(k-2)*ssqe)/sqrt(sxsq);
         sig = slope_significant(1-trd->conf, trd->tail, k, slp, 0.0, seb);
 
+        if (in_ce) slp *= 1000;
+
         rmse = sqrt(ssqe/k);
         mae = sae/k;
 
-- 
2.43.0


From 0a788917a21e59926155971a6cc89084995923bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:06 +0000
Subject: [PATCH 47/60] fix: count clear-sky observations of the last month

A window that starts in the last month of the requested period was
not counted, so that all observations of this month were dropped, e.g.
December for a period that ends on December 31 and a step of one month.
---
 src/modules/higher-level/cso-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/cso-hl.c b/src/modules/higher-level/cso-hl.c
index dad2411..c99b617 100755
--- a/src/modules/higher-level/cso-hl.c
+++ b/src/modules/higher-level/cso-hl.c
@@ -244,7 +244,7 @@ bool alloc_q_array = false;
   month = phl->date_range[_MIN_].month;
   
   while (year < phl->date_range[_MAX_].year ||
-        (year <= phl->date_range[_MAX_].year && month < phl->date_range[_MAX_].month)){
+        (year <= phl->date_range[_MAX_].year && month <= phl->date_range[_MAX_].month)){
     nw++;
     if ((month += phl->cso.step) > 12){ year++; month -= 12;}
   }
-- 
2.43.0


From 03071c3d1294860726d8795254d51a9cbe9e82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:06 +0000
Subject: [PATCH 48/60] fix: select a single day of the year

DOY_RANGE with twice the same day was treated like a range that wraps
around the end of the year, so that all days were selected.
---
 src/modules/higher-level/param-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 23ae6e0..0f2f997 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1059,7 +1059,7 @@ double tol = 5e-3;
        phl->doy_range[_MIN_] > 0 && 
        phl->doy_range[_MAX_] > 0){
 
-    if (phl->doy_range[_MIN_] < phl->doy_range[_MAX_]){
+    if (phl->doy_range[_MIN_] <= phl->doy_range[_MAX_]){
       for (d=phl->doy_range[_MIN_]; d<=phl->doy_range[_MAX_]; d++) phl->date_doys[d] = true;
     } else {
       for (d=1; d<=phl->doy_range[_MAX_];   d++) phl->date_doys[d] = true;
-- 
2.43.0


From f1be157f21373f11e10c996808eba583fe9995fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:06 +0000
Subject: [PATCH 49/60] fix: interpolate up to the last time step of the period

The number of time steps was rounded down by an integer division
before it was rounded up, so that the last step within the requested
period was missing unless the step divides the period.
---
 src/modules/higher-level/tsa-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/tsa-hl.c b/src/modules/higher-level/tsa-hl.c
index a607812..81774fc 100755
--- a/src/modules/higher-level/tsa-hl.c
+++ b/src/modules/higher-level/tsa-hl.c
@@ -940,7 +940,7 @@ short nodata;
   if (phl->tsa.tsi.method == _INT_NONE_){
     ni = nt;
   } else {
-    ni = ceil((phl->date_range[_MAX_].ce-phl->date_range[_MIN_].ce+1)/phl->tsa.tsi.step);
+    ni = ceil((phl->date_range[_MAX_].ce-phl->date_range[_MIN_].ce+1)/(double)phl->tsa.tsi.step);
   }
 
   // number of steps for NRT monitoring
-- 
2.43.0


From bd6760c4936d8cb74804da140f0aa77c91e9b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:06 +0000
Subject: [PATCH 50/60] fix: set the quarter together with the other parts of a
 date

The current date, the next and previous day, and the dates of composites
and Level 1 images kept the quarter of an earlier date or none at all.
---
 src/modules/cross-level/datesys-cl.c | 3 +++
 src/modules/higher-level/level3-hl.c | 1 +
 src/modules/lower-level/meta-ll.c    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/modules/cross-level/datesys-cl.c b/src/modules/cross-level/datesys-cl.c
index 0b50f3d..8cd8207 100755
--- a/src/modules/cross-level/datesys-cl.c
+++ b/src/modules/cross-level/datesys-cl.c
@@ -50,6 +50,7 @@ struct tm *timeinfo;
   d->day   = timeinfo->tm_mday;
   d->doy   = md2doy(d->month,d->day);
   d->week  = doy2week(d->doy);
+  d->quarter = doy2quarter(d->doy);
   d->ce    = doy2ce(d->doy,d->year);
   d->hh    = timeinfo->tm_hour;
   d->mm    = timeinfo->tm_min;
@@ -104,6 +105,7 @@ struct tm *timeinfo;
   d->day   = timeinfo->tm_mday;
   d->doy   = md2doy(d->month,d->day);
   d->week  = doy2week(d->doy);
+  d->quarter = doy2quarter(d->doy);
   d->ce    = doy2ce(d->doy,d->year);
 
   return;
@@ -130,6 +132,7 @@ struct tm *timeinfo;
   d->day   = timeinfo->tm_mday;
   d->doy   = md2doy(d->month,d->day);
   d->week  = doy2week(d->doy);
+  d->quarter = doy2quarter(d->doy);
   d->ce    = doy2ce(d->doy,d->year);
 
   return;
diff --git a/src/modules/higher-level/level3-hl.c b/src/modules/higher-level/level3-hl.c
index a59e7a0..cf4de34 100755
--- a/src/modules/higher-level/level3-hl.c
+++ b/src/modules/higher-level/level3-hl.c
@@ -135,6 +135,7 @@ int cx, cy, cx_, cy_, cc_;
   date.day = d;
   date.doy = md2doy(date.month, date.day);
   date.week = doy2week(date.doy);
+  date.quarter = doy2quarter(date.doy);
   date.ce  = doy2ce(date.doy, date.year);
   date.hh    = 0;
   date.mm    = 0;
diff --git a/src/modules/lower-level/meta-ll.c b/src/modules/lower-level/meta-ll.c
index e4426ed..b557127 100755
--- a/src/modules/lower-level/meta-ll.c
+++ b/src/modules/lower-level/meta-ll.c
@@ -513,6 +513,7 @@ GDALDatasetH fp_;
         date.day = atoi(tokenptr2);
         date.doy = md2doy(date.month, date.day);
         date.week = doy2week(date.doy);
+        date.quarter = doy2quarter(date.doy);
         date.ce  = doy2ce(date.doy, date.year);
       } else if (strcmp(tag, "SCENE_CENTER_TIME") == 0 ||
                  strcmp(tag, "SCENE_CENTER_SCAN_TIME") == 0){
@@ -886,6 +887,7 @@ int svgrid = 5000;
         date.ss = atoi(tokenptr3);
         date.tz = 0;
         date.week = doy2week(date.doy);
+        date.quarter = doy2quarter(date.doy);
         date.ce  = doy2ce(date.doy, date.year);
 
       // scaling factor
-- 
2.43.0


From 668e54034f89e5409a2fbee1c056a67e1c8c4cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:02 +0000
Subject: [PATCH 51/60] fix: reset the scores of a pixel without usable target
 date

If the phenology-adaptive target of a pixel is corrupt, scoring stopped early and
left the scores and the temporal distance of another pixel in place. These were
then used to screen the observations and written to the products.
---
 src/modules/higher-level/bap-hl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 7504e01..2698435 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -532,7 +532,12 @@ float vz;
     // if target is corrupt, skip pixel
     if (target[y].ce[0] < 1900*365 || 
         target[y].ce[1] < 1900*365 || 
-        target[y].ce[2] < 1900*365) continue;
+        target[y].ce[2] < 1900*365){
+      score[t].t = score[t].d = score[t].y = 0;
+      score[t].c = score[t].h = score[t].r = score[t].v = 0;
+      tdist[t] = 0;
+      continue;
+    }
 
     // difference between acquisition and target year
     dy = abs(get_brick_year(ard[t].DAT, 0) - bap->Yt);
-- 
2.43.0


From 8bb76ae1c48824caaf3b2ab06d0ed8cde65772e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:02 +0000
Subject: [PATCH 52/60] fix: write the weighted composite only if it is
 requested

With OUTPUT_BAP = FALSE the image is not allocated, and weighting the observations
crashed when the result was stored.
---
 src/modules/higher-level/bap-hl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 2698435..192930c 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -897,7 +897,9 @@ double sum_r = 0, sum_v = 0;
 
   }
 
-  for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  if (l3->bap != NULL){
+    for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  }
 
   free((void*)sum_reflection);
 
-- 
2.43.0


From b5a355df1af7ca32dcf7c6df7f14d48d9606a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:02 +0000
Subject: [PATCH 53/60] fix: saturate the ratio in the overview of radar
 composites

The backscatter in dB was compared with the upper limit of the ratio. Ratios above 1
were scaled beyond 255 and wrapped around.
---
 src/modules/higher-level/bap-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 192930c..cc2d38e 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -994,7 +994,7 @@ float ratio;
         
         if (ratio < 0.2 || l3->bap[VV][p] == nodata|| l3->bap[VH][p] == nodata){
           l3->ovv[_RGB_B_][p_] = 0;
-        } else if (l3->bap[VH][p] > 1.0){
+        } else if (ratio > 1.0){
           l3->ovv[_RGB_B_][p_] = 255;
         } else {
           l3->ovv[_RGB_B_][p_] = (small)((ratio - 0.2)/0.8*255);
-- 
2.43.0


From 524562e7ddac98752ef11155e2b19df03c6ff492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:36 +0000
Subject: [PATCH 54/60] fix: do not overwrite a datacube definition that was
 written while waiting for the lock

The existence test was only done before the lock was obtained. A process that
had to wait for the lock replaced the definition another process had just written.
---
 src/modules/cross-level/cube-cl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index d0a2ad3..00ff157 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -249,6 +249,11 @@ FILE *fp = NULL;
 
     if ((lock = (char*)lock_file(cube->def_path, 60)) == NULL) return FAILURE;
 
+    // another process might have written the definition while we waited
+    if (fileexist(cube->def_path)){
+      unlock_file(lock);
+      return SUCCESS;}
+
     if ((fp = fopen(cube->def_path, "w")) == NULL){
       printf("Unable to open %s. ", cube->def_path); 
       unlock_file(lock);
-- 
2.43.0


From 4ab5fef18681ce390ac5c77cfcdf7bffceec3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:36 +0000
Subject: [PATCH 55/60] fix: do not overwrite a citation file that was written
 while waiting for the lock

The existence test was only done before the lock was obtained.
---
 src/modules/cross-level/cite-cl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/cross-level/cite-cl.c b/src/modules/cross-level/cite-cl.c
index 4646a34..ea76ec3 100755
--- a/src/modules/cross-level/cite-cl.c
+++ b/src/modules/cross-level/cite-cl.c
@@ -458,6 +458,11 @@ int i;
 
   if ((lock = (char*)lock_file(fname, 60)) == NULL) return;
 
+  // another process might have written the file while we waited
+  if (fileexist(fname)){
+    unlock_file(lock);
+    return;}
+
   if ((_cite_fp_ = fopen(fname, "w")) == NULL){
     printf("Unable to open CITEME file!\n"); 
     unlock_file(lock);
-- 
2.43.0


From c33c3bcd846624b87c028fabea2b1c58f6bd36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:36 +0000
Subject: [PATCH 56/60] fix: end with an error when MODIS water vapor images
 cannot be read

The function returned without setting its results, which the caller then
used. All other read problems in this function already end the program.
---
 src/modules/lower-level/modwvp-ll.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/lower-level/modwvp-ll.c b/src/modules/lower-level/modwvp-ll.c
index 095a233..58b0c8a 100755
--- a/src/modules/lower-level/modwvp-ll.c
+++ b/src/modules/lower-level/modwvp-ll.c
@@ -743,7 +743,7 @@ const char *separator = ",";
       band = GDALGetRasterBand(subDS, 1);
       if (GDALRasterIO(band, GF_Read,  0, 0, nx, ny, 
             PW, nx, ny, GDT_Int16, 0, 0) == CE_Failure){
-        printf("could not read image. "); return;}
+        printf("could not read image. "); exit(1);}
       CPLFree(sdsname);
 
       // read some metadata
@@ -772,7 +772,7 @@ const char *separator = ",";
       band = GDALGetRasterBand(subDS, 1);
       if (GDALRasterIO(band, GF_Read,  0, 0, nxc, nyc, 
             LAT, nxc, nyc, GDT_Float32, 0, 0) == CE_Failure){
-        printf("could not read image. "); return;}
+        printf("could not read image. "); exit(1);}
       GDALClose(subDS);
       CPLFree(sdsname);
 
@@ -787,7 +787,7 @@ const char *separator = ",";
       band = GDALGetRasterBand(subDS, 1);
       if (GDALRasterIO(band, GF_Read,  0, 0, nxc, nyc, 
             LON, nxc, nyc, GDT_Float32, 0, 0) == CE_Failure){
-        printf("could not read image. "); return;}
+        printf("could not read image. "); exit(1);}
       GDALClose(subDS);
       CPLFree(sdsname);
 
@@ -802,7 +802,7 @@ const char *separator = ",";
       band = GDALGetRasterBand(subDS, 1);
       if (GDALRasterIO(band, GF_Read,  0, 0, nx, ny, 
             CLD, nx, ny, GDT_Byte, 0, 0) == CE_Failure){
-        printf("could not read image. "); return;}
+        printf("could not read image. "); exit(1);}
       GDALClose(subDS);
       CPLFree(sdsname);
 
-- 
2.43.0


From 8727c3f8edad783b274c7ecac999f5c80ddb1df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:09 +0000
Subject: [PATCH 57/60] fix: select an observation for the composite whatever
 its score

The search for the best score started at -1. If no score was above -1,
e.g. over water with a very bright SWIR2 or if all score weights are 0,
no observation was selected and element -1 was read.
---
 src/modules/higher-level/bap-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index cc2d38e..63df85f 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -731,7 +731,7 @@ double max_score = -1;
     n++;
 
     // find best score
-    if (score[t].t > max_score){
+    if (max_t < 0 || score[t].t > max_score){
       max_score = score[t].t;
       max_t = t;
     }
-- 
2.43.0


From c4c2823bd5d133ca070f8ca33da616d75b29856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:09 +0000
Subject: [PATCH 58/60] fix: nodata for MSRre indices if the root is undefined

The square root of a negative number is NaN, which passed the range test
and was stored as valid value.
---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 031a29c..cd408b2 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -282,7 +282,7 @@ float upper, lower, ind, scale = 10000.0;
             upper = (ard[t].dat[b1][p] / (float)ard[t].dat[b2][p]) - 1.0;
             lower = sqrt((ard[t].dat[b1][p] / (float)ard[t].dat[b2][p]) + 1.0);
             ind = upper/lower;
-            if (lower == 0 || ind*scale > SHRT_MAX || ind*scale < SHRT_MIN){
+            if (!(lower > 0) || ind*scale > SHRT_MAX || ind*scale < SHRT_MIN){
               ts->tss_[t][p] = nodata;
             } else {
               ts->tss_[t][p] = (short)(ind*scale);
-- 
2.43.0


From 05d803f0c04a383bf5e978411e451fdcc645d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:09 +0000
Subject: [PATCH 59/60] fix: nodata if the continuum removed band does not fit
 16 bit

---
 src/modules/higher-level/index-compute-hl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index cd408b2..88927d1 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -182,7 +182,12 @@ float tmp;
                  ard[t].dat[b2][p] * (w_ - w1)) / 
                 (w2 - w1);
 
-          ts->tss_[t][p] = (short)(ard[t].dat[b_][p] - tmp);
+          tmp = ard[t].dat[b_][p] - tmp;
+          if (tmp > SHRT_MAX || tmp < SHRT_MIN){
+            ts->tss_[t][p] = nodata;
+          } else {
+            ts->tss_[t][p] = (short)tmp;
+          }
 
         }
 
-- 
2.43.0


From 75296acc69d2d17479a8abd467e6d788dfdf55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:10:07 +0000
Subject: [PATCH 60/60] fix: texture: set pixels outside the processing mask to
 nodata

The processing mask was read but never used, so texture metrics were
written for masked pixels unless the feature itself was nodata.
---
 src/modules/higher-level/texture-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/texture-hl.c b/src/modules/higher-level/texture-hl.c
index ecd0c10..8234f46 100755
--- a/src/modules/higher-level/texture-hl.c
+++ b/src/modules/higher-level/texture-hl.c
@@ -218,7 +218,7 @@ short nodata;
                      Point(phl->txt.radius, phl->txt.radius));
 
 
-  #pragma omp parallel private(i,j,p) shared(nf,nx,ny,morph_elem,features,txt,phl,nodata) default(none)
+  #pragma omp parallel private(i,j,p) shared(nf,nx,ny,morph_elem,features,txt,phl,nodata,mask_) default(none)
   {
 
     #pragma omp for
@@ -244,7 +244,7 @@ short nodata;
       for (i=0, p=0; i<ny; i++){
       for (j=0; j<nx; j++, p++){
         
-        if (!features[f].msk[p] && phl->ftr.exclude){
+        if ((mask_ != NULL && !mask_[p]) || (!features[f].msk[p] && phl->ftr.exclude)){
           
           if (phl->txt.oero) txt.ero_[f][p] = nodata;
           if (phl->txt.odil) txt.dil_[f][p] = nodata;
-- 
2.43.0

