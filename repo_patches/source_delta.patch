From 4aa8d6d268dc19c9f224c635309cda7f88b810cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 01/55] fix: zero row pointers, count rows after sorting and
 accept empty matrices in CompRowCsr

The row pointer array was used as a set of counters without being
initialised, the number of non-zero rows was counted on the unsorted input
and an empty matrix read the first element of an empty array.
---
 include/matrix/crcsr.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 6ef1753..8781104 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -38,12 +38,14 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 
     A->nnz_rows_num = nnzrows;
     A->nnz_rows = new IT[nnzrows];
-    A->row_ptr = new IT[nnzrows + 1];
+    A->row_ptr = new IT[nnzrows + 1]();
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
     sort_triplets(nonzeros, nnz);
 
+    if (nnz == 0) return;
+
     A->nnz_rows[0] = nonzeros[0].row;
     cur_row_index = 0;
 
@@ -81,7 +83,9 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 template <class T, class IT, class NONZERO>
 void Coo_to_CrCsr (CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz)
 {
-    IT nnzrows = count_nnz_rows(nonzeros, nnz);
+    // Rows can only be counted when the non-zeros of each row are adjacent
+    sort_triplets(nonzeros, nnz);
+    IT nnzrows = (nnz == 0) ? 0 : count_nnz_rows(nonzeros, nnz);
     Coo_to_CrCsr(A, nonzeros, nnz, nnzrows);
 }
 
-- 
2.43.0


From 83d123a9709484938040a4488b5d932d87e38ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 02/55] fix: do not read past the last triplet when locating
 block-rows

sort_triplets_blocks() scanned for the start of every block-row without a
bound, so the scan for the last one always read past the end of the array.
---
 include/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index ea1ea56..1cc8fd1 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -245,7 +245,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   brow_ptr[0] = 0;
   i = 0;
   for (IT br=0; br<blockrows; br++) {
-    while(array[i].row < brow_offset[br+1]) i++;
+    while(i < size && array[i].row < brow_offset[br+1]) i++;
     brow_ptr[br+1] = i;
   }
   brow_ptr[blockrows] = size;
-- 
2.43.0


From 2d089a70014b583126844bae678dc71c6e657601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 03/55] fix: an empty array has no non-zero blocks

count_blocks() read array[0] of an empty array and returned 1, so that every
blocked format aborted on (or mishandled) a matrix without non-zeros.
---
 include/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils.h b/include/utils.h
index 1cc8fd1..56eddb3 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -334,6 +334,8 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
 template <class T, class IT>
 IT count_blocks(Element<T, IT> * array, IT size)
 {
+  if (size == 0) return 0;
+
   IT current = array[0].block;
   IT count = 1;
 
-- 
2.43.0


From 5afce5edfc44cd94562524e0bd35ef0732791ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 04/55] fix: release Csbr and Csbr2 memory with the matching
 deallocator

Row pointers came from calloc() but were released with delete[], block
offsets came from new[] (all callers) but were released with free(), and the
partition of a Csbr matrix was never released at all.
---
 include/io/blocked.h    |  6 +-----
 include/matrix/csbr.2.h |  6 +++---
 include/matrix/csbr.h   | 16 +++++++++-------
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 98f371f..7f87a96 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -125,11 +125,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
-      if(A->blocks[block_index].row_ptr == NULL){
-        fprintf(stderr, "Could not allocate memory for block.\n");
-        return -5;
-      }
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(cur_row >= br_offset);
diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index 01e863d..f134966 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -226,10 +226,10 @@ void release(Csbr2<T, IT>& A)
   }
   // Block-row and block-column offsets may point to the same array
   if (A.blockcol_offset == A.blockrow_offset) {
-    free(A.blockrow_offset);
+    delete [] A.blockrow_offset;
   } else {
-    free(A.blockcol_offset);
-    free(A.blockrow_offset);
+    delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
   }
   free(A.blockrow_ptr);
   free(A.row_ptr);
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index ffb094e..7500c8c 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -33,7 +33,7 @@ struct Csbr
     IT nnzblocks;
 
     // Partitioning information
-    BlockRowPartition<IT> * partition;
+    BlockRowPartition<IT> * partition {nullptr};
     bool balanced {true}; // TODO: Add heuristic
 
     // Original size
@@ -262,7 +262,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(B->elements[i].row >= br_offset);
@@ -312,8 +312,8 @@ void Coo_to_Csbr(Csbr<T, IT> * A, COOTYPE * B, IT br_size, IT bc_size)
 
   if(blockrows == 0) blockrows = 1;
   if(blockcols == 0) blockcols = 1;
-  IT * blockrow_offset = (IT *) malloc( (blockrows + 1) * sizeof(IT));
-  IT * blockcol_offset = (IT *) malloc( (blockcols + 1) * sizeof(IT));
+  IT * blockrow_offset = new IT[blockrows + 1];
+  IT * blockcol_offset = new IT[blockcols + 1];
 
   // Calculate block-row offsets
   blockrow_offset[0] = 0;
@@ -366,16 +366,18 @@ void print_info(Csbr<T, IT> const& A)
 template <class T, class IT>
 void release(Csbr<T, IT>& A)
 {
+    partition_destroy(&A);
+
     for (IT i=0; i<A.nnzblocks; i++) {
         delete [] A.blocks[i].row_ptr;
     }
 
     // Block-row and block-column offsets may point to the same array
     if (A.blockcol_offset == A.blockrow_offset) {
-        free(A.blockrow_offset);
+        delete [] A.blockrow_offset;
     } else {
-        free(A.blockcol_offset);
-        free(A.blockrow_offset);
+        delete [] A.blockcol_offset;
+        delete [] A.blockrow_offset;
     }
 
     free(A.blockcol_ind);
-- 
2.43.0


From 9908dba44e2627f415556dc557d07d4d54bf98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 05/55] fix: release the values of dense blocks

DenseSerial and DenseParallel had no destructor, so every dense block of a
Cgbr2 matrix leaked its values when the matrix was released.
---
 include/matrix/dense.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 76c052b..4872f35 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -32,7 +32,12 @@ struct DenseSerial : public BlockBase<T,IT>
         }
     }
 
-    DenseSerial() {} // For testing. Should go.
+    DenseSerial() : val(nullptr) {} // For testing. Should go.
+
+    ~DenseSerial()
+    {
+        delete [] val;
+    }
 
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
@@ -140,9 +145,10 @@ void allocate(DENSE<T,IT> * A, IT rows, IT columns)
  */
 template <class T, class IT,
           template <typename, typename> class DENSE>
-void release(DENSE<T,IT> A)
+void release(DENSE<T,IT>& A)
 {
     delete [] A.val;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From 1a3322301806cc1e83e56d995bc9f2b4c278a9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 06/55] fix: release the block offsets of Cgbr and Cgbr2
 matrices

Coo_to_Blocked() allocates the offsets on behalf of the matrix; only the CSBR
formats gave them back.
---
 include/matrix/cgbr.2.h | 6 ++++++
 include/matrix/cgbr.h   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 6dca397..24168c4 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -240,6 +240,12 @@ void release(Cgbr2<T,IT,SIT>& A)
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
+
+    // Block-row and block-column offsets may point to the same array
+    if (A.blockcol_offset != A.blockrow_offset) {
+        delete [] A.blockcol_offset;
+    }
+    delete [] A.blockrow_offset;
 }
 
 #endif
diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 65f4e97..c488a59 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -407,6 +407,12 @@ void release(Cgbr<T,IT,SIT>& A)
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
+
+    // Block-row and block-column offsets may point to the same array
+    if (A.blockcol_offset != A.blockrow_offset) {
+        delete [] A.blockcol_offset;
+    }
+    delete [] A.blockrow_offset;
 }
 
 #endif
-- 
2.43.0


From c448a9317d0558deefb8def9676dca1ec48be64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 07/55] fix: a released or never filled Coo can be destroyed

The default constructor left the array pointers undefined and release()
left them dangling, and the destructor deletes them in both cases.
---
 include/matrix/coo.1.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index f649622..64d1033 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -30,7 +30,7 @@ struct Coo : public BlockBase<T,IT>
         }
     }
 
-    Coo() {}    // We need this
+    Coo() : I(nullptr), J(nullptr), val(nullptr) {}    // We need this
 
     ~Coo()
     {
@@ -77,6 +77,11 @@ void release(Coo<T,IT,SIT>& A)
     delete [] A.I;
     delete [] A.J;
     delete [] A.val;
+
+    // The destructor will run too
+    A.I = nullptr;
+    A.J = nullptr;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From 2cce68bf371c3fa87afe57a44af9c42233476610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 08/55] fix: initialise the balanced flag of Cgbr2

Nothing ever set it, so the multiplication chose between its two algorithms
by reading indeterminate memory.
---
 include/matrix/cgbr.2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 24168c4..86634d4 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -25,7 +25,7 @@ struct Cgbr2 : public BlockBase<T,IT>
 
     // Partitioning information
     BlockRowPartition<IT> * partition;
-    bool balanced;
+    bool balanced {false};
 
     // Block size information
     IT * blockrow_offset;
-- 
2.43.0


From 7c74fd193b9880e2b0f1289e1d8b97a453d0c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 09/55] fix: sum duplicate entries when converting to a dense
 block

Every other format adds up the entries that share a position; a dense block
kept only the last of them.
---
 include/matrix/dense.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 4872f35..819d59b 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -28,7 +28,7 @@ struct DenseSerial : public BlockBase<T,IT>
         for (IT i=0; i<nnz; i++)
         {
             pos = array[i].row * columns + array[i].col;
-            val[pos] = array[i].val;
+            val[pos] += array[i].val;
         }
     }
 
@@ -113,7 +113,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     for (IT i=0; i<nnz; i++)
     {
         pos = nonzeros[i].row * columns + nonzeros[i].col;
-        A->val[pos] = nonzeros[i].val;
+        A->val[pos] += nonzeros[i].val;
     }
 }
 
-- 
2.43.0


From 6cb75bc60cacb0cf33904d739a8d9765ae0713ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 10/55] fix: pick_block_size() must not return a block size of
 zero

For matrices that are small compared to the number of workers it returned 0,
and every caller then divides by it (SIGFPE in the blocked drivers, in bench
and in the tests).
---
 include/utils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index 56eddb3..2f10bc1 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -30,7 +30,11 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     if (!sizereq) {
-    	return 0;
+    	// Too small to be split among the workers. Use blocks that cover the
+    	// smaller dimension without exceeding what 16-bit indices can address.
+    	IT size = 1 << 15;
+    	while (size > 1 && (size / 2 >= m || size / 2 >= n)) size /= 2;
+    	return size;
     }
 
     IT rowlowbits = rowbits-1;	
-- 
2.43.0


From 411dbe6cdf1721fcc9fd03d46aed83ed1fd779ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 11/55] fix: long banner tokens and malformed size lines in
 MatrixMarket files

A banner token of 64 characters or more overflowed the buffer it was scanned
into, and a size line that is not three numbers was scanned forever.
---
 dep/mm_io/mm_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index cfefd2e..c69687f 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -85,7 +85,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     return MM_PREMATURE_EOF;
   }
 
-  if ( sscanf ( line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if ( sscanf ( line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
     storage_scheme ) != 5 )
   {
     return MM_PREMATURE_EOF;
@@ -460,7 +460,9 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     do
     {
       num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      if (num_items_read == EOF)
+      /* Trying again can not help: scanning stopped at something that is
+         not a number or at the end of the file */
+      if (num_items_read != 3)
       {
         return MM_PREMATURE_EOF;
       }
-- 
2.43.0


From d34ea29fbde5ba61ef563bc3c0c2bf797cecb858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 12/55] fix: read pattern and skew-symmetric MatrixMarket files

Entries of a pattern matrix have no value, so parts of the next entry were
taken for it; the mirrored half of a skew-symmetric matrix was dropped.
Hermitian files (only meaningful when complex) are not supported.
---
 include/io/input.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 57d400d..164a562 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -33,6 +33,23 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
   return 0;
 }
 
+/*
+ * Read one entry of a Matrix Market coordinate file. Entries of a pattern
+ * matrix have no value, they all count as 1. Returns the same as fscanf() for
+ * an entry with a value.
+ */
+inline int read_mm_entry(FILE * f, MM_typecode matcode,
+                         unsigned long * r, unsigned long * c, double * val)
+{
+  if (mm_is_pattern(matcode)) {
+    int ret = fscanf(f, "%lu %lu\n", r, c);
+    *val = 1.0;
+    return (ret == 2) ? 3 : ret;
+  }
+
+  return fscanf(f, "%lu %lu %lg\n", r, c, val);
+}
+
 /*
  * Function to read a COO matrix from a Matrix Market file. Makes use of the
  * library mm_io.c provided here :
@@ -62,13 +79,15 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
       return -2;
   }
 
-  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ){
+  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ||
+      mm_is_hermitian(matcode) ){
       fprintf(stderr, "Sorry, this program does not support ");
       fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
       return -3;
   }
 
-  if (mm_is_symmetric(matcode)) symflag = 1;
+  // Only half of the matrix is stored if it is symmetric or skew-symmetric
+  if (mm_is_symmetric(matcode) || mm_is_skew(matcode)) symflag = 1;
 
   // Read size and allocate memory. Following function only works with ints
   int nr, nc, nnz;
@@ -86,7 +105,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
     position = ftell(f);
     counter = 0;
     for (IT i=0; i<2*nnz; i++){
-        ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
+        ret = read_mm_entry(f, matcode, &r, &c, &val);
         if(ret == EOF){
           break;
         }else{
@@ -107,7 +126,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 
   // Read everything as unsigned long and double. Convert to appropriate type later.
   for (IT i=0; i<nnz; i++){
-      ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
+      ret = read_mm_entry(f, matcode, &r, &c, &val);
       if(ret == EOF){
         A->nnz = i;
         break;
@@ -117,6 +136,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
         // If matrix is symmetric, add symmetric point
         if(symflag && r!=c){
           i++;
+          if(mm_is_skew(matcode)) val = -val;
           set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
         }
       }
-- 
2.43.0


From 23ef8f38d0f9fa0c1af2e27038b49e24e73d7318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 13/55] fix: reject truncated, malformed and out of range
 MatrixMarket entries

Entries that could not be parsed repeated the previous one, indices outside
the matrix (or zero) were stored as they came, a file that ends early was
accepted and the file was left open on every error.
---
 include/io/input.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 164a562..1c60570 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -76,13 +76,17 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read header and perform type checks
   if (mm_read_banner(f, &matcode) != 0){
       fprintf(stderr, "Could not process Matrix Market banner.\n");
+      fclose(f);
       return -2;
   }
 
   if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ||
       mm_is_hermitian(matcode) ){
       fprintf(stderr, "Sorry, this program does not support ");
-      fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
+      char * type = mm_typecode_to_str(matcode);
+      fprintf(stderr, "Market Market type: [%s]\n", type);
+      free(type);
+      fclose(f);
       return -3;
   }
 
@@ -92,8 +96,11 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read size and allocate memory. Following function only works with ints
   int nr, nc, nnz;
   int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
-  if (ret_code != 0) {
+  // No entry is shorter than "1 1" and a newline
+  if (ret_code != 0 || nr < 0 || nc < 0 || nnz < 0 || (symflag && nr != nc) ||
+      (size_t) nnz > (get_file_size(filename) + 1) / 4) {
     fprintf(stderr, "Error while reading size information.\n");
+    fclose(f);
     return -4;
   }
   A->rows = (IT) nr;
@@ -104,10 +111,12 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
     fflush(f);
     position = ftell(f);
     counter = 0;
-    for (IT i=0; i<2*nnz; i++){
+    for (IT i=0; i<nnz; i++){
         ret = read_mm_entry(f, matcode, &r, &c, &val);
-        if(ret == EOF){
-          break;
+        if(ret != 3){
+          fprintf(stderr, "Error while reading matrix entries.\n");
+          fclose(f);
+          return -5;
         }else{
           if(r==c){
             counter += 1;
@@ -127,9 +136,11 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read everything as unsigned long and double. Convert to appropriate type later.
   for (IT i=0; i<nnz; i++){
       ret = read_mm_entry(f, matcode, &r, &c, &val);
-      if(ret == EOF){
-        A->nnz = i;
-        break;
+      if(ret != 3 || r < 1 || r > nr || c < 1 || c > nc){
+        fprintf(stderr, "Error while reading matrix entries.\n");
+        release(*A);
+        fclose(f);
+        return -5;
       }else{
         set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
 
-- 
2.43.0


From 552d4ad79558d50029e84a851ff10faea6b892bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 14/55] fix: size and completeness of matrices read from three
 binary files

The dimensions were computed from maxima that were never initialised nor
updated, short files were accepted with undefined entries, one stream was
closed twice while another one was left open and one open was not checked.
---
 include/io/input.h | 47 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 1c60570..9ee92c3 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -1,6 +1,7 @@
 #ifndef _INPUT_H_
 #define _INPUT_H_
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 
@@ -166,8 +167,8 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
-  T val;
-  IT size, r, c;
+  IT size;
+  size_t counter = 0;
   IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
@@ -176,15 +177,18 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Allocate memory
   allocate(A, size);
+  std::fill(A->I, A->I + size, 0);
+  std::fill(A->J, A->J + size, 0);
 
   // Read row file
   fr = fopen(file_row, "rb");
   if (fr == NULL) {
     fprintf(stderr, "Cannot open row file.\n");
+    release(*A);
     return -1;
   }
 
-  fread(A->I, sizeof(IT), size, fr);
+  counter += fread(A->I, sizeof(IT), size, fr);
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
   }
@@ -195,10 +199,11 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
   fc = fopen(file_col, "rb");
   if (fc == NULL) {
     fprintf(stderr, "Cannot open column file.\n");
+    release(*A);
     return -1;
   }
 
-  fread(A->J, sizeof(IT), size, fc);
+  counter += fread(A->J, sizeof(IT), size, fc);
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
   }
@@ -207,13 +212,20 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read value file
   fv = fopen(file_val, "rb");
-  if (fc == NULL) {
+  if (fv == NULL) {
     fprintf(stderr, "Cannot open values file.\n");
+    release(*A);
     return -1;
   }
 
-  fread(A->val, sizeof(T), size, fv);
-  fclose(fc);
+  counter += fread(A->val, sizeof(T), size, fv);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -2;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
@@ -233,9 +245,10 @@ template <typename T, typename IT,
           template <typename, typename> class COO>
 int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
-  T vbuffer;
-  IT size, counter, buffer;
-  IT max_row, max_col;
+  T vbuffer = 0;
+  IT size, buffer = 0;
+  IT max_row = 0, max_col = 0;
+  size_t counter = 0;
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
@@ -248,6 +261,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   fr = fopen(file_row, "rb");
   if (fr == NULL) {
     fprintf(stderr, "Cannot open row file.\n");
+    release(*A);
     return -1;
   }
 
@@ -255,6 +269,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
+    if (buffer > max_row) max_row = buffer;
   }
 
   fclose(fr);
@@ -264,6 +279,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   if (fc == NULL)
   {
     fprintf(stderr, "Cannot open column file.\n");
+    release(*A);
     return -1;
   }
 
@@ -271,6 +287,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
+    if (buffer > max_col) max_col = buffer;
   }
 
   fclose(fc);
@@ -280,6 +297,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   if (fv == NULL)
   {
     fprintf(stderr, "Cannot open values file.\n");
+    release(*A);
     return -1;
   }
 
@@ -289,7 +307,14 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     A->set_value(i, vbuffer);
   }
 
-  fclose(fc);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size)
+  {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -2;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
-- 
2.43.0


From 4061be011c14a29999b7b981550f213105d62ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 15/55] fix: reject truncated and out of range .bin matrices

Indices outside the dimensions of the header were accepted, the header could
ask for more non-zeros than the file holds, the element counter could wrap
around and the file was left open on every error.
---
 include/io/input.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 9ee92c3..38e33ed 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -330,8 +330,10 @@ template <typename T, typename IT,
           template <typename, typename> class COO>
 int read_bin_COO(COO<T,IT> * A, const char * filename)
 {
-    IT counter, buffer;
-    T vbuffer;
+    IT buffer = 0;
+    T vbuffer = 0;
+    size_t counter;
+    bool valid = true;
     FILE * f;
 
     f = fopen(filename, "rb");
@@ -347,9 +349,17 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     counter += fread(&(A->nnz), sizeof(IT), 1, f);
     if (counter != 3) {
         fprintf(stderr, "Failed to read matrix header.\n");
+        fclose(f);
         return -2;
     }
 
+    // The file has to be large enough for that many non-zeros
+    if (get_file_size(filename) / (2 * sizeof(IT) + sizeof(T)) < A->nnz) {
+        fprintf(stderr, "Failed to read matrix.\n");
+        fclose(f);
+        return -4;
+    }
+
     // Memory allocation
     allocate(A, A->nnz);
 
@@ -359,12 +369,14 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     {
         counter += fread(&buffer, sizeof(IT), 1, f);
         A->set_row_index(i, buffer);
+        if (buffer >= A->rows) valid = false;
     }
 
     for (IT i=0; i<A->nnz; i++)
     {
         counter += fread(&buffer, sizeof(IT), 1, f);
         A->set_column_index(i, buffer);
+        if (buffer >= A->columns) valid = false;
     }
 
     for (IT i=0; i<A->nnz; i++)
@@ -373,13 +385,15 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
         A->set_value(i, vbuffer);
     }
 
-    if (counter != 3 * A->nnz)
+    fclose(f);
+
+    if (counter != 3 * (size_t) A->nnz || !valid)
     {
         fprintf(stderr, "Failed to read matrix.\n");
+        release(*A);
         return -4;
     }
 
-    fclose(f);
     return 0;
 }
 
-- 
2.43.0


From 0b72f80fa5754f503679d795dfa2eb83696a3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 16/55] fix: check what is read into a Csr matrix or an array

Short files and out of range rows made read_bin_CSR() write outside the row
pointers or return undefined entries; read_bin_array() left the file open and
the array allocated when it failed.
---
 include/io/input.h | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 38e33ed..e9070b5 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -26,11 +26,17 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
 
   // Read data from file
   FILE * f = fopen(filename, "rb");
-  if (f==NULL) return -2;
+  if (f==NULL) {
+    free(*data);
+    return -2;
+  }
   size_t ret = fread( *data, sizeof(T), size, f);
-  if (ret < size) return -3;
-
   fclose(f);
+  if (ret < size) {
+    free(*data);
+    return -3;
+  }
+
   return 0;
 }
 
@@ -424,6 +430,7 @@ template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
+  size_t counter = 0;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -433,9 +440,15 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter += fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+  if (counter != 3 ||
+      get_file_size(filename) / (2 * sizeof(IT) + sizeof(T)) < nnz) {
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   DEBUG(puts("Reading header done"));
 
@@ -447,14 +460,28 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   DEBUG(puts("Memory allocation done"));
 
   // Read data section
+  counter = 0;
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    if (fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows) break;
+    counter++;
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
   }
-  fread(A->col_ind, sizeof(IT), nnz, f);
-  fread(A->val, sizeof(T), nnz, f);
+  if (counter == nnz) {
+    counter += fread(A->col_ind, sizeof(IT), nnz, f);
+    counter += fread(A->val, sizeof(T), nnz, f);
+  }
   fclose(f);
 
+  bool valid = (counter == 3 * (size_t) nnz);
+  for(IT i=0; valid && i<nnz; i++){
+    if (A->col_ind[i] >= A->columns) valid = false;
+  }
+  if (!valid) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -4;
+  }
+
   DEBUG(puts("Reading data done"));
 
   // Get row pointers from row non-zero counters
-- 
2.43.0


From 5fc37e1776adb2428fa71043f2ab23bedc7de480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 17/55] fix: do not lose digits of values written to
 MatrixMarket files

"%f" keeps six decimals: small values were written as 0.000000.
---
 include/io/output.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/io/output.h b/include/io/output.h
index b728494..6bc7518 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -1,6 +1,7 @@
 #ifndef _OUTPUT_H_
 #define _OUTPUT_H_
 #include <cstdio>
+#include <limits>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -66,7 +67,9 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
     val = A->get_value(i);
 
     // MM uses 1-based indexing
-    fprintf(f, "%lu %lu %f\n", r+1, c+1, (double) val);
+    // Write enough digits to read the same value back
+    fprintf(f, "%lu %lu %.*g\n", r+1, c+1,
+            std::numeric_limits<T>::max_digits10, (double) val);
   }
 
   // Close file
-- 
2.43.0


From 27ef9ae689b0856464280249fc9bee7a99bec4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 18/55] fix: report output that could not be written

All writers ignored failed writes, so a full disk left a truncated file and
a return value of 0.
---
 include/io/output.h | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index 6bc7518..324e21e 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -7,6 +7,17 @@
 #include "common.h"
 #include "matrix/coo.3.h"
 
+/*
+ * Close a file that has been written to. Returns false if any part of what was
+ * written to it got lost.
+ */
+inline bool close_written(FILE * f)
+{
+  bool failed = ferror(f);
+  if (fclose(f) != 0) failed = true;
+  return !failed;
+}
+
 /*
  * Write binary data to a file.
  */
@@ -20,9 +31,8 @@ int write_bin_array(const char * filename, T * data, size_t num )
   f = fopen(filename, "wb");
   if (f==NULL) return -1;
   ret = fwrite(data, sizeof(T), num, f);
-  if (ret < num) return -2;
+  if (!close_written(f) || ret < num) return -2;
 
-  fclose(f);
   return 0;
 }
 
@@ -73,8 +83,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   }
 
   // Close file
-  fclose(f);
-  return 0;
+  return close_written(f) ? 0 : -2;
 }
 
 /*
@@ -88,7 +97,7 @@ template <typename T, typename IT,
 int write_bin_COO(COO<T,IT> * A,
         const char * file_row, const char * file_col, const char * file_val)
 {
-  int ret;
+  bool written = true;
   T val;
   IT i, r, c;
   IT nrows = A->rows;
@@ -102,6 +111,9 @@ int write_bin_COO(COO<T,IT> * A,
 
   if (fv == NULL || fr == NULL || fc == NULL) {
     fprintf(stderr, "Cannot open one of the files.\n");
+    if (fv != NULL) fclose(fv);
+    if (fr != NULL) fclose(fr);
+    if (fc != NULL) fclose(fc);
     return -1;
   }
 
@@ -111,7 +123,7 @@ int write_bin_COO(COO<T,IT> * A,
     r = A->get_row_index(i);
     fwrite(&r, sizeof(IT), 1, fr);
   }
-  fclose(fr);
+  written &= close_written(fr);
 
   // Write column file
   for (i=0; i<size; i++)
@@ -119,7 +131,7 @@ int write_bin_COO(COO<T,IT> * A,
     c = A->get_column_index(i);
     fwrite(&c, sizeof(IT), 1, fc);
   }
-  fclose(fc);
+  written &= close_written(fc);
 
   // Write value file
   for (i=0; i<size; i++)
@@ -127,9 +139,9 @@ int write_bin_COO(COO<T,IT> * A,
     val = A->get_value(i);
     fwrite(&val, sizeof(T), 1, fv);
   }
-  fclose(fv);
+  written &= close_written(fv);
 
-  return 0;
+  return written ? 0 : -2;
 }
 
 /*
@@ -172,8 +184,7 @@ int write_bin_COO(COO<T,IT> A, const char * filename)
         fwrite(&vbuffer, sizeof(T), 1, f);
     }
 
-    fclose(f);
-    return 0;
+    return close_written(f) ? 0 : -2;
 }
 
 /*
@@ -207,8 +218,7 @@ int write_bin_blocked(Coo3<T, IT> A, const char * filename)
     fwrite(&(A.elements[i].val) , sizeof(T), 1, f);
   }
 
-  fclose(f);
-  return 0;
+  return close_written(f) ? 0 : -2;
 }
 
 #endif
-- 
2.43.0


From c6f3bbfa745633f1bda7fae52a66089f37862f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 19/55] fix: output names of the tools for long input names

strncpy() leaves a name of 118 characters or more unterminated and the
suffix was then appended somewhere behind it, past the end of the buffer.
---
 src/tools/convert.cpp    |  8 +++-----
 src/tools/double2float.c |  5 ++---
 src/tools/expanded.cpp   |  9 ++++-----
 src/tools/one2zero.c     |  5 ++---
 src/tools/permute.cpp    |  8 +++-----
 src/tools/prepare.cpp    | 17 ++++++-----------
 src/tools/sort.cpp       | 14 +++++---------
 7 files changed, 25 insertions(+), 41 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 31e89f7..fc6bba7 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -11,7 +11,7 @@
 
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
-#define FNBUFL 128
+#define FNBUFL 4096
 
 /*
  * This executable reads a matrix in COO format (as Coo3) and an array of block
@@ -63,8 +63,7 @@ int main(int argc, char * argv[])
 
   // Create a matrix market file
   if (mtx) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".mtx");
+    snprintf(buf, FNBUFL, "%s%s", argv[4], ".mtx");
     printf("Writing to file %s ...", buf); fflush(stdout);
     tick();
     ret = write_mm_COO(&A, buf);
@@ -78,8 +77,7 @@ int main(int argc, char * argv[])
 
   // Create a binary triplet file
   if (bin) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".bin");
+    snprintf(buf, FNBUFL, "%s%s", argv[4], ".bin");
     printf("Writing to file %s ...", buf); fflush(stdout);
     tick();
     ret = write_bin_COO(A, buf);
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 33ef055..cf1d819 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -4,7 +4,7 @@
 #include <string.h>
 
 #define SUFFIX ".float"
-#define FNBUFL 128
+#define FNBUFL 4096
 
 #define OLDTYPE double
 #define NEWTYPE float
@@ -25,8 +25,7 @@ int main(int argc, char * argv[])
   for(int i=1; i<argc; i++){
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
-    strcat(buf, SUFFIX);
+    snprintf(buf, FNBUFL, "%s%s", argv[i], SUFFIX);
     printf("Output file : %s\n", buf);
 
     size = 0;
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 688c3f2..9dda78a 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -10,7 +10,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".exp%lu"
-#define FNBUFL 256
+#define FNBUFL 4096
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
 
@@ -20,7 +20,7 @@ int main(int argc, char * argv[]){
   INDEXTYPE *block_size, *block_offset;
   int i, ret;
   size_t blocks;
-  char buf[FNBUFL], buf2[FNBUFL];
+  char buf[FNBUFL], buf2[32];
   double t;
 
   if (argc < 6){
@@ -72,9 +72,8 @@ int main(int argc, char * argv[]){
   A.columns = new_block_size * A.blockcols;
 
   // Create new filename for output
-  strncpy(buf, argv[5], FNBUFL-10);
-  sprintf(buf2, SUFFIX, (unsigned long) new_block_size);
-  strcat(buf, buf2);
+  snprintf(buf2, sizeof(buf2), SUFFIX, (unsigned long) new_block_size);
+  snprintf(buf, FNBUFL, "%s%s", argv[5], buf2);
   printf("Output file : %s\n", buf);
 
   // Write result to disk
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 9b8520d..13948e8 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -4,7 +4,7 @@
 #include <string.h>
 
 #define SUFFIX ".zero"
-#define FNBUFL 128
+#define FNBUFL 4096
 #define INDEXTYPE uint32_t
 
 int main (int argc, char * argv[])
@@ -22,8 +22,7 @@ int main (int argc, char * argv[])
   for (int i=1; i<argc; i++) {
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
-    strcat(buf, SUFFIX);
+    snprintf(buf, FNBUFL, "%s%s", argv[i], SUFFIX);
     printf("Output file : %s\n", buf);
 
     // Read whole array into memory
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 8536b35..d41f7eb 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -9,7 +9,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".permuted"
-#define FNBUFL 128
+#define FNBUFL 4096
 #define INDEXTYPE uint32_t
 
 int main(int argc, char * argv[])
@@ -53,8 +53,7 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[2], FNBUFL-10);
-  strcat(buf, SUFFIX);
+  snprintf(buf, FNBUFL, "%s%s", argv[2], SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
 
   // Write result to disk
@@ -78,8 +77,7 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[1], FNBUFL-10);
-  strcat(buf, SUFFIX);
+  snprintf(buf, FNBUFL, "%s%s", argv[1], SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
 
   // Write result to disk
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 3a4f9df..4f6feb1 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -11,7 +11,7 @@
 #include "io/input.h"
 #include "io/output.h"
 
-#define FNBUFL 256
+#define FNBUFL 4096
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
 #define TMPROWS "/tmp/csbr_prepare/rows"
@@ -20,7 +20,7 @@
 int main(int argc, char * argv[])
 {
   int i, ret;
-  char buf[FNBUFL], ext[FNBUFL];
+  char buf[FNBUFL];
   double t;
   size_t perm_size, index_size, blocks;
 
@@ -135,8 +135,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted rows
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".row");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".row");
   printf("Writing to file %s ...", buf); fflush(stdout);
 
   tick();
@@ -162,8 +161,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write file in binary blocked format
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".block");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".block");
 
   printf("Writing to file %s ...", buf); fflush(stdout);
   tick();
@@ -183,8 +181,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".col");
+  snprintf(buf, FNBUFL, "%s%s", argv[6], ".col");
 
   printf("Writing to file %s ...", buf); fflush(stdout);
   tick();
@@ -204,9 +201,7 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns and expanded indeces
-  strncpy(buf, argv[6], FNBUFL-20);
-  snprintf(ext, FNBUFL, ".col.exp%lu", (unsigned long) new_block_size);
-  strcat(buf, ext);
+  snprintf(buf, FNBUFL, "%s.col.exp%lu", argv[6], (unsigned long) new_block_size);
   A.rows = new_block_size * A.blockrows;
   A.columns = new_block_size * A.blockcols;
 
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index e9e545e..45724ec 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -9,7 +9,7 @@
 #include "io/output.h"
 
 #define SUFFIX ".sorted"
-#define FNBUFL 128
+#define FNBUFL 4096
 
 int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
@@ -65,16 +65,13 @@ int main(int argc, char * argv[]){
     case 5 :
     case 4 :
       // Create new filenames for output
-      strncpy(buf_row, argv[1], FNBUFL-10);
-      strcat(buf_row, SUFFIX);
+      snprintf(buf_row, FNBUFL, "%s%s", argv[1], SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_row);
 
-      strncpy(buf_col, argv[2], FNBUFL-10);
-      strcat(buf_col, SUFFIX);
+      snprintf(buf_col, FNBUFL, "%s%s", argv[2], SUFFIX);
       fprintf(stdout, "Output file for columns : %s\n", buf_col);
 
-      strncpy(buf_val, argv[3], FNBUFL-10);
-      strcat(buf_val, SUFFIX);
+      snprintf(buf_val, FNBUFL, "%s%s", argv[3], SUFFIX);
       fprintf(stdout, "Output file for values : %s\n", buf_val);
 
       // Write result to disk
@@ -83,8 +80,7 @@ int main(int argc, char * argv[]){
     case 3 :
     case 2 :
       // Create filename for output
-      strncpy(buf_mtx, argv[1], FNBUFL-10);
-      strcat(buf_mtx, SUFFIX);
+      snprintf(buf_mtx, FNBUFL, "%s%s", argv[1], SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_mtx);
 
       // Write result to disk
-- 
2.43.0


From ba797586196f0b8f5cad8aa4bb69bacfb0ea75c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 20/55] fix: exit status of the tools when the output could not
 be written

They printed a message (double2float and one2zero not even that) and
returned success.
---
 src/tools/convert.cpp         | 5 ++++-
 src/tools/convert_blocked.cpp | 4 +++-
 src/tools/double2float.c      | 6 +++++-
 src/tools/expanded.cpp        | 4 +++-
 src/tools/one2zero.c          | 8 ++++++--
 src/tools/permute.cpp         | 5 ++++-
 src/tools/prepare.cpp         | 7 ++++++-
 src/tools/sort.cpp            | 4 +++-
 8 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index fc6bba7..1b3197b 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -20,6 +20,7 @@
  */
 int main(int argc, char * argv[])
 {
+  int status = 0;
   Coo2<VALUETYPE, INDEXTYPE> A;
   char buf[FNBUFL];
   int ret;
@@ -70,6 +71,7 @@ int main(int argc, char * argv[])
     t = tock();
     if(ret<0){
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      status = 1;
     }else{
       printf(" done in %.3f sec\n", t);
     }
@@ -84,11 +86,12 @@ int main(int argc, char * argv[])
     t = tock();
     if (ret<0) {
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      status = 1;
     } else {
       printf(" done in %.3f sec\n", t);
     }
   }
 
   release(A);
-  return 0;
+  return status;
 }
diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7eb6c51..991bcce 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -19,6 +19,7 @@ it stores the matrix (with the block IDs) to a file on disk.
 Matrix  must be zero-indexed
 */
 int main(int argc, char * argv[]){
+  int status = 0;
   Coo3<VALUETYPE, INDEXTYPE> A;
   int i, ret;
   double t;
@@ -94,10 +95,11 @@ int main(int argc, char * argv[]){
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
 
   free(A.elements);
-  return 0;
+  return status;
 }
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index cf1d819..100da34 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -43,8 +43,12 @@ int main(int argc, char * argv[])
       fwrite(&v_new, sizeof(NEWTYPE), 1, f_out);
     }
 
+    int failed = ferror(f_in) || ferror(f_out);
     fclose(f_in);
-    fclose(f_out);
+    if(fclose(f_out) != 0 || failed){
+      fprintf(stderr, "Error while converting file. Aborting.\n");
+      exit(1);
+    }
 
     printf("Conversion complete : %lu values\n", size);
   }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 9dda78a..6d7ae2a 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -15,6 +15,7 @@
 #define INDEXTYPE uint32_t
 
 int main(int argc, char * argv[]){
+  int status = 0;
   Coo3<VALUETYPE, INDEXTYPE> A;
   INDEXTYPE new_block_size;
   INDEXTYPE *block_size, *block_offset;
@@ -80,6 +81,7 @@ int main(int argc, char * argv[]){
   ret = write_bin_COO(A, buf);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -88,5 +90,5 @@ int main(int argc, char * argv[]){
   free(block_size);
   free(block_offset);
   free(A.elements);
-  return 0;
+  return status;
 }
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 13948e8..b3bc7f2 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -59,8 +59,12 @@ int main (int argc, char * argv[])
       return 1;
     }
 
-    fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
-    fclose(f_out);
+    int failed = fwrite(indeces, sizeof(INDEXTYPE), n, f_out) != n;
+    if (fclose(f_out) != 0 || failed) {
+      fprintf(stderr, "Error while writing output file. Aborting.\n");
+      free(indeces);
+      return 1;
+    }
 
     printf("Conversion complete : %lu values\n", (unsigned long ) n);
     free(indeces);
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index d41f7eb..9b2e278 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -14,6 +14,7 @@
 
 int main(int argc, char * argv[])
 {
+  int status = 0;
   INDEXTYPE *I, *permutation, *inv_permutation;
   int i, ret;
   size_t perm_size, size;
@@ -60,6 +61,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if (ret<0) {
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -84,6 +86,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    status = 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -92,5 +95,5 @@ int main(int argc, char * argv[])
 
   // Clean up
   free(permutation);
-  return 0;
+  return status;
 }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 4f6feb1..e70ae11 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -19,6 +19,7 @@
 
 int main(int argc, char * argv[])
 {
+  int status = 0;
   int i, ret;
   char buf[FNBUFL];
   double t;
@@ -143,6 +144,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -169,6 +171,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -189,6 +192,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -211,6 +215,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -223,5 +228,5 @@ int main(int argc, char * argv[])
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
 
-  return 0;
+  return status;
 }
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 45724ec..aeee347 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -12,6 +12,7 @@
 #define FNBUFL 4096
 
 int main(int argc, char * argv[]){
+  int status = 0;
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
@@ -91,8 +92,9 @@ int main(int argc, char * argv[]){
   // Check write
   if(ret1<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    status = 1;
   }
 
   release(A);
-  return 0;
+  return status;
 }
-- 
2.43.0


From 1057b98c6ae35b12c9727c4e632720542fc43635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 21/55] fix: block sizes of the sort tool

The block sizes were used as if they were block offsets (reading past their
end) and, for a MatrixMarket file, looked up in an argument that is not
there.
---
 src/tools/sort.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index aeee347..9b0089d 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -16,7 +16,7 @@ int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
-  uint32_t * block_sizes;
+  uint32_t * block_sizes, * block_offsets;
   char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
 
   // Read files
@@ -28,7 +28,7 @@ int main(int argc, char * argv[]){
                             (&A, argv[1], argv[2], argv[3]);
       break;
     case 3 :
-      ret2 = read_bin_array(argv[4], &block_sizes, &size );
+      ret2 = read_bin_array(argv[2], &block_sizes, &size );
     case 2 :
       ret1 = read_mm_COO(&A, argv[1]);
       break;
@@ -51,8 +51,12 @@ int main(int argc, char * argv[]){
     case 5 :
     case 3 :
       // Sort according to blocks
+      block_offsets = new uint32_t[size + 1];
+      size_to_offset(block_offsets, block_sizes, (uint32_t) size);
       sort_triplets_blocks(A.triplets, A.nnz,
-            block_sizes, (uint32_t) size, block_sizes, (uint32_t) size);
+            block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
+      delete [] block_offsets;
+      free(block_sizes);
       break;
     case 4 :
     case 2 :
-- 
2.43.0


From 1b27fb3b0b143c2e44c38ab326fba7153b86352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 22/55] fix: dimensions of matrices written by convert_blocked,
 expanded and prepare

The dimensions defined by the blocks were overwritten when the matrix was
read, so the files carried the largest index instead (and could not be read
back with their block sizes). expanded did not check that reading worked.
---
 src/tools/convert_blocked.cpp | 10 ++++++++--
 src/tools/expanded.cpp        | 14 +++++++++++++-
 src/tools/prepare.cpp         | 12 +++++++++---
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 991bcce..c1ef46b 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -53,8 +53,6 @@ int main(int argc, char * argv[]){
   }
   size_to_offset(block_offsets, block_sizes, A.blockrows);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
   free(block_sizes);  // Block sizes not needed anymore
 
   printf("Reading matrix from disk..."); fflush(stdout);
@@ -67,6 +65,14 @@ int main(int argc, char * argv[]){
   }
   printf(" done in %.3f sec\n", t);
 
+  // Blocks define the size of the matrix, not the largest index in the files
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Matrix does not fit in the blocks.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
+
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
   printf("Calculating block ids..."); fflush(stdout);
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 6d7ae2a..e056d95 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -48,9 +48,21 @@ int main(int argc, char * argv[]){
           (unsigned long) A.blockrows);
 
   printf("Reading matrix from disk..."); fflush(stdout);
-  read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  if (ret<0) {
+    fprintf(stderr, "Error while reading matrix.\n");
+    return 1;
+  }
   printf(" done\n");
 
+  // Blocks define the size of the matrix, not the largest index in the files
+  if (A.rows > block_offset[blocks] || A.columns > block_offset[blocks]) {
+    fprintf(stderr, "Matrix does not fit in the blocks.\n");
+    return 1;
+  }
+  A.rows = block_offset[blocks];
+  A.columns = block_offset[blocks];
+
   printf("Calculating block ids... "); fflush(stdout);
   tick();
   calculate_block_id(A.elements, A.nnz, block_offset, A.blockrows, block_offset, A.blockcols);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index e70ae11..c2320f9 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -110,14 +110,20 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
-
   ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
+
+  // Blocks define the size of the matrix, not the largest index in the files
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Matrix does not fit in the blocks.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
+
   printf("Matrix loaded to memory.\n");
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
-- 
2.43.0


From 6967cd46dfad7b41217166ddf34683133ac80589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 23/55] fix: tools release memory the way it was allocated

Arrays that come from new[] were passed to free().
---
 src/tools/convert_blocked.cpp | 2 +-
 src/tools/expanded.cpp        | 2 +-
 src/tools/permute.cpp         | 4 ++++
 src/tools/prepare.cpp         | 2 +-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index c1ef46b..53e5604 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -106,6 +106,6 @@ int main(int argc, char * argv[]){
     printf(" done in %.3f sec\n", t);
   }
 
-  free(A.elements);
+  release(A);
   return status;
 }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index e056d95..a3db6d0 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -101,6 +101,6 @@ int main(int argc, char * argv[]){
   // Clean up
   free(block_size);
   free(block_offset);
-  free(A.elements);
+  release(A);
   return status;
 }
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 9b2e278..26daee3 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -94,6 +94,10 @@ int main(int argc, char * argv[])
   free(I);
 
   // Clean up
+  #ifdef INVPERM
+  delete [] permutation;
+  #else
   free(permutation);
+  #endif
   return status;
 }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index c2320f9..ff4c836 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -229,7 +229,7 @@ int main(int argc, char * argv[])
   // Memory clean up
   free(block_sizes);
   free(block_offsets);
-  free(A.elements);
+  release(A);
 
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
-- 
2.43.0


From e4807080a5249cd7eb7eb06928efbd1fc20fdef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 24/55] fix: pprint went on with a file that could not be
 opened

---
 src/tools/pprint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index ac73ef6..cdcadf4 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -38,6 +38,7 @@ int main (int argc, char * argv[])
     f = fopen(argv[1], "rb");
     if(f==NULL){
         fprintf(stderr, "Could not open file.\n");
+        return 1;
     }
 
     switch(mode) {
-- 
2.43.0


From b7e0e0e7bb05dc65071f5b554a27576ecc425b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 25/55] fix: use the block sizes given to the blocked drivers

They are read when there are five arguments but two files make four, so they
were silently ignored.
---
 src/drivers/blocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/blocked.cpp b/src/drivers/blocked.cpp
index de3c5ed..2203293 100644
--- a/src/drivers/blocked.cpp
+++ b/src/drivers/blocked.cpp
@@ -41,7 +41,7 @@ int main(int argc, char * argv[])
     }
     printf(" done in %.4f sec\n", t);
 
-    if (argc == 5) {
+    if (argc == 4) {
 
         // Reading block sizes for rows
         printf("Reading block-row sizes from disk..."); fflush(stdout);
-- 
2.43.0


From bbdbb684ef8a5042bd24a79eefba35af41ab3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 26/55] fix: permute, ipermute and prepare check their input

An index beyond the permutation vector read past its end; a vector that is
not a permutation wrote past the end of its inverse (or left parts of it
undefined).
---
 src/tools/permute.cpp | 25 +++++++++++++++++++++++++
 src/tools/prepare.cpp | 14 ++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 26daee3..6137384 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <vector>
 
 #include "utils.h"
 #include "permute.h"
@@ -32,6 +33,16 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : permutation vector of size %lu\n", perm_size);
 
+  // Neither inverting nor applying it is possible otherwise
+  std::vector<bool> found(perm_size, false);
+  for (size_t k=0; k<perm_size; k++) {
+    if (permutation[k] >= perm_size || found[permutation[k]]) {
+      fprintf(stderr, "Not a permutation vector\n");
+      return 1;
+    }
+    found[permutation[k]] = true;
+  }
+
   #ifdef INVPERM
   inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
   if (inv_permutation == NULL) {
@@ -51,6 +62,13 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu column indeces\n", size);
 
+  for (size_t k=0; k<size; k++) {
+    if (I[k] >= perm_size) {
+      fprintf(stderr, "Column index out of range of the permutation vector\n");
+      return 1;
+    }
+  }
+
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
@@ -76,6 +94,13 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu row indeces\n", size);
 
+  for (size_t k=0; k<size; k++) {
+    if (I[k] >= perm_size) {
+      fprintf(stderr, "Row index out of range of the permutation vector\n");
+      return 1;
+    }
+  }
+
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index ff4c836..5bb4fa9 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -54,6 +54,13 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  for (size_t k=0; k<index_size; k++) {
+    if (indeces[k] >= perm_size) {
+      fprintf(stderr, "Index out of range of the permutation vector\n");
+      return 1;
+    }
+  }
+
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted row indeces to disk
@@ -75,6 +82,13 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  for (size_t k=0; k<index_size; k++) {
+    if (indeces[k] >= perm_size) {
+      fprintf(stderr, "Index out of range of the permutation vector\n");
+      return 1;
+    }
+  }
+
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted column indeces to disk
-- 
2.43.0


From a22456b2a8bd92e986352509d749ff5bb5517ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 27/55] fix: dump the partition of a balanced Cgbr matrix

It has no partition, the pointer was left undefined.
---
 include/matrix/cgbr.h | 2 +-
 include/partition.h   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index c488a59..92aa1f3 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -108,7 +108,7 @@ struct Cgbr
     IT type_nnz_count[MATRIX_TYPE_NUM];
 
     // Partitioning information
-    BlockRowPartition<IT> * partition;
+    BlockRowPartition<IT> * partition {nullptr};
     bool balanced;
 
     // Block size information
diff --git a/include/partition.h b/include/partition.h
index 15b83c3..ea77bcc 100644
--- a/include/partition.h
+++ b/include/partition.h
@@ -51,6 +51,9 @@ Index_t partition_blockrow(const Matrix_t * A, BlockRowPartition<Index_t> * part
 template <class Index_t>
 void partition_dump(BlockRowPartition<Index_t> * partition, Index_t blockrows)
 {
+    // Balanced matrices have none
+    if (partition == nullptr) return;
+
     for (Index_t br=0; br<blockrows; br++)
     {
         printf("%u,%u:\t", br, partition[br].nchunks());
-- 
2.43.0


From c568945a6d16c9f330bda2d0e9775b7226f8e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 28/55] fix: read all elements of a Cgbr matrix from a blocked
 file

The first element of the file was lost, whether the block-rows are balanced
was never decided and a truncated file was not noticed.
---
 include/io/blocked.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 7f87a96..6f13743 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -402,7 +402,14 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
     fr += fread(&cur_col, sizeof(IT), 1, f);
     fr += fread(&cur_val, sizeof(T), 1, f);
 
-    // Check if this is the begining of a new block
+    if(fr != 4 && i + 1 < A->nnz){
+      fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
+      return -4;
+    }
+
+    // Check if this is the begining of a new block. "b" is the block of the
+    // element after "i".
     if( b != prev_b || fr == 0){
       br = prev_b / blockcols;
       bc = prev_b % blockcols;
@@ -416,7 +423,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
       A->blockcol_ind[block_index] = bc;
 
       // Read new block in memory
-      block_nnz = i - block_start;
+      block_nnz = i + 1 - block_start;
       temp_array = new Element<T,IT>[block_nnz];
       if(fr == 4)
         fseek(f, - ((long) ((block_nnz + 1) * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
@@ -448,7 +455,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
       delete [] temp_array;
       fseek(f, (long)  (3*sizeof(IT) + sizeof(T)), SEEK_CUR);
       block_index++;
-      block_start = i;
+      block_start = i + 1;
       prev_b = b;
     }
   }
@@ -463,7 +470,11 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   }
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
-  partition_init(A);
+  A->balanced = A->is_balanced();
+
+  if (!A->balanced) {
+    partition_init(A);
+  }
 
   return 0;
 }
-- 
2.43.0


From 663ce95ae034fa949f208fb18b36bd22ba484623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 29/55] fix: read blocked files with 64-bit indices

UINT_MAX + 1 is only 0 for 32-bit indices.
---
 include/io/blocked.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 6f13743..a8204d6 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -2,7 +2,7 @@
 #define _IO_BLOCKED_H_
 #include <cassert>
 #include <cstdio>
-#include <climits>
+#include <limits>
 
 #include "common.h"
 #include "matrix/csr.1.h"
@@ -89,8 +89,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = std::numeric_limits<IT>::max();  // Adding one to it gives 0
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -107,7 +107,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
 
       block_index++;
       prev_b = b;
@@ -187,8 +187,8 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = std::numeric_limits<IT>::max();  // Adding one to it gives 0
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -205,7 +205,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
 
       block_index++;
       prev_b = b;
@@ -301,7 +301,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     A->blocks[i].rows = 0;
   }
 
-  prev_b = UINT_MAX;
+  prev_b = std::numeric_limits<IT>::max();
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -316,7 +316,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
     // Check if this is the begining of a new block
     if( b != prev_b){
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
-- 
2.43.0


From 94e4c81df6f9d7bd57e91a5ccfbebfd261e097d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 30/55] fix: narrow local indices must not wrap silently

---
 include/matrix/block_coo.1.h | 2 +-
 include/matrix/block_coo.2.h | 2 +-
 include/matrix/block_csr.h   | 3 +++
 include/matrix/blocks.h      | 1 +
 include/matrix/coo.1.h       | 7 +++++--
 include/matrix/csbr.3.h      | 3 ++-
 include/matrix/cswr.h        | 3 ++-
 7 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index c41d9c0..98b28d9 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -48,7 +48,7 @@ int Coo_to_Coo(BlockCoo<T,IT,SIT> * A, NONZERO * array, IT nnz)
 
   if (sizeof(IT) > sizeof(SIT))
   {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = IT(1) << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++)
     {
         assert(array[i].row < max_index && array[i].col < max_index);
diff --git a/include/matrix/block_coo.2.h b/include/matrix/block_coo.2.h
index b6eea53..4d96c29 100644
--- a/include/matrix/block_coo.2.h
+++ b/include/matrix/block_coo.2.h
@@ -36,7 +36,7 @@ int Coo_to_Coo(BlockCoo2<T,IT,SIT> * A, NONZERO * array, IT nnz)
   allocate(A, nnz);
 
   if (sizeof(IT) > sizeof(SIT)) {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = IT(1) << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++) {
         assert(array[i].row < max_index && array[i].col < max_index);
     }
diff --git a/include/matrix/block_csr.h b/include/matrix/block_csr.h
index a5cd3d7..6e81590 100644
--- a/include/matrix/block_csr.h
+++ b/include/matrix/block_csr.h
@@ -1,6 +1,8 @@
 #ifndef _BLOCK_CSR_H_
 #define _BLOCK_CSR_H_
 
+#include <cassert>
+
 /*
  * CSR matrix represented as an array of row pointers and two arrays for
  * non-zero values and column indexes.
@@ -51,6 +53,7 @@ int Coo_to_Csr(BlockCsr<T,IT,SIT> * A, NONZERO * nonzeros,
   for (IT i=0; i<nnz; i++)
   {
     A->col_ind[i] = nonzeros[i].col;
+    assert(A->col_ind[i] == nonzeros[i].col);
     A->val[i] = nonzeros[i].val;
     (A->row_ptr[nonzeros[i].row + 1])++;
   }
diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index 050d317..d504dc2 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -32,6 +32,7 @@ struct BlockCsrSerial : public BlockBase<T,IT>
 
         for (IT i=0; i<nnz; i++) {
             col_ind[i] = array[i].col;
+            assert(col_ind[i] == array[i].col);
             val[i]  = array[i].val;
             row_ptr[array[i].row + 1]++;
         }
diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index 64d1033..0bffa7e 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -1,6 +1,8 @@
 #ifndef _COO_1_H_
 #define _COO_1_H_
 
+#include <cassert>
+
 #include "typedefs.h"
 #include "generic/coo.h"
 #include "generic/base.h"
@@ -26,6 +28,7 @@ struct Coo : public BlockBase<T,IT>
         {
             I[i] = array[i].row;
             J[i] = array[i].col;
+            assert(I[i] == array[i].row && J[i] == array[i].col);
             val[i] = array[i].val;
         }
     }
@@ -45,8 +48,8 @@ struct Coo : public BlockBase<T,IT>
     T get_value (IT i) const { return val[i]; }
 
     // Setters
-    void set_row_index (IT i, IT row) { I[i] = row; }
-    void set_column_index (IT i, IT column) { J[i] = column; }
+    void set_row_index (IT i, IT row) { I[i] = row; assert(I[i] == row); }
+    void set_column_index (IT i, IT column) { J[i] = column; assert(J[i] == column); }
     void set_value (IT i, T val_) { val[i] = val_; }
 
     /*
diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index 36f0607..b7676fd 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -114,9 +114,10 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
         assert(B->elements[i].col >= bc_offset);
         assert(B->elements[i].col < bc_offset + block_size);
 
-        // TODO: Assert type casts are safe
         A->row_ind[i] = B->elements[i].row - br_offset;
         A->col_ind[i] = B->elements[i].col - bc_offset;
+        assert(A->row_ind[i] == B->elements[i].row - br_offset);
+        assert(A->col_ind[i] == B->elements[i].col - bc_offset);
         A->val[i] = B->elements[i].val;
     }
 
diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index 8c43ab3..433f9c9 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -73,7 +73,8 @@ void Coo_to_Cswr (
         A->col[i] = array[i].col;
         A->val[i] = array[i].val;
 
-        assert(A->row[i] < width);
+        // Make sure that SIT is wide enough
+        assert(A->row[i] == array[i].row % width);
     }
 
     for (IT j=0; j<A->nwrows; j++) {
-- 
2.43.0


From c43935230029a08f08007008ea590a53903ebdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 31/55] fix: size of aligned vectors must be a multiple of the
 alignment

---
 include/common.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/common.h b/include/common.h
index 49b07a3..42d373f 100644
--- a/include/common.h
+++ b/include/common.h
@@ -23,13 +23,23 @@ int64_t highest_bit_set(int64_t v);
 unsigned int highest_bit_set(unsigned int v);
 int highest_bit_set(int v);
 
+/*
+ * Size of the memory for a vector. aligned_alloc() wants a multiple of the
+ * alignment.
+ */
+template <class T>
+size_t vector_bytes (size_t size)
+{
+    return (size * sizeof(T) + 63) / 64 * 64;
+}
+
 /*
  * Vector initialization with random data
  */
 template <class T, class IT>
 void vector_random (T **x, IT size)
 {
-    *x = static_cast<T*>(aligned_alloc(64, size * sizeof(T)));
+    *x = static_cast<T*>(aligned_alloc(64, vector_bytes<T>(size)));
 
     for (IT i=0; i<size; i++)
     {
@@ -40,7 +50,7 @@ void vector_random (T **x, IT size)
 template <class T, class IT>
 void vector_zero (T **x, IT size)
 {
-    *x = static_cast<T*>(aligned_alloc(64, size * sizeof(T)));
+    *x = static_cast<T*>(aligned_alloc(64, vector_bytes<T>(size)));
 
     for (IT i=0; i<size; i++)
     {
-- 
2.43.0


From 1c9f295937b8e3843c0d4c4b88c079c398e4bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 32/55] fix: pbench checks the permutation vector

---
 src/drivers/pbench.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/drivers/pbench.cpp b/src/drivers/pbench.cpp
index dfed47b..f25d764 100644
--- a/src/drivers/pbench.cpp
+++ b/src/drivers/pbench.cpp
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <vector>
 
 #define INVPERM
 #define _NO_CSB_ALIGNED_MALLOC_
@@ -56,6 +57,18 @@ int main(int argc, char * argv[])
     }
     printf("Read permutation vector. Size : %lu\n", perm_size);
 
+    // Neither inverting nor applying it is possible otherwise
+    std::vector<bool> found(perm_size, false);
+    bool valid = (perm_size == coo.rows && perm_size == coo.columns);
+    for (size_t k=0; valid && k<perm_size; k++) {
+        valid = (permutation[k] < perm_size && !found[permutation[k]]);
+        if (valid) found[permutation[k]] = true;
+    }
+    if (!valid) {
+        fprintf(stderr, "Not a permutation vector for this matrix\n");
+        return 1;
+    }
+
     #ifdef INVPERM
     inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
     if (inv_permutation == NULL) {
-- 
2.43.0


From bbea538d82cf79e42d4ecc9697c068c67dfd127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 33/55] fix: Matrix Market size line that is no size line or
 out of range is an error

---
 dep/mm_io/mm_io.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index c69687f..e8abff3 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -431,7 +431,9 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  long size[3];
+  int comment = 0;
+  int line_start = 1;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -439,7 +441,8 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
   *N = 0;
   *nz = 0;
 /*
-  now continue scanning until you reach the end-of-comments
+  now continue scanning until you reach the end-of-comments. Comments may be
+  longer than line[] and blank lines may follow them
 */
   do
   {
@@ -447,27 +450,24 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     {
       return MM_PREMATURE_EOF;
     }
-  } while (line[0] == '%');
+    if (line_start) comment = (line[0] == '%');
+    line_start = (strchr(line, '\n') != NULL);
+  } while (comment || line[strspn(line, " \t\r\n")] == '\0');
 /*
-  line[] is either blank or has M,N, nz
+  line[] has M,N, nz
 */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
+  if (sscanf(line, "%ld %ld %ld", &size[0], &size[1], &size[2]) != 3)
   {
-    return 0;
+    return MM_PREMATURE_EOF;
   }
-  else
+  if (size[0] != (int) size[0] || size[1] != (int) size[1] ||
+      size[2] != (int) size[2])
   {
-    do
-    {
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      /* Trying again can not help: scanning stopped at something that is
-         not a number or at the end of the file */
-      if (num_items_read != 3)
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+    return MM_UNSUPPORTED_TYPE;
   }
+  *M = (int) size[0];
+  *N = (int) size[1];
+  *nz = (int) size[2];
   return 0;
 }
 /******************************************************************************/
-- 
2.43.0


From f7b6f7ed5fbf0368406ed00c7ebb6f0aaf1b3686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 34/55] fix: pick_block_size() with dimensions of 2^26 and more

With 64-bit indices the size was not limited to what 16-bit local indices
can address, and with 32-bit ones the space of the vectors was computed
modulo 2^32; shifts of 1 overflowed for still larger dimensions.
---
 include/utils.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 2f10bc1..d633789 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -14,8 +14,8 @@ template <class IT>
 IT pick_block_size(IT m, IT n, size_t val_size, int workers)
 {
     bool ispar = (workers > 1);
-    IT roundrowup = next_power_of_two(m);
-    IT roundcolup = next_power_of_two(n);
+    uint64_t roundrowup = next_power_of_two(m);
+    uint64_t roundcolup = next_power_of_two(n);
 
     // if indices are negative, highestbitset returns -1,
     // but that will be caught by the sizereq below
@@ -23,8 +23,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT colbits = highest_bit_set(roundcolup);
     bool sizereq;
     if (ispar) {
-    	sizereq = ( (1 << rowbits) > SLACKNESS * workers) &&
-    		      ( (1 << colbits) > SLACKNESS * workers);
+    	sizereq = ( (uint64_t(1) << rowbits) > uint64_t(SLACKNESS) * workers) &&
+    		      ( (uint64_t(1) << colbits) > uint64_t(SLACKNESS) * workers);
     } else {
     	sizereq = ((rowbits > 1) && (colbits > 1));
     }
@@ -40,7 +40,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT rowlowbits = rowbits-1;	
     IT collowbits = colbits-1;	
     IT inf = std::numeric_limits<IT>::max();
-    IT maxbits = highest_bit_set(inf);
+    // blocks are never larger than what 16-bit indices can address
+    IT maxbits = std::min<IT>(highest_bit_set(inf), 31);
 
     IT rowhighbits = rowbits-rowlowbits;	// # higher order bits for rows (has at least one bit)
     IT colhighbits = colbits-collowbits;	// # higher order bits for cols (has at least one bit)
@@ -52,7 +53,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that suby occupies in L2 cache
-    IT yL2 = (1 << rowlowbits) * val_size;
+    uint64_t yL2 = (uint64_t(1) << rowlowbits) * val_size;
     while(yL2 > L2SIZE)
     {
     	yL2 /= 2;
@@ -61,7 +62,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that subx occupies in L2 cache
-    IT xL2 = (1 << collowbits) * val_size;
+    uint64_t xL2 = (uint64_t(1) << collowbits) * val_size;
     while(xL2 > L2SIZE)
     {
     	xL2 /= 2;
-- 
2.43.0


From 3da34f5f9bb65a23b23ee5eb87727806385b2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 35/55] fix: Csbr from triplets with 2^32 blocks and more wrote
 outside its counters

---
 include/matrix/csbr.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 7500c8c..24eb361 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -114,14 +114,14 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo2<T, IT> * B,
   DEBUG(puts("Sorting complete"));
 
   // Initialize non-zero counter to zero
-  IT * counter = new IT[blockrows*blockcols]();
+  IT * counter = new IT[(size_t) blockrows*blockcols]();
 
   // Count non-zeros of each block
   for (IT i=0; i<nnz; i++)
   {
     br = index_to_blockindex(blockrow_offset, blockrows, B->triplets[i].row);
     bc = index_to_blockindex(blockcol_offset, blockcols, B->triplets[i].col );
-    counter[br*blockcols + bc]++;
+    counter[(size_t) br*blockcols + bc]++;
   }
 
   // Memory allocation for block-row pointers
@@ -136,7 +136,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo2<T, IT> * B,
   {
     for (IT j=0; j<blockcols; j++)
     {
-      if (counter[i*blockcols + j] > 0) nnz_blocks++ ;
+      if (counter[(size_t) i*blockcols + j] > 0) nnz_blocks++ ;
     }
     A->blockrow_ptr[i+1] = nnz_blocks;
   }
@@ -156,7 +156,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo2<T, IT> * B,
 
     for (IT j=0; j<blockcols; j++)
     {
-      block_nnz = counter[i*blockcols+j];
+      block_nnz = counter[(size_t) i*blockcols+j];
       if (block_nnz>0)
       {
         bc_offset = blockcol_offset[j];
-- 
2.43.0


From 35b67f2bec1e290825911e65c80e16683b25964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 36/55] fix: first block of a blocked matrix with the largest
 number of the index type got no place

---
 include/io/blocked.h    | 4 ++--
 include/matrix/csbr.2.h | 2 +-
 include/matrix/csbr.3.h | 2 +-
 include/matrix/csbr.h   | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index a8204d6..8467d90 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -104,7 +104,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     }
 
     // Check if this is the begining of a new block
-    if( b != prev_b){
+    if( i == 0 || b != prev_b){
 
       // Make sure blocks are sorted correctly
       assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
@@ -202,7 +202,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     }
 
     // Check if this is the begining of a new block
-    if( b != prev_b){
+    if( i == 0 || b != prev_b){
 
       // Make sure blocks are sorted correctly
       assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index f134966..ab612a1 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -123,7 +123,7 @@ void Coo_to_Csbr(Csbr2<T,IT> * A, Coo3<T,IT> * B,
     b = B->elements[i].block;
 
     // Check if this is the begining of a new block
-    if (b != prev_b) {
+    if (i == 0 || b != prev_b) {
       br = b / blockcols;
       bc = b % blockcols;
       br_offset = blockrow_offset[br];
diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index b7676fd..095d88a 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -94,7 +94,7 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
         b = B->elements[i].block;
 
         // Check if this is the begining of a new block
-        if (b != prev_b) {
+        if (i == 0 || b != prev_b) {
             br = b / A->blockcols;
             bc = b % A->blockcols;
             br_offset = br * block_size;
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 24eb361..3c0b4f1 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -243,7 +243,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
     b = B->elements[i].block;
 
     // Check if this is the begining of a new block
-    if (b != prev_b)
+    if (i == 0 || b != prev_b)
     {
       block_index++;
       prev_b = b;
-- 
2.43.0


From 6f69d43257c5c2f821fe9cb3edcc5cf4e048b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 37/55] fix: dense matrix with more cells than the index type
 can number wrote outside its memory

---
 include/matrix/dense.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 819d59b..0c12c0b 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -2,6 +2,7 @@
 #define _DENSE_H_
 
 #include <cassert>
+#include <limits>
 
 #include "typedefs.h"
 #include "matrix/coo.2.h"
@@ -23,6 +24,9 @@ struct DenseSerial : public BlockBase<T,IT>
     {
         IT pos;
 
+        // Watch out for integer overflow
+        assert(rows == 0 || columns <= std::numeric_limits<IT>::max() / rows);
+
         val = new T[rows * columns]();
 
         for (IT i=0; i<nnz; i++)
@@ -102,11 +106,10 @@ template <class NONZERO, class T, class IT,
           template <typename, typename> class DENSE>
 void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT nnz)
 {
-    IT pos, N;
+    IT pos;
 
     // Watch out for integer overflow
-    N = rows * columns;
-    assert(N >= rows);
+    assert(rows == 0 || columns <= std::numeric_limits<IT>::max() / rows);
 
     allocate(A, rows, columns);
 
-- 
2.43.0


From 17a61231a933ab93f78655aaf60df4ed5baac5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 38/55] fix: MatrixMarket entries with missing, extra or broken
 fields were read as something else

---
 include/io/input.h | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index e9070b5..e83812d 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -4,6 +4,8 @@
 #include <algorithm>
 #include <cassert>
 #include <cstdio>
+#include <cstdlib>
+#include <cstring>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -42,19 +44,37 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
 
 /*
  * Read one entry of a Matrix Market coordinate file. Entries of a pattern
- * matrix have no value, they all count as 1. Returns the same as fscanf() for
- * an entry with a value.
+ * matrix have no value, they all count as 1. Returns 3 for an entry, EOF at the
+ * end of the file and 0 if there is anything else than an entry in the line.
  */
 inline int read_mm_entry(FILE * f, MM_typecode matcode,
                          unsigned long * r, unsigned long * c, double * val)
 {
+  char line[MM_MAX_LINE_LENGTH];
+  char const * const blanks = " \t\r\n\v\f";
+  char *col_field, *val_field, *rest;
+
+  // Every entry has its own line. There may be blank lines in between.
+  do {
+    if (fgets(line, sizeof(line), f) == NULL) return EOF;
+  } while (line[strspn(line, blanks)] == '\0');
+  if (strchr(line, '\n') == NULL && !feof(f)) return 0;
+
+  // Read negative positions as such, they must not wrap around
+  *r = (unsigned long) strtol(line, &col_field, 10);
+  *c = (unsigned long) strtol(col_field, &val_field, 10);
+  if (strspn(col_field, blanks) == 0) return 0;
+
   if (mm_is_pattern(matcode)) {
-    int ret = fscanf(f, "%lu %lu\n", r, c);
     *val = 1.0;
-    return (ret == 2) ? 3 : ret;
+    rest = val_field;
+  } else {
+    *val = strtod(val_field, &rest);
+    if (rest == val_field || strspn(val_field, blanks) == 0) return 0;
   }
 
-  return fscanf(f, "%lu %lu %lg\n", r, c, val);
+  // Nothing else may follow in this line
+  return (rest[strspn(rest, blanks)] == '\0') ? 3 : 0;
 }
 
 /*
-- 
2.43.0


From cfa206fde7b7a2ae4a8519cb33c058de60fd5d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 39/55] fix: three files of different lengths, or with
 positions beyond the index type, are no matrix

---
 include/io/input.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index e83812d..378756b 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -6,6 +6,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -195,11 +196,12 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 {
   IT size;
   size_t counter = 0;
+  bool complete = true;  // All of them hold that many
   IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
   // Read row file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -219,6 +221,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     if(A->I[i] > max_row) max_row = A->I[i];
   }
 
+  if (fgetc(fr) != EOF) complete = false;
   fclose(fr);
 
   // Read column file
@@ -234,6 +237,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     if(A->J[i] > max_col) max_col = A->J[i];
   }
 
+  if (fgetc(fc) != EOF) complete = false;
   fclose(fc);
 
   // Read value file
@@ -245,9 +249,14 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
   }
 
   counter += fread(A->val, sizeof(T), size, fv);
+  if (fgetc(fv) != EOF) complete = false;
   fclose(fv);
 
-  if (counter != 3 * (size_t) size) {
+  // The dimensions have to fit the index type
+  complete &= max_row < std::numeric_limits<IT>::max();
+  complete &= max_col < std::numeric_limits<IT>::max();
+
+  if (counter != 3 * (size_t) size || !complete) {
     fprintf(stderr, "Failed to read matrix.\n");
     release(*A);
     return -2;
@@ -275,10 +284,11 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   IT size, buffer = 0;
   IT max_row = 0, max_col = 0;
   size_t counter = 0;
+  bool complete = true;  // All of them hold that many
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -298,6 +308,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     if (buffer > max_row) max_row = buffer;
   }
 
+  if (fgetc(fr) != EOF) complete = false;
   fclose(fr);
 
   // Read column file
@@ -316,6 +327,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     if (buffer > max_col) max_col = buffer;
   }
 
+  if (fgetc(fc) != EOF) complete = false;
   fclose(fc);
 
   // Read value file
@@ -333,9 +345,14 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     A->set_value(i, vbuffer);
   }
 
+  if (fgetc(fv) != EOF) complete = false;
   fclose(fv);
 
-  if (counter != 3 * (size_t) size)
+  // The dimensions have to fit the index type
+  complete &= max_row < std::numeric_limits<IT>::max();
+  complete &= max_col < std::numeric_limits<IT>::max();
+
+  if (counter != 3 * (size_t) size || !complete)
   {
     fprintf(stderr, "Failed to read matrix.\n");
     release(*A);
-- 
2.43.0


From eaff292bf3fe4478f648f46d78ff3e20dafaa542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 40/55] fix: arrays whose last element is cut off are refused

---
 include/io/input.h       | 6 +++++-
 src/tools/double2float.c | 6 ++++--
 src/tools/one2zero.c     | 8 +++++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 378756b..cd219c6 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -20,7 +20,11 @@
 template <class T>
 int read_bin_array(const char * filename, T ** data, size_t * num )
 {
-  size_t size = get_file_size(filename) / sizeof(T);
+  size_t bytes = get_file_size(filename);
+  size_t size = bytes / sizeof(T);
+
+  // The last one must not be cut off
+  if (bytes % sizeof(T) != 0) return -4;
 
   // Allocate memory
   *num = size;
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 100da34..a7ea95f 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -37,13 +37,15 @@ int main(int argc, char * argv[])
       exit(1);
     }
 
-    while(fread(&v, sizeof(OLDTYPE), 1, f_in) > 0){
+    size_t ret;
+    while((ret = fread(&v, 1, sizeof(OLDTYPE), f_in)) == sizeof(OLDTYPE)){
       size++;
       v_new = (NEWTYPE) v;
       fwrite(&v_new, sizeof(NEWTYPE), 1, f_out);
     }
 
-    int failed = ferror(f_in) || ferror(f_out);
+    // The last value must not be cut off
+    int failed = ret != 0 || ferror(f_in) || ferror(f_out);
     fclose(f_in);
     if(fclose(f_out) != 0 || failed){
       fprintf(stderr, "Error while converting file. Aborting.\n");
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index b3bc7f2..4a38910 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -38,9 +38,15 @@ int main (int argc, char * argv[])
     indeces = (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
 
     fseek(f_in, 0, SEEK_SET);
-    fread(indeces, sizeof(INDEXTYPE), n, f_in);
+    int incomplete = fread(indeces, sizeof(INDEXTYPE), n, f_in) != n;
     fclose(f_in);
 
+    if (incomplete || size % sizeof(INDEXTYPE) != 0) {
+        fprintf(stderr, "Could not read whole indeces only. Aborting.\n");
+        free(indeces);
+        return 1;
+    }
+
     // Convert and check
     for (INDEXTYPE j=0; j<n; j++) {
         if (indeces[j] == 0) {
-- 
2.43.0


From 786fd771f7edb8095185c2292b54e9fd2c70bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 41/55] fix: sort refuses blocks that do not cover the matrix

---
 src/tools/sort.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index 9b0089d..d867310 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -53,6 +53,10 @@ int main(int argc, char * argv[]){
       // Sort according to blocks
       block_offsets = new uint32_t[size + 1];
       size_to_offset(block_offsets, block_sizes, (uint32_t) size);
+      if (A.rows > block_offsets[size] || A.columns > block_offsets[size]) {
+        fprintf(stderr, "Matrix does not fit in the blocks.\n");
+        exit(1);
+      }
       sort_triplets_blocks(A.triplets, A.nnz,
             block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
       delete [] block_offsets;
-- 
2.43.0


From dabc94f820a72af806164aeef3e660fce4993bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 42/55] fix: pprint printed leftovers for files that end too
 early

---
 src/tools/pprint.c | 50 ++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index cdcadf4..6761c33 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -6,6 +6,17 @@
 #define INDEXTYPE uint32_t
 #define VALUETYPE float
 
+/*
+ * Read one number. There has to be one.
+ */
+static void read_number (void * number, size_t size, FILE * f)
+{
+    if (fread(number, size, 1, f) != 1) {
+        fprintf(stderr, "The file ends too early.\n");
+        exit(1);
+    }
+}
+
 /*
  * Tool to read binary files in some of the formats used in this project
  * WARNING : Always pipe results somewhere (eg. to 'less')
@@ -13,6 +24,7 @@
 int main (int argc, char * argv[])
 {
     unsigned long i;
+    size_t size;
     int mode;
     INDEXTYPE n, r, c, nnz;
     VALUETYPE v;
@@ -43,52 +55,56 @@ int main (int argc, char * argv[])
 
     switch(mode) {
         case 0:  // Binary triples file
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
+        read_number(&r, sizeof(INDEXTYPE), f);
+        read_number(&c, sizeof(INDEXTYPE), f);
+        read_number(&nnz, sizeof(INDEXTYPE), f);
         printf("%lu rows x %lu columns, %lu non-zeros\n",
                 (unsigned long) r, (unsigned long) c, (unsigned long) nnz);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_number(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_number(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_number(&v, sizeof(VALUETYPE), f);
             printf("%12f\n", (double) v);
         }
         break;
 
         case 1: // Binary file with block info (.csbr)
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
+        read_number(&r, sizeof(INDEXTYPE), f);
+        read_number(&c, sizeof(INDEXTYPE), f);
+        read_number(&nnz, sizeof(INDEXTYPE), f);
+        read_number(&n, sizeof(INDEXTYPE), f);
+        read_number(&n, sizeof(INDEXTYPE), f);
+        read_number(&n, sizeof(INDEXTYPE), f);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_number(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_number(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_number(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_number(&v, sizeof(VALUETYPE), f);
             printf("%12e\n", v);
         }
         break;
 
         case 2: // Binary vector file (INDEXTYPE)
-        while(fread(&n, sizeof(INDEXTYPE), 1, f) > 0) printf("%12u\n", n);
+        while((size = fread(&n, 1, sizeof(INDEXTYPE), f)) == sizeof(INDEXTYPE)) printf("%12u\n", n);
+        if (size != 0 || ferror(f)) {
+            fprintf(stderr, "The file ends too early.\n");
+            return 1;
+        }
         break;
     }
 
-- 
2.43.0


From 2b38c31b0d81c473d4be38df28cc35b579ed4a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 43/55] fix: pprint reports output that could not be written

---
 src/tools/pprint.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index 6761c33..3a38693 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -109,5 +109,11 @@ int main (int argc, char * argv[])
     }
 
     fclose(f);
+
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "Error while writing output.\n");
+        return 1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 56c2f0e080fba807a04bac748de1f27b0bf9ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 44/55] fix: damaged blocked files are refused with an error
 and nothing left behind

---
 include/io/blocked.h | 272 ++++++++++++++++++++++---------------------
 1 file changed, 137 insertions(+), 135 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 8467d90..e16b036 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -3,6 +3,7 @@
 #include <cassert>
 #include <cstdio>
 #include <limits>
+#include <vector>
 
 #include "common.h"
 #include "matrix/csr.1.h"
@@ -22,6 +23,8 @@
  *   nnzblocks
  *   blockrow_offset
  *   blockcol_offset
+ * Returns NULL if the file can't be opened or does not fit the given blocks. As
+ * long as reading has not succeeded, the offset arrays belong to the caller.
  */
 template <class BLOCKEDTYPE, class IT>
 FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
@@ -32,7 +35,7 @@ FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * bloc
   FILE * f = fopen(filename, "rb");
   if(f == NULL){
     fprintf(stderr, "Cannot open input file.\n");
-    exit(1);
+    return NULL;
   }
 
   // Read header
@@ -47,16 +50,47 @@ FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * bloc
   A->blockcol_offset = blockcol_offset;
 
   // Sanity check
-  assert(n == 6);
-  assert(A->blockrows == blockrows);
-  assert(A->blockcols == blockcols);
-  assert(A->blockrow_offset[A->blockrows] == A->rows);
-  assert(A->blockcol_offset[A->blockcols] == A->columns);
+  if (n != 6 ||
+      A->blockrows != blockrows || blockrow_offset[blockrows] != A->rows ||
+      A->blockcols != blockcols || blockcol_offset[blockcols] != A->columns ||
+      A->nnzblocks > A->nnz || get_file_size(filename) / (3 * sizeof(IT)) < A->nnz) {
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return NULL;
+  }
 
   DEBUG(printf("\nReading header done\n"));
   return f;
 }
 
+/*
+ * Read element i of a matrix in blocked format. Elements are sorted by block
+ * and row, "previous" is the one before this. Returns false if there is no
+ * such element.
+ */
+template <class BLOCKEDTYPE, class T, class IT>
+bool read_bin_blocked_element(FILE * f, BLOCKEDTYPE const * A, IT i,
+                              Element<T,IT> const& previous, Element<T,IT> * element)
+{
+  size_t n;
+
+  n  = fread(&(element->block), sizeof(IT), 1, f);
+  n += fread(&(element->row), sizeof(IT), 1, f);
+  n += fread(&(element->col), sizeof(IT), 1, f);
+  n += fread(&(element->val), sizeof(T), 1, f);
+  if (n != 4) return false;
+
+  if (i > 0 && (element->block < previous.block ||
+      (element->block == previous.block && element->row < previous.row))) return false;
+
+  if (A->blockcols == 0) return false;
+  IT br = element->block / A->blockcols;
+  IT bc = element->block % A->blockcols;
+  return br < A->blockrows &&
+         element->row >= A->blockrow_offset[br] && element->row < A->blockrow_offset[br + 1] &&
+         element->col >= A->blockcol_offset[bc] && element->col < A->blockcol_offset[bc + 1];
+}
+
 /*
  * Read a blocked sparse matrix in CSBR format from a binary (.block) file.
  */
@@ -67,13 +101,11 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   IT block_index;
   IT br, br_offset, br_size;
   IT bc, bc_offset;
-  IT b, prev_b;
-  IT cur_row, cur_col;
-  T cur_val;
-  size_t fr;
+  Element<T, IT> previous {}, current {};
 
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Csbr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  if (f == NULL) return -1;
 
   // Allocate memory
   A->blocks = (Csr<T,IT> *) malloc( A->nnzblocks * sizeof(Csr<T,IT>));
@@ -82,37 +114,27 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   A->val = (T *) malloc( A->nnz * sizeof(T));
   A->col_ind = (IT *) malloc( A->nnz * sizeof(IT));
 
-  if(A->blocks==NULL || A->blockcol_ind==NULL || A->blockrow_ptr==NULL || A->col_ind==NULL || A->val==NULL){
-    fprintf(stderr, "Memory allocation failed.");
-    return -3;
-  }
+  bool valid = A->blocks!=NULL && A->blockcol_ind!=NULL && A->blockrow_ptr!=NULL && A->col_ind!=NULL && A->val!=NULL;
+  if (!valid) fprintf(stderr, "Memory allocation failed.");
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = std::numeric_limits<IT>::max();  // Adding one to it gives 0
-  prev_b = std::numeric_limits<IT>::max();
+  IT nnzblocks = 0;  // So far
 
   // Read data section
-  for(IT i=0; i<A->nnz; i++){
-    fr  = fread(&b, sizeof(IT), 1, f);
-    fr += fread(&cur_row, sizeof(IT), 1, f);
-    fr += fread(&cur_col, sizeof(IT), 1, f);
-    fr += fread(&cur_val, sizeof(T), 1, f);
-    if(fr != 4){
-      fprintf(stderr, "Error while reading data section.\n");
-      return -4;
-    }
+  for(IT i=0; valid && i<A->nnz; i++){
+    valid = read_bin_blocked_element(f, A, i, previous, &current);
+    if (!valid) break;
 
     // Check if this is the begining of a new block
-    if( i == 0 || b != prev_b){
+    if( i == 0 || current.block != previous.block){
 
-      // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
+      valid = (nnzblocks < A->nnzblocks);
+      if (!valid) break;
 
-      block_index++;
-      prev_b = b;
-      br = b / blockcols;
-      bc = b % blockcols;
+      block_index = nnzblocks++;
+      br = current.block / blockcols;
+      bc = current.block % blockcols;
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
       br_size = blockrow_offset[br + 1] - br_offset;
@@ -128,17 +150,25 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
-    assert(cur_row >= br_offset);
-    assert(cur_row  < br_size + br_offset);
-    assert(cur_col >= bc_offset);
-
-    A->blocks[block_index].row_ptr[cur_row - br_offset + 1]++;  // Count non-zeros per row
-    A->col_ind[i] = cur_col - bc_offset;
-    A->val[i] = cur_val;
+    A->blocks[block_index].row_ptr[current.row - br_offset + 1]++;  // Count non-zeros per row
+    A->col_ind[i] = current.col - bc_offset;
+    A->val[i] = current.val;
+    previous = current;
   }
 
   fclose(f);
 
+  if (!valid || nnzblocks != A->nnzblocks) {
+    fprintf(stderr, "Error while reading data section.\n");
+    for (IT bi=0; bi<nnzblocks; bi++) delete [] A->blocks[bi].row_ptr;
+    free(A->blocks);
+    free(A->blockcol_ind);
+    free(A->blockrow_ptr);
+    free(A->val);
+    free(A->col_ind);
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Get row pointers from row non-zero counters
@@ -166,13 +196,11 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
   IT block_index;
   IT br, br_offset, br_size;
   IT bc, bc_offset;
-  IT b, prev_b;
-  IT cur_row, cur_col;
-  T cur_val;
-  size_t fr;
+  Element<T, IT> previous {}, current {};
 
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Csbr2<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  if (f == NULL) return -1;
 
   // Allocate memory
   A->blockrow_ptr = (IT *) calloc( A->blockrows + 1 , sizeof(IT));
@@ -180,37 +208,27 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
   A->col_ind = (IT *) malloc( A->nnz * sizeof(IT));
   A->val = (T *) malloc( A->nnz * sizeof(T));
 
-  if(A->blockrow_ptr==NULL || A->col_ind==NULL || A->val==NULL || A->row_ptr==NULL){
-    fprintf(stderr, "Memory allocation failed.");
-    return -3;
-  }
+  bool valid = A->blockrow_ptr!=NULL && A->col_ind!=NULL && A->val!=NULL && A->row_ptr!=NULL;
+  if (!valid) fprintf(stderr, "Memory allocation failed.");
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = std::numeric_limits<IT>::max();  // Adding one to it gives 0
-  prev_b = std::numeric_limits<IT>::max();
+  IT nnzblocks = 0;  // So far
 
   // Read data section
-  for(IT i=0; i<A->nnz; i++){
-    fr  = fread(&b, sizeof(IT), 1, f);
-    fr += fread(&cur_row, sizeof(IT), 1, f);
-    fr += fread(&cur_col, sizeof(IT), 1, f);
-    fr += fread(&cur_val, sizeof(T), 1, f);
-    if(fr != 4){
-      fprintf(stderr, "Error while reading data section.\n");
-      return -4;
-    }
+  for(IT i=0; valid && i<A->nnz; i++){
+    valid = read_bin_blocked_element(f, A, i, previous, &current);
+    if (!valid) break;
 
     // Check if this is the begining of a new block
-    if( i == 0 || b != prev_b){
+    if( i == 0 || current.block != previous.block){
 
-      // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == std::numeric_limits<IT>::max());
+      valid = (nnzblocks < A->nnzblocks);
+      if (!valid) break;
 
-      block_index++;
-      prev_b = b;
-      br = b / blockcols;
-      bc = b % blockcols;
+      block_index = nnzblocks++;
+      br = current.block / blockcols;
+      bc = current.block % blockcols;
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
       br_size = blockrow_offset[br + 1] - br_offset;
@@ -220,23 +238,28 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
       // CSR block initialize
       A->row_ptr[block_index] = (IT *) calloc(br_size + 1, sizeof(IT));
-      if(A->row_ptr[block_index] == NULL){
-        fprintf(stderr, "Could not allocate memory for block.\n");
-        return -5;
-      }
+      valid = (A->row_ptr[block_index] != NULL);
+      if (!valid) break;
     }
 
-    assert(cur_row >= br_offset);
-    assert(cur_row  < br_size + br_offset);
-    assert(cur_col >= bc_offset);
-
-    A->row_ptr[block_index][cur_row - br_offset + 1]++;  // Count non-zeros per row
-    A->col_ind[i] = cur_col;
-    A->val[i] = cur_val;
+    A->row_ptr[block_index][current.row - br_offset + 1]++;  // Count non-zeros per row
+    A->col_ind[i] = current.col;
+    A->val[i] = current.val;
+    previous = current;
   }
 
   fclose(f);
 
+  if (!valid || nnzblocks != A->nnzblocks) {
+    fprintf(stderr, "Error while reading data section.\n");
+    for (IT bi=0; bi<nnzblocks; bi++) free(A->row_ptr[bi]);
+    free(A->blockrow_ptr);
+    free(A->row_ptr);
+    free(A->col_ind);
+    free(A->val);
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Accumulate block-row counters to get block-row pointers
@@ -283,6 +306,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Bcsr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  if (f == NULL) return -1;
 
   // Allocate memory
   A->blocks = (Csr<T, IT> *) malloc( A->blockrows * A->blockcols * sizeof(Csr<T, IT>));
@@ -362,18 +386,17 @@ template <class T, class IT, class SIT>
 int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
 {
-  Element<T, IT> * temp_array;
+  std::vector<Element<T, IT>> block;  // Elements of the current block
+  Element<T, IT> previous {}, current {};
   MatrixType block_type;
-  IT block_index, block_nnz, block_start;
+  IT nnzblocks = 0;  // So far
   IT br, br_offset, br_size;
   IT bc, bc_offset, bc_size;
-  IT b, prev_b;
-  IT cur_row, cur_col;
-  T cur_val;
-  size_t fr;
+  bool valid = true;
 
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
+  if (f == NULL) return -1;
 
   // Allocate memory
   A->blocks = new MatrixBlock<T, IT, SIT>[A->nnzblocks];
@@ -387,32 +410,20 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = 0;
-  block_start = 0;
-
-  fread(&prev_b, sizeof(IT), 1, f);
-  fread(&cur_row, sizeof(IT), 1, f);
-  fread(&cur_col, sizeof(IT), 1, f);
-  fread(&cur_val, sizeof(T), 1, f);
-
   // Read data section
-  for(IT i=0; i<A->nnz; i++){
-    fr =  fread(&b, sizeof(IT), 1, f);
-    fr += fread(&cur_row, sizeof(IT), 1, f);
-    fr += fread(&cur_col, sizeof(IT), 1, f);
-    fr += fread(&cur_val, sizeof(T), 1, f);
-
-    if(fr != 4 && i + 1 < A->nnz){
-      fprintf(stderr, "Error while reading data section.\n");
-      fclose(f);
-      return -4;
+  for(IT i=0; i<=A->nnz; i++){
+    if (i < A->nnz) {
+      valid = read_bin_blocked_element(f, A, i, previous, &current);
+      if (!valid) break;
     }
 
-    // Check if this is the begining of a new block. "b" is the block of the
-    // element after "i".
-    if( b != prev_b || fr == 0){
-      br = prev_b / blockcols;
-      bc = prev_b % blockcols;
+    // Check if the elements of a block are complete
+    if (i > 0 && (i == A->nnz || current.block != previous.block)) {
+      valid = (nnzblocks < A->nnzblocks);
+      if (!valid) break;
+
+      br = previous.block / blockcols;
+      bc = previous.block % blockcols;
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
       br_size = blockrow_offset[br + 1] - br_offset;
@@ -420,48 +431,39 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
 
       // Block meta data
       A->blockrow_ptr[br+1]++;
-      A->blockcol_ind[block_index] = bc;
+      A->blockcol_ind[nnzblocks] = bc;
 
-      // Read new block in memory
-      block_nnz = i + 1 - block_start;
-      temp_array = new Element<T,IT>[block_nnz];
-      if(fr == 4)
-        fseek(f, - ((long) ((block_nnz + 1) * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
-      else
-        fseek(f, - ((long) (block_nnz * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
-
-      for(IT j=0; j<block_nnz; j++){
-        fread(&(temp_array[j].block), sizeof(IT), 1, f);
-        fread(&(temp_array[j].row), sizeof(IT), 1, f);
-        fread(&(temp_array[j].col), sizeof(IT), 1, f);
-        fread(&(temp_array[j].val), sizeof(T), 1, f);
-
-        assert(temp_array[j].block == prev_b);
-        assert(temp_array[j].row   >= br_offset);
-        assert(temp_array[j].row   <  br_offset + br_size);
-        assert(temp_array[j].col   >= bc_offset);
-        assert(temp_array[j].col   <  bc_offset + bc_size);
-
-        temp_array[j].row -= br_offset;
-        temp_array[j].col -= bc_offset;
+      for (auto& element : block) {
+        element.row -= br_offset;
+        element.col -= bc_offset;
       }
 
       // Initialize new block
-      block_type = Coo_to_MatrixBlock(A->blocks + block_index, br_size, bc_size, temp_array, block_nnz);
+      block_type = Coo_to_MatrixBlock(A->blocks + nnzblocks, br_size, bc_size, block.data(), (IT) block.size());
       A->type_block_count[block_type]++;
-      A->type_nnz_count[block_type] += block_nnz;
+      A->type_nnz_count[block_type] += block.size();
 
       // Prepare for next block
-      delete [] temp_array;
-      fseek(f, (long)  (3*sizeof(IT) + sizeof(T)), SEEK_CUR);
-      block_index++;
-      block_start = i + 1;
-      prev_b = b;
+      block.clear();
+      nnzblocks++;
     }
+
+    block.push_back(current);
+    previous = current;
+    if (i == A->nnz) break;  // There may be no larger index
   }
 
   fclose(f);
 
+  if (!valid || nnzblocks != A->nnzblocks) {
+    fprintf(stderr, "Error while reading data section.\n");
+    for (IT bi=0; bi<nnzblocks; bi++) release(A->blocks + bi);
+    delete [] A->blocks;
+    delete [] A->blockcol_ind;
+    delete [] A->blockrow_ptr;
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   for (br=0; br<A->blockrows; br++)
-- 
2.43.0


From fb2453801d53d7fce21345a05484289d123748e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 45/55] fix: wide rows wider than the index type can round up
 to got too few pointers

---
 include/matrix/cswr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index 433f9c9..3e30a12 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -54,7 +54,7 @@ void Coo_to_Cswr (
     A->columns = columns;
     A->nnz = nnz;
     A->width = width;
-    A->nwrows = (rows + width - 1) / width;
+    A->nwrows = rows / width + (rows % width != 0);
     A->val = new T[nnz];
     A->row = new SIT[nnz];
     A->col = new IT[nnz];
-- 
2.43.0


From cef66896350b26dc5b57c5a762da5c0966e78240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 46/55] fix: cswr divides by zero or uses any other number if
 the width is no number

---
 src/drivers/cswr.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/drivers/cswr.cpp b/src/drivers/cswr.cpp
index dd78510..a36e769 100644
--- a/src/drivers/cswr.cpp
+++ b/src/drivers/cswr.cpp
@@ -1,6 +1,8 @@
+#include <errno.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <limits>
 
 #include "matrix/coo.2.h"
 #include "matrix/cswr.h"
@@ -12,6 +14,20 @@
 #define MATRIXTYPE Cswr<VALTYPE,ITYPE,SITYPE>
 #endif
 
+/*
+ * Convert text to a width. Returns zero if it is not one.
+ */
+static ITYPE parse_width(const char * text)
+{
+  char * end;
+  errno = 0;
+  long long width = strtoll(text, &end, 10);
+
+  if (end == text || *end != '\0' || errno != 0) return 0;
+  if (width < 0 || (unsigned long long) width > std::numeric_limits<ITYPE>::max()) return 0;
+  return (ITYPE) width;
+}
+
 int main(int argc, char * argv[])
 {
   int ret;
@@ -27,7 +43,11 @@ int main(int argc, char * argv[])
       width = DEFAULT_CSWR_WIDTH;
       break;
     case 3:
-      width = atoi(argv[2]);
+      width = parse_width(argv[2]);
+      if (width == 0) {
+        fprintf(stderr, "The width must be a positive number\n");
+        return 1;
+      }
       break;
     default:
       fprintf(stderr, "Usage: %s [matrix] [width (optional)]\n", argv[0]);
-- 
2.43.0


From ba75e5f75c6b4209eb4828784ad9bac05e17d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 47/55] fix: block sizes whose sum exceeds the index type are
 refused

---
 include/utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utils.h b/include/utils.h
index d633789..aa03abf 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -131,6 +131,9 @@ void size_to_offset(IT * offsets, const IT * sizes, IT size)
 {
     offsets[0] = 0;
     std::partial_sum(sizes, sizes + size, offsets + 1);
+
+    // The sum of all sizes must not exceed the index type
+    assert(std::is_sorted(offsets, offsets + size + 1));
 }
 
 /*
-- 
2.43.0


From 831d65627d3db40efd615d62dbc3a7002f79e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 48/55] fix: runs of prepare at the same time used each other's
 temporary files

---
 src/tools/prepare.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 5bb4fa9..b4c39e1 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -14,14 +14,24 @@
 #define FNBUFL 4096
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
-#define TMPROWS "/tmp/csbr_prepare/rows"
-#define TMPCOLS "/tmp/csbr_prepare/cols"
+
+// Temporary files, not shared with other runs of this program
+static char tmpdir[] = "/tmp/csbr_prepare.XXXXXX";
+
+static void remove_tmpdir(void)
+{
+  char cmd[sizeof(tmpdir) + 8];
+  snprintf(cmd, sizeof(cmd), "rm -rf %s", tmpdir);
+  system(cmd);
+}
 
 int main(int argc, char * argv[])
 {
   int status = 0;
   int i, ret;
   char buf[FNBUFL];
+  char tmprows[sizeof(tmpdir) + 8];
+  char tmpcols[sizeof(tmpdir) + 8];
   double t;
   size_t perm_size, index_size, blocks;
 
@@ -36,7 +46,13 @@ int main(int argc, char * argv[])
   }
 
   // Set up temporary storage
-  system("mkdir -p /tmp/csbr_prepare");
+  if(mkdtemp(tmpdir)==NULL){
+    fprintf(stderr, "Error. Could not create a directory for temporary files.\n");
+    return 1;
+  }
+  atexit(remove_tmpdir);
+  snprintf(tmprows, sizeof(tmprows), "%s/rows", tmpdir);
+  snprintf(tmpcols, sizeof(tmpcols), "%s/cols", tmpdir);
 
   // Read permutation vector
   ret = read_bin_array(argv[4], &permutation_vec, &perm_size );
@@ -64,7 +80,7 @@ int main(int argc, char * argv[])
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted row indeces to disk
-  ret = write_bin_array(TMPROWS, indeces, index_size);
+  ret = write_bin_array(tmprows, indeces, index_size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk. Error : %d\n", ret);
     free(indeces);
@@ -92,7 +108,7 @@ int main(int argc, char * argv[])
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted column indeces to disk
-  ret = write_bin_array(TMPCOLS, indeces, index_size);
+  ret = write_bin_array(tmpcols, indeces, index_size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk. Error : %d\n", ret);
     free(indeces);
@@ -124,7 +140,7 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
+  ret = read_bin_COO(&A, tmprows, tmpcols, argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
@@ -245,8 +261,5 @@ int main(int argc, char * argv[])
   free(block_offsets);
   release(A);
 
-  // Clean up temporary storage
-  system("rm -rf /tmp/csbr_prepare");
-
   return status;
 }
-- 
2.43.0


From 25af6e550ad6ae8bc476eafe48e6c2dbc50aef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 49/55] fix: expansions that exceed the index type are refused

---
 include/expand.h       | 10 +++++++++-
 src/tools/expanded.cpp |  4 ++++
 src/tools/prepare.cpp  |  4 ++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/expand.h b/include/expand.h
index 60782c7..f5f0107 100644
--- a/include/expand.h
+++ b/include/expand.h
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <assert.h>
 #include <omp.h>
+#include <limits>
 
 #include "typedefs.h"
 #include "common.h"
@@ -22,7 +23,14 @@ IT expand_block_size(IT * block_size, IT size)
     if(block_size[i] > max_block)
       max_block = block_size[i];
 
-  return (IT) next_power_of_two(max_block);
+  // All indices of the expanded blocks have to fit the index type
+  uint64_t new_size = next_power_of_two(max_block);
+  uint64_t max_index = (uint64_t) std::numeric_limits<IT>::max();
+  assert(max_block == 0 ||
+         (new_size >= max_block && new_size <= max_index &&
+          (uint64_t) size - 1 <= (max_index - (new_size - 1)) / new_size));
+
+  return (IT) new_size;
 }
 
 /*
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index a3db6d0..4409a7a 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -81,6 +81,10 @@ int main(int argc, char * argv[]){
   t = tock();
   printf(" done in %.3f sec\n", t);
 
+  if ((uint64_t) new_block_size * A.blockrows > std::numeric_limits<INDEXTYPE>::max()) {
+    fprintf(stderr, "Expanded matrix exceeds the index type.\n");
+    return 1;
+  }
   A.rows = new_block_size * A.blockrows;
   A.columns = new_block_size * A.blockcols;
 
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index b4c39e1..d381ce1 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -242,6 +242,10 @@ int main(int argc, char * argv[])
 
   // Write binary triples file with sorted columns and expanded indeces
   snprintf(buf, FNBUFL, "%s.col.exp%lu", argv[6], (unsigned long) new_block_size);
+  if ((uint64_t) new_block_size * A.blockrows > std::numeric_limits<INDEXTYPE>::max()) {
+    fprintf(stderr, "Expanded matrix exceeds the index type.\n");
+    return 1;
+  }
   A.rows = new_block_size * A.blockrows;
   A.columns = new_block_size * A.blockcols;
 
-- 
2.43.0


From b858c6d411ec497d99fce82609ee9c0a341eb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 50/55] fix: get_file_size reports that the size could not be
 found

---
 src/common.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index ebee359..165be49 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -91,7 +91,10 @@ size_t get_file_size(const char * filename)
     fprintf(stderr, "Cannot open file %s\n", filename);
     exit(1);
   }
-  fseek(f, 0, SEEK_END);
+  if(fseek(f, 0, SEEK_END) != 0){
+    fprintf(stderr, "Cannot find the size of file %s\n", filename);
+    exit(1);
+  }
   size = ftell(f);
   fclose(f);
 
-- 
2.43.0


From 1455c6a6f92bbb5728b3d7d13413776c84344a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 51/55] fix: one2zero reports files whose size or content it
 cannot hold, counts beyond 32 bits

---
 src/tools/one2zero.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 4a38910..48dbb6f 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -9,9 +9,10 @@
 
 int main (int argc, char * argv[])
 {
-  unsigned long size;
+  long size;
+  unsigned long n;
   char buf[FNBUFL];
-  INDEXTYPE *indeces, n;
+  INDEXTYPE *indeces;
   FILE *f_in, *f_out;
 
   if (argc < 2) {
@@ -35,7 +36,12 @@ int main (int argc, char * argv[])
     fseek(f_in, 0, SEEK_END);
     size = ftell(f_in);
     n = size / sizeof(INDEXTYPE);
-    indeces = (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
+    indeces = (size < 0) ? NULL : (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
+    if (indeces == NULL && n > 0) {
+        fprintf(stderr, "Could not hold whole file in memory. Aborting.\n");
+        fclose(f_in);
+        return 1;
+    }
 
     fseek(f_in, 0, SEEK_SET);
     int incomplete = fread(indeces, sizeof(INDEXTYPE), n, f_in) != n;
@@ -48,7 +54,7 @@ int main (int argc, char * argv[])
     }
 
     // Convert and check
-    for (INDEXTYPE j=0; j<n; j++) {
+    for (unsigned long j=0; j<n; j++) {
         if (indeces[j] == 0) {
             fprintf(stderr, "This file is not one-indexed! Aborting.\n");
             free(indeces);
-- 
2.43.0


From 387e014b6dc38e951cbf270a9a0a054ffe0cfb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 52/55] fix: more blocks than the index type can number are
 refused

---
 include/utils.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index aa03abf..165f3d3 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -308,6 +308,18 @@ void sort_triplets_widerows(Point_t<Value_t,Index_t> * array, Index_t size, Inde
   pss::parallel_stable_sort(array, array + size, compare);
 }
 
+/*
+ * Block id of the block at block-row br and block-column bc
+ */
+template <class IT>
+inline IT block_id(IT br, IT bc, IT blockcols)
+{
+    // There must not be more blocks than the index type can number
+    assert(bc < blockcols && br <= (std::numeric_limits<IT>::max() - bc) / blockcols);
+
+    return br * blockcols + bc;
+}
+
 /*
  * Calculate block id for every element
  */
@@ -319,7 +331,7 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
     {
         IT br = index_to_blockindex(blockrow_offset, blockrows, elements[i].row );
         IT bc = index_to_blockindex(blockcol_offset, blockcols, elements[i].col );
-        elements[i].block = br * blockcols + bc;
+        elements[i].block = block_id(br, bc, blockcols);
     }
 }
 
@@ -331,7 +343,7 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
     {
         IT br = elements[i].row / blockrow_size;
         IT bc = elements[i].col / blockcol_size;
-        elements[i].block = br * blockcols + bc;
+        elements[i].block = block_id(br, bc, blockcols);
     }
 }
 
-- 
2.43.0


From d538841eb325882b680fdcfcd6c6d2991730460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 53/55] fix: Csbr3 divides by zero for block sizes near the
 largest index

---
 include/matrix/csbr.3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index 095d88a..5d45641 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -66,8 +66,8 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
     A->rows = B->rows;
     A->columns = B->columns;
     A->nnz = B->nnz;
-    A->blockrows = (B->rows + block_size - 1) / block_size;
-    A->blockcols = (B->columns + block_size - 1) / block_size;
+    A->blockrows = B->rows / block_size + (B->rows % block_size != 0);
+    A->blockcols = B->columns / block_size + (B->columns % block_size != 0);
     A->block_size = block_size;
 
     // Sort triplets according to block-row, block-column, row, column
-- 
2.43.0


From 901a29d3e8a0b80a54f3a814ff2bebce05589f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:34 +0000
Subject: [PATCH 54/55] fix: get_file_size took a failing ftell for a huge size

---
 src/common.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common.cpp b/src/common.cpp
index 165be49..62f363c 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -83,7 +83,7 @@ int string_ends_with(const char * str, const char * suffix)
  */
 size_t get_file_size(const char * filename)
 {
-  size_t size;
+  long size;
   FILE * f;
 
   f = fopen(filename, "rb");
@@ -91,14 +91,13 @@ size_t get_file_size(const char * filename)
     fprintf(stderr, "Cannot open file %s\n", filename);
     exit(1);
   }
-  if(fseek(f, 0, SEEK_END) != 0){
+  if(fseek(f, 0, SEEK_END) != 0 || (size = ftell(f)) < 0){
     fprintf(stderr, "Cannot find the size of file %s\n", filename);
     exit(1);
   }
-  size = ftell(f);
   fclose(f);
 
-  return size;
+  return (size_t) size;
 }
 
 /*
-- 
2.43.0


From 17bbb25536daa0ca12593f4b35326fbc1c137c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:44 +0000
Subject: [PATCH 55/55] fix: refuse to write MatrixMarket files whose sizes do
 not fit their size line

write_mm_COO() passed unsigned or 64-bit sizes to a function that takes ints:
a matrix of 4294967294 rows was written with -2 of them, and success was
reported.
---
 include/io/output.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/io/output.h b/include/io/output.h
index 324e21e..050c85c 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -50,6 +50,13 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   IT i;
   unsigned long r, c;
   unsigned long size = A->nnz;
+  unsigned long const largest = std::numeric_limits<int>::max();
+
+  // The size line of a MatrixMarket file is written and read as ints
+  if (A->rows > largest || A->columns > largest || size > largest) {
+    fprintf(stderr, "Matrix is too large for a MatrixMarket file.\n");
+    return -3;
+  }
 
   // Open file for writing
   FILE * f = fopen(filename, "w");
-- 
2.43.0

