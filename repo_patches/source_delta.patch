From e0ce4889dd5a7fce8911c5f04faa09d72abf1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 01/85] fix: COO block vector product honours the index base

---
 src/sparsexx/include/sparsexx/spblas/spmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
index 419c42c..a77eb99 100644
--- a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
@@ -121,8 +121,8 @@ gespmbv(int64_t K, ALPHAT ALPHA, const SpMatType& A,
 
   for(index_type k = 0; k < K; ++k)
     for(index_type inz = 0; inz < nnz; ++inz) {
-      const auto i = Ari[inz];
-      const auto j = Aci[inz];
+      const auto i = Ari[inz] - indexing;
+      const auto j = Aci[inz] - indexing;
       AV[i + k * LDAV] += alpha * Anz[inz] * V[j + k * LDV];
     }
 }
-- 
2.43.0


From f24e9943fd47525f9a3a1064128d0aa1a38169c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 02/85] fix: COO to dense conversion honours the index base

---
 .../include/sparsexx/matrix_types/dense_conversions.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
index 376bfa3..eb633cf 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
@@ -59,7 +59,7 @@ void convert_to_dense(const coo_matrix<Args...>& A,
 
 #pragma omp parallel for
   for(int64_t i = 0; i < nnz; ++i) {
-    A_dense[Ari[i] + Aci[i] * LDAD] = Anz[i];
+    A_dense[(Ari[i] - indexing) + (Aci[i] - indexing) * LDAD] = Anz[i];
   }
 }
 
-- 
2.43.0


From 82dec8d64eed0aae1f9302d67a4ad24b236ad111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 03/85] fix: COO to CSR/CSC conversion with empty rows or
 columns

---
 .../sparsexx/matrix_types/conversions.hpp     | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 563cdea..592c497 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -76,13 +76,16 @@ csr_matrix<T, index_t, Alloc>::csr_matrix(
 
   // Compute rowptr
   rowptr_.at(0) = other.indexing();
-  auto cur_row = 0;
+  size_type cur_row = 0;
   for(size_type i = 0; i < nnz_; ++i)
-    if(rowind_coo[i] != (cur_row + indexing_)) {
+    while(cur_row < rowind_coo[i] - indexing_) {
       cur_row++;
       rowptr_.at(cur_row) = i + indexing_;
     }
-  rowptr_.at(m_) = nnz_ + indexing_;
+  while(cur_row < m_) {
+    cur_row++;
+    rowptr_.at(cur_row) = nnz_ + indexing_;
+  }
 
   std::copy(colind_coo.begin(), colind_coo.end(), colind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
@@ -103,13 +106,16 @@ csc_matrix<T, index_t, Alloc>::csc_matrix(
 
   // Compute colptr
   colptr_.at(0) = other.indexing();
-  auto cur_col = 0;
-  for(size_t i = 0; i < nnz_; ++i)
-    if(colind_coo[i] != (cur_col + indexing_)) {
+  size_type cur_col = 0;
+  for(size_type i = 0; i < nnz_; ++i)
+    while(cur_col < colind_coo[i] - indexing_) {
       cur_col++;
       colptr_.at(cur_col) = i + indexing_;
     }
-  colptr_.at(m_) = nnz_ + indexing_;
+  while(cur_col < n_) {
+    cur_col++;
+    colptr_.at(cur_col) = nnz_ + indexing_;
+  }
 
   std::copy(rowind_coo.begin(), rowind_coo.end(), rowind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From 59e1fb6b37116ad9c49604584e1b4efcd317018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 04/85] fix: expansion of a triangle without a full diagonal

---
 src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index c6a2c7f..5ed6fd3 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -111,7 +111,9 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   if(diagonal or full_matrix) return;
 
   std::cout << "Performing Expansion..." << std::endl;
-  size_t new_nnz = 2 * nnz_ - n_;
+  size_t new_nnz = nnz_;
+  for(size_t i = 0; i < nnz_; ++i)
+    if(rowind_[i] != colind_[i]) ++new_nnz;
   rowind_.reserve(new_nnz);
   colind_.reserve(new_nnz);
   nzval_.reserve(new_nnz);
-- 
2.43.0


From 469968a81ba39b914f2817f5999aee50442b239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 05/85] fix: row distribution of matrices with 64-bit indices

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index a2f8893..d62604f 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -94,9 +94,9 @@ class dist_sparse_matrix {
       : dist_sparse_matrix(c, A.m(), A.n()) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
     auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
+        std::pair<int64_t, int64_t>(local_row_st, local_row_st);
     auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+        std::pair<int64_t, int64_t>(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
@@ -110,9 +110,9 @@ class dist_sparse_matrix {
       : dist_sparse_matrix(c, A.m(), A.n(), row_tiles) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
     auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
+        std::pair<int64_t, int64_t>(local_row_st, local_row_st);
     auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+        std::pair<int64_t, int64_t>(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
-- 
2.43.0


From ee55a46d3e265e95d85960a60ac5bd65ce4ba6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 06/85] fix: copying a distributed matrix keeps its row
 partition

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index d62604f..e8a72c0 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -84,7 +84,12 @@ class dist_sparse_matrix {
   }
 
   dist_sparse_matrix(const dist_sparse_matrix& other)
-      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_) {
+      : comm_(other.comm_),
+        comm_size_(other.comm_size_),
+        comm_rank_(other.comm_rank_),
+        global_m_(other.global_m_),
+        global_n_(other.global_n_),
+        dist_row_extents_(other.dist_row_extents_) {
     if(other.diagonal_tile_) set_diagonal_tile(other.diagonal_tile());
     if(other.off_diagonal_tile_)
       set_off_diagonal_tile(other.off_diagonal_tile());
-- 
2.43.0


From 8ea6d85e7193807c32208716be19f59345567bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 07/85] fix: communication volume is not truncated on each rank

---
 src/sparsexx/include/sparsexx/spblas/pspmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp b/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
index 811f4a6..64783f0 100644
--- a/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
@@ -40,8 +40,8 @@ struct spmv_info {
   std::vector<size_t> recv_counts;
 
   inline size_t communication_volume() {
-    size_t local_comm_vol = (send_indices.size() + recv_indices.size()) / 2;
-    return detail::mpi_allreduce(local_comm_vol, MPI_SUM, comm);
+    size_t local_comm_vol = send_indices.size() + recv_indices.size();
+    return detail::mpi_allreduce(local_comm_vol, MPI_SUM, comm) / 2;
   }
 
   template <typename T>
-- 
2.43.0


From e533754f6f244bab97cfd03261bc2c7cf4e92f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 08/85] fix: binary triplet writers can be instantiated
 (SFINAE-friendly traits)

---
 .../include/sparsexx/matrix_types/type_traits.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
index 14549d0..20ba626 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
@@ -53,17 +53,14 @@ template <typename SpMatType>
 inline constexpr bool is_coo_matrix_v = is_coo_matrix<SpMatType>::value;
 
 template <typename SpMatType, typename U = void>
-struct enable_if_csr_matrix {
-  using type = std::enable_if_t<is_csr_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csr_matrix
+    : public std::enable_if<is_csr_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_csc_matrix {
-  using type = std::enable_if_t<is_csc_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csc_matrix
+    : public std::enable_if<is_csc_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_coo_matrix {
-  using type = std::enable_if_t<is_coo_matrix_v<SpMatType>, U>;
-};
+struct enable_if_coo_matrix
+    : public std::enable_if<is_coo_matrix_v<SpMatType>, U> {};
 
 template <typename SpMatType, typename U = void>
 using enable_if_csr_matrix_t =
-- 
2.43.0


From c8f1327282f5d2dd68df1732c698c8a91bd8a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 09/85] fix: text matrix writer uses the same index base for
 rows and columns

---
 src/sparsexx/include/sparsexx/io/write_mm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index c29e7a2..30bf831 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -72,7 +72,7 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
   write_mm_header(file, m, n, nnz, symm);
 
   int col_offset = 0;
-  int row_offset = 0;
+  int row_offset = A.indexing();
   if(forced_index >= 0) {
     col_offset = forced_index - A.indexing();
     row_offset = forced_index;
-- 
2.43.0


From e6a2fe69afd3e2592369a2e81ccd5827bf685172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 10/85] fix: only square matrices are expanded from a triangle

---
 src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index 5ed6fd3..524cc50 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -108,7 +108,7 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   std::cout << std::boolalpha;
   std::cout << "LT " << lower_triangle << std::endl;
   std::cout << "UT " << upper_triangle << std::endl;
-  if(diagonal or full_matrix) return;
+  if(diagonal or full_matrix or m_ != n_) return;
 
   std::cout << "Performing Expansion..." << std::endl;
   size_t new_nnz = nnz_;
-- 
2.43.0


From d2f3d9d73a19948d9ada3e672a6935ddb6b28372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 11/85] fix: text matrix reader rejects missing and incomplete
 files, skips blank lines

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 378411e..e0b9b88 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -247,21 +247,24 @@ template <typename T, typename index_t, typename Alloc>
 coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     std::string fname, detail::coo_sort_scheme sort_scheme) {
   std::ifstream f_in(fname);
+  if(!f_in) throw std::runtime_error(fname + " not available");
 
   std::string line;
 
-  int64_t m, n, nnz_min;
+  int64_t m, n, nnz_min, nnz_file;
   bool is_sym = false;
+  bool is_pattern = false;
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
 
     // Check if this is actually a MM file...
 
-    if(tokens[0].compare("%%MatrixMarket") or tokens.size() != 5)
+    if(tokens.size() != 5 or tokens[0].compare("%%MatrixMarket"))
       throw std::runtime_error(fname + " is not a MM file");
 
     is_sym = !tokens[4].compare("symmetric");
+    is_pattern = !tokens[3].compare("pattern");
 
     while(std::getline(f_in, line)) {
       if(line[0] != '%') break;
@@ -275,7 +278,8 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
 
     m = std::stoll(tokens[0]);
     n = std::stoll(tokens[1]);
-    nnz_min = std::stoll(tokens[2]);
+    nnz_file = std::stoll(tokens[2]);
+    nnz_min = nnz_file;
 
     if(is_sym and m != n)
       throw std::runtime_error(fname + " symmetric not compatible with M!=N");
@@ -319,8 +323,13 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
   nzval.reserve(nnz_min);
 
   size_t nnz_true = 0;
+  int64_t nentries = 0;
   while(std::getline(f_in, line)) {
-    auto tokens = tokenize(line);
+    auto tokens = tokenize(trim(line));
+    if(tokens.empty()) continue;
+    if(tokens.size() != (is_pattern ? 2 : 3))
+      throw std::runtime_error(fname + " contains an invalid entry");
+    nentries++;
     int64_t i = std::stoll(tokens[0]);
     int64_t j = std::stoll(tokens[1]);
     T v = (tokens.size() == 3) ? std::stod(tokens[2]) : 1.;
@@ -338,6 +347,9 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     }
   }
 
+  if(nentries != nnz_file)
+    throw std::runtime_error(fname + " does not contain the stated entries");
+
   coo_matrix<T, index_t, Alloc> A(m, n, std::move(colind), std::move(rowind),
                                   std::move(nzval));
 #endif
-- 
2.43.0


From 85d6d828b9a606c0fca97072aa967c6935b69646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 12/85] fix: binary triplet reader rejects missing and
 incomplete files

---
 src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
index 298e1e0..049413b 100644
--- a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
@@ -25,17 +25,20 @@ detail::enable_if_coo_matrix_t<SpMatType, SpMatType> read_binary_triplet_as_coo(
   using value_t = detail::value_type_t<SpMatType>;
 
   std::ifstream f_in(fname, std::ios::binary);
+  if(!f_in) throw std::runtime_error(fname + " not available");
   size_t nnz;
   index_t m, n;
   f_in.read((char*)&m, sizeof(index_t));
   f_in.read((char*)&n, sizeof(index_t));
   f_in.read((char*)&nnz, sizeof(size_t));
+  if(!f_in) throw std::runtime_error(fname + " is incomplete");
 
   std::cout << "Reading bin data" << std::endl;
   SpMatType A(m, n, nnz);
   f_in.read((char*)A.rowind().data(), nnz * sizeof(index_t));
   f_in.read((char*)A.colind().data(), nnz * sizeof(index_t));
   f_in.read((char*)A.nzval().data(), nnz * sizeof(value_t));
+  if(!f_in) throw std::runtime_error(fname + " is incomplete");
 
   A.determine_indexing_from_adj();
   A.expand_from_triangle();
-- 
2.43.0


From cc2fcef823826a6a57f7e44770f55fd72176788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 13/85] fix: density matrix reader rejects incomplete files

---
 src/macis/fcidump.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index bf1d776..f50f90e 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -226,6 +226,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   int _norb_read;
   in_file.read((char*)&_norb_read, sizeof(int));
+  if(!in_file) throw std::runtime_error(fname + " is incomplete");
   if(_norb_read != (int)norb)
     throw std::runtime_error("NORB in RDM file doesn't match " +
                              std::to_string(norb) + " " +
@@ -235,6 +236,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   // Read 1RDM
   in_file.read((char*)raw.data(), norb * norb * sizeof(double));
+  if(!in_file) throw std::runtime_error(fname + " is incomplete");
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j) {
       ORDM[i + j * LDD1] = raw[i + j * norb];
@@ -242,6 +244,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   // Read 2RDM
   in_file.read((char*)raw.data(), norb * norb * norb * norb * sizeof(double));
+  if(!in_file) throw std::runtime_error(fname + " is incomplete");
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
-- 
2.43.0


From c1f8c04f749e3bb2b874815d664b82a9cfdddb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 14/85] fix: Rutherford-Boeing reader rejects missing and
 incomplete files

---
 src/sparsexx/include/sparsexx/io/read_rb.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index 2eac213..bcbdf4f 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -19,6 +19,7 @@ namespace sparsexx {
 template <typename T, typename index_t, typename Alloc>
 csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   std::ifstream f_in(fname);
+  if(!f_in) throw std::runtime_error(fname + " not available");
 
   std::string line;
 
@@ -32,7 +33,8 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
-    assert(tokens.size() == 5);
+    if(tokens.size() < 4)
+      throw std::runtime_error(fname + " contains an invalid header");
 
     auto type = tokens[0];
     m = std::stoll(tokens[1]);
@@ -52,26 +54,29 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   int64_t curcount = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.colptr()[curcount++] = std::stoi(t);
+    for(const auto& t : tokens) A.colptr().at(curcount++) = std::stoi(t);
 
     if(curcount == (n + 1)) break;
   }
+  if(curcount != (n + 1)) throw std::runtime_error(fname + " is incomplete");
 
   curcount = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.rowind()[curcount++] = std::stoi(t);
+    for(const auto& t : tokens) A.rowind().at(curcount++) = std::stoi(t);
 
     if(curcount == nnz) break;
   }
+  if(curcount != nnz) throw std::runtime_error(fname + " is incomplete");
 
   curcount = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.nzval()[curcount++] = std::stod(t);
+    for(const auto& t : tokens) A.nzval().at(curcount++) = std::stod(t);
 
     if(curcount == nnz) break;
   }
+  if(curcount != nnz) throw std::runtime_error(fname + " is incomplete");
 
   assert(!std::getline(f_in, line));
   return A;
-- 
2.43.0


From 4f254faa83b601ddc2df55c10d0b118e80a71bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 15/85] fix: Rutherford-Boeing reader honours symmetric and
 pattern types

---
 src/sparsexx/include/sparsexx/io/read_rb.hpp | 35 +++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index bcbdf4f..eb3affa 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -29,7 +29,7 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
 
   // Get useful meta data
   int64_t m, n, nnz;
-  // bool is_sym;
+  bool is_sym, is_pattern;
   {
     std::getline(f_in, line);
     auto tokens = tokenize(line);
@@ -42,7 +42,8 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
     nnz = std::stoll(tokens[3]);
     // Whats the last one for??
 
-    // is_sym = type[1] == 's' or type[1] == 'S';
+    is_sym = type.size() > 1 and (type[1] == 's' or type[1] == 'S');
+    is_pattern = type[0] == 'p' or type[0] == 'P';
     assert(nnz <= m * n);
   }
 
@@ -70,16 +71,40 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   if(curcount != nnz) throw std::runtime_error(fname + " is incomplete");
 
   curcount = 0;
-  while(std::getline(f_in, line)) {
+  if(is_pattern) {
+    // No values are stored
+    std::fill(A.nzval().begin(), A.nzval().end(), 1);
+    curcount = nnz;
+  }
+  while(curcount != nnz and std::getline(f_in, line)) {
     auto tokens = tokenize(line);
     for(const auto& t : tokens) A.nzval().at(curcount++) = std::stod(t);
 
-    if(curcount == nnz) break;
   }
   if(curcount != nnz) throw std::runtime_error(fname + " is incomplete");
 
   assert(!std::getline(f_in, line));
-  return A;
+  if(not is_sym) return A;
+
+  // Only one triangle is stored
+  std::vector<index_t> rowind, colind;
+  std::vector<T> nzval;
+  for(int64_t j = 0; j < n; ++j)
+    for(auto k = A.colptr()[j] - 1; k < A.colptr()[j + 1] - 1; ++k) {
+      const index_t row = A.rowind().at(k), col = j + 1;
+      rowind.push_back(row);
+      colind.push_back(col);
+      nzval.push_back(A.nzval()[k]);
+      if(row != col) {
+        rowind.push_back(col);
+        colind.push_back(row);
+        nzval.push_back(A.nzval()[k]);
+      }
+    }
+  coo_matrix<T, index_t, Alloc> A_full(m, n, std::move(colind),
+                                       std::move(rowind), std::move(nzval));
+  A_full.sort_by_col_index();
+  return csc_matrix<T, index_t, Alloc>(A_full);
 }
 
 template <typename SpMatType>
-- 
2.43.0


From 63183321d2b5dde0b6d9b140522bdf1d3d37fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 16/85] fix: wave function reader rejects incomplete files

---
 include/macis/wavefunction_io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/macis/wavefunction_io.hpp b/include/macis/wavefunction_io.hpp
index bc38f7e..6f5338c 100644
--- a/include/macis/wavefunction_io.hpp
+++ b/include/macis/wavefunction_io.hpp
@@ -56,8 +56,6 @@ void read_wavefunction(std::string fname, std::vector<std::bitset<N>>& states,
     nalpha = std::stoi(nalpha_);
     nbeta = std::stoi(nbeta_);
   }
-  (void)nstate;
-  (void)norb;
   (void)nalpha;
   (void)nbeta;
 
@@ -67,9 +65,13 @@ void read_wavefunction(std::string fname, std::vector<std::bitset<N>>& states,
     std::stringstream ss{line};
     std::string c, d;
     ss >> c >> d;
+    if(d.size() < norb)
+      throw std::runtime_error(fname + " contains an invalid state");
     states.emplace_back(from_canonical_string<N>(d));
     coeffs.emplace_back(std::stod(c));
   }
+  if(states.size() != nstate)
+    throw std::runtime_error(fname + " does not contain the stated states");
 }
 
 /**
-- 
2.43.0


From 0c01502f558009fcb262c787a1446ba10ad27736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 17/85] fix: davidson: normalize the guess and accept one that
 is already converged

---
 include/macis/solvers/davidson.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 6375677..9067657 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -146,14 +146,26 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
   std::vector<double> V(N * (max_m + 1)), AV(N * (max_m + 1)),
       C((max_m + 1) * (max_m + 1)), LAM(max_m + 1);
 
-  // Copy over guess
+  // Copy over guess and normalize
   std::copy_n(X, N, V.begin());
+  blas::scal(N, 1. / blas::nrm2(N, V.data(), 1), V.data(), 1);
 
   // Compute Initial A*V
   op.operator_action(1, 1., V.data(), N, 0., AV.data(), N);
 
-  // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
+  // Copy AV(:,0) -> V(:,1)
   std::copy_n(AV.data(), N, V.data() + N);
+
+  // Check if the guess is already converged
+  LAM[0] = blas::dot(N, V.data(), 1, AV.data(), 1);
+  blas::axpy(N, -LAM[0], V.data(), 1, V.data() + N, 1);
+  if(blas::nrm2(N, V.data() + N, 1) < tol) {
+    std::copy_n(V.data(), N, X);
+    logger->info("Davidson Guess Is Converged!");
+    return std::make_pair(size_t(0), LAM[0]);
+  }
+
+  // Orthogonalize wrt V(:,0)
   gram_schmidt(N, 1, V.data(), N, V.data() + N);
 
   bool converged = false;
-- 
2.43.0


From 0d15f12c532df27c0d91cb61b82c8a09112a5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 18/85] fix: davidson: do not accept a vanishing vector after a
 breakdown

---
 include/macis/solvers/davidson.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 9067657..63e776f 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -213,8 +213,11 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
         "  * OP_DUR = {:.2e} ms, RR_DUR = {:.2e} ms, RES_DUR = {:.2e} ms",
         op_dur.count(), rr_dur.count(), res_dur.count());
 
-    // Check for convergence
-    if(res_nrm < tol) {
+    // Check for convergence, the basis may have become linearly dependent in
+    // which case X is not normalized
+    auto x_nrm = blas::nrm2(N, X, 1);
+    if(res_nrm < tol * x_nrm) {
+      blas::scal(N, 1. / x_nrm, X, 1);
       converged = true;
       break;
     }
-- 
2.43.0


From 09ec2eeb08a2190b4b1677ee58b18be2d3b0e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 19/85] fix: p_diagonal_guess: find the owner of a row for any
 row distribution

---
 include/macis/solvers/davidson.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 63e776f..100448d 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -101,7 +101,8 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
   for(size_t i = 0; i < N_local; ++i) X[i] = 0.;
 
   // Get owner rank
-  int owner_rank = min_idx / remote_counts[0];
+  int owner_rank = 0;
+  while(min_idx >= row_starts[owner_rank + 1]) ++owner_rank;
   if(world_rank == owner_rank) {
     X[min_idx - A.local_row_start()] = 1.;
   }
-- 
2.43.0


From c1367d335a98521e397d96070da5dc00b680b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 20/85] fix: p_davidson: normalize the guess, accept one that
 is already converged, limit the subspace to N

---
 include/macis/solvers/davidson.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 100448d..037f49b 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -315,6 +315,8 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
                         : spdlog::stdout_color_mt("davidson");
   }
 
+  max_m = std::min(max_m, int64_t(allreduce(size_t(N_local), MPI_SUM, comm)));
+
   logger->info("[Davidson Eigensolver]:");
   logger->info("  {} = {:6}, {} = {:4}, {} = {:10.5e}", "N_LOCAL", N_local,
                "MAX_M", max_m, "RES_TOL", tol);
@@ -324,15 +326,34 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
       AV_local(N_local * (max_m + 1)), C((max_m + 1) * (max_m + 1)),
       LAM(max_m + 1);
 
-  // Copy over guess
+  // Copy over guess and normalize
   std::copy_n(X_local, N_local, V_local.begin());
+  double nrm =
+      std::sqrt(allreduce(blas::dot(N_local, V_local.data(), 1, V_local.data(), 1),
+                          MPI_SUM, comm));
+  blas::scal(N_local, 1. / nrm, V_local.data(), 1);
 
   // Compute initial A*V
   op.operator_action(1, 1., V_local.data(), N_local, 0., AV_local.data(),
                      N_local);
 
-  // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
+  // Copy AV(:,0) -> V(:,1)
   std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
+
+  // Check if the guess is already converged
+  LAM[0] = allreduce(
+      blas::dot(N_local, V_local.data(), 1, AV_local.data(), 1), MPI_SUM, comm);
+  blas::axpy(N_local, -LAM[0], V_local.data(), 1, V_local.data() + N_local, 1);
+  nrm = std::sqrt(allreduce(blas::dot(N_local, V_local.data() + N_local, 1,
+                                      V_local.data() + N_local, 1),
+                            MPI_SUM, comm));
+  if(nrm < tol) {
+    std::copy_n(V_local.data(), N_local, X_local);
+    logger->info("Davidson Guess Is Converged!");
+    return std::make_pair(int64_t(0), LAM[0]);
+  }
+
+  // Orthogonalize wrt V(:,0)
   p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data() + N_local,
                  comm);
 
-- 
2.43.0


From e711f3b98ea8c8dfcf2f35758a330cae3d2fb04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 21/85] fix: p_davidson: do not accept a vanishing vector after
 a breakdown

---
 include/macis/solvers/davidson.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 037f49b..ac3a208 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -407,8 +407,12 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
         "  * OP_DUR = {:.2e} ms, RR_DUR = {:.2e} ms, RES_DUR = {:.2e} ms",
         op_dur.count(), rr_dur.count(), res_dur.count());
 
-    // Check for convergence
-    if(res_nrm < tol) {
+    // Check for convergence, the basis may have become linearly dependent in
+    // which case X is not normalized
+    auto x_dot = blas::dot(N_local, X_local, 1, X_local, 1);
+    auto x_nrm = std::sqrt(allreduce(x_dot, MPI_SUM, comm));
+    if(res_nrm < tol * x_nrm) {
+      blas::scal(N_local, 1. / x_nrm, X_local, 1);
       converged = true;
       break;
     }
-- 
2.43.0


From 5d6e2ff6cd85c7c8fda7aea6388fc6e4a0eef115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 22/85] fix: lobpcg: report failure when the trial space
 exceeds the problem dimension

---
 src/lobpcgxx/include/lobpcgxx/driver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lobpcgxx/include/lobpcgxx/driver.hpp b/src/lobpcgxx/include/lobpcgxx/driver.hpp
index acd2583..736fb9c 100644
--- a/src/lobpcgxx/include/lobpcgxx/driver.hpp
+++ b/src/lobpcgxx/include/lobpcgxx/driver.hpp
@@ -167,6 +167,9 @@ void lobpcg(const lobpcg_settings& settings, int64_t N, int64_t K, int64_t NR,
     const int64_t dim_XP = (!!iter + 1) * K;
     const int64_t dim_S = dim_XP + K;
 
+    // The trial space cannot be linearly independent
+    if(dim_S > N) break;
+
     // Reverse residuals (for some reason...)
     for(auto i = 0; i < K / 2; ++i) {
       blas::swap(N, V + i * LDV, 1, V + (K - 1 - i) * LDV, 1);
-- 
2.43.0


From 2353d671f097177a4db6b1661c066ee950513f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 23/85] fix: lobpcg: report a breakdown instead of returning
 vanishing vectors

---
 src/lobpcgxx/include/lobpcgxx/driver.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lobpcgxx/include/lobpcgxx/driver.hpp b/src/lobpcgxx/include/lobpcgxx/driver.hpp
index 736fb9c..b2fc1aa 100644
--- a/src/lobpcgxx/include/lobpcgxx/driver.hpp
+++ b/src/lobpcgxx/include/lobpcgxx/driver.hpp
@@ -193,6 +193,13 @@ void lobpcg(const lobpcg_settings& settings, int64_t N, int64_t K, int64_t NR,
     // Orthogonalize W via CholQR
     cholqr(N, K, W, N);
 
+    // Break down if W was numerically contained in [X P]
+    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
+               dim_XP, K, N, T(1.), X, N, W, N, T(0.), WORKSPACE, dim_XP);
+    if(!std::all_of(WORKSPACE, WORKSPACE + dim_XP * K,
+                    [](const auto x) { return std::abs(x) < 1e-2; }))
+      break;
+
     if((iter + 1) % 20 == 0)
       op_functor.apply_matrix(N, dim_S, S, N, AS,
                               N);  // Recalculate AX, AW and AP
-- 
2.43.0


From deb65ac509d1ca572a038027065544039ea33513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 24/85] fix: four_index_transform honours the leading
 dimensions of its arrays

---
 src/macis/transform.cxx | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/macis/transform.cxx b/src/macis/transform.cxx
index 0403307..24105f4 100644
--- a/src/macis/transform.cxx
+++ b/src/macis/transform.cxx
@@ -6,6 +6,7 @@
  * See LICENSE.txt for details
  */
 
+#include <algorithm>
 #include <blas.hh>
 #include <macis/util/transform.hpp>
 
@@ -62,10 +63,15 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 1st Quarter
   // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
-  // TMP1(p, jkl)  = C(i,p) * X(i,jkl)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
-             norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
-             tmp1.data(), norb_new);
+  // TMP1_kl(p,j)  = C(i,p) * X_kl(i,j)
+  for(size_t l = 0; l < norb_old; ++l)
+    for(size_t k = 0; k < norb_old; ++k) {
+      auto X_kl = X + (k + l * LDX) * LDX * LDX;
+      auto TMP1_kl = tmp1.data() + (k + l * norb_old) * norb_old * norb_new;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+                 norb_new, norb_old, norb_old, 1.0, C, LDC, X_kl, LDX, 0.0,
+                 TMP1_kl, norb_new);
+    }
 
   // 2nd Quarter
   // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
@@ -91,10 +97,17 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 4th Quarter
   // Y(p,q,r,s) = C(l,s) * TMP1(p,q,r,l)
-  // Y(pqr,s) = V(pqr,l) * C(l,s)
+  // TMP3(pqr,s) = TMP1(pqr,l) * C(l,s)
+  std::vector<double> tmp3(norb_new3 * norb_new);
   blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
              norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C, LDC,
-             0.0, Y, norb_new3);
+             0.0, tmp3.data(), norb_new3);
+
+  for(size_t s = 0; s < norb_new; ++s)
+    for(size_t r = 0; r < norb_new; ++r)
+      for(size_t q = 0; q < norb_new; ++q)
+        std::copy_n(tmp3.data() + (q + (r + s * norb_new) * norb_new) * norb_new,
+                    norb_new, &FOUR_IDX_SAME(Y, 0, q, r, s, LDY));
 
 #else
 
-- 
2.43.0


From 4b255daec2276d504a65185a5f42ff37ae53a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 25/85] fix: orbital energy lines of an FCIDUMP file are not
 one-body integrals

'e i 0 0 0' was stored as T(i,0), that is in front of the array.
---
 src/macis/fcidump.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index f50f90e..37424cb 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -62,15 +62,17 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
   return std::make_tuple(p, q, r, s, integral);
 }
 
-enum LineClassification { Core, OneBody, TwoBody };
+enum LineClassification { Core, OneBody, TwoBody, Other };
 
 LineClassification line_classification(int p, int q, int r, int s) {
   if(!(p or q or r or s))
     return LineClassification::Core;
   else if(p and q and r and s)
     return LineClassification::TwoBody;
-  else
+  else if(p and q and !r and !s)
     return LineClassification::OneBody;
+  else
+    return LineClassification::Other;  // e.g. orbital energies
 }
 
 namespace macis {
-- 
2.43.0


From ab3a744fdac06f395f0aab4564ccf8fb5742a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 26/85] fix: read FCIDUMP files with tabs, CRLF, D exponents
 and five-word header lines

Separators other than blanks hid whole lines, 1.0D+01 was read as 1.0 and a
header line of five words threw.
---
 src/macis/fcidump.cxx | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 37424cb..91ee589 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -33,6 +33,24 @@ bool is_float(const std::string& str) {
                      [](auto c) { return std::isalpha(c) or c == '.'; });
 }
 
+bool is_index(const std::string& str) {
+  return str.find_first_not_of("+-0123456789") == std::string::npos;
+}
+
+// Five fields, of which the first or the last four are orbital indices
+bool is_fcidump_line(const std::vector<std::string>& tokens) {
+  return tokens.size() == 5 and
+         std::all_of(tokens.begin() + 1, tokens.end() - 1, is_index) and
+         (is_index(tokens.front()) or is_index(tokens.back()));
+}
+
+double fcidump_value(std::string str) {
+  // Fortran double precision exponents
+  std::replace_if(
+      str.begin(), str.end(), [](auto c) { return c == 'D' or c == 'd'; }, 'E');
+  return std::stod(str);
+}
+
 auto fcidump_line(const std::vector<std::string>& tokens) {
   auto idx_first = is_float(tokens.back());
   auto int_first = is_float(tokens.front());
@@ -47,13 +65,13 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
     q = std::stoi(tokens[1]);
     r = std::stoi(tokens[2]);
     s = std::stoi(tokens[3]);
-    integral = std::stod(tokens[4]);
+    integral = fcidump_value(tokens[4]);
   } else {
     p = std::stoi(tokens[1]);
     q = std::stoi(tokens[2]);
     r = std::stoi(tokens[3]);
     s = std::stoi(tokens[4]);
-    integral = std::stod(tokens[0]);
+    integral = fcidump_value(tokens[0]);
   }
 
   if(p < 0 or q < 0 or r < 0 or s < 0)
@@ -82,8 +100,8 @@ uint32_t read_fcidump_norb(std::string fname) {
   std::string line;
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    auto tokens = split(line, "\\s+");
+    if(not is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
 
@@ -97,8 +115,8 @@ double read_fcidump_core(std::string fname) {
   std::ifstream file(fname);
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    auto tokens = split(line, "\\s+");
+    if(not is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
@@ -119,8 +137,8 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
   std::ifstream file(fname);
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    auto tokens = split(line, "\\s+");
+    if(not is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
@@ -152,8 +170,8 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
   std::ifstream file(fname);
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    auto tokens = split(line, "\\s+");
+    if(not is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
-- 
2.43.0


From cca46fb3ba3ac70a5b1459e7770cdcb06f72f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 27/85] fix: a missing FCIDUMP file is an error, not a file
 without orbitals

---
 src/macis/fcidump.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 91ee589..5718557 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -97,6 +97,7 @@ namespace macis {
 
 uint32_t read_fcidump_norb(std::string fname) {
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
@@ -113,6 +114,7 @@ uint32_t read_fcidump_norb(std::string fname) {
 
 double read_fcidump_core(std::string fname) {
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, "\\s+");
@@ -135,6 +137,7 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
     throw std::runtime_error("T is of improper dimension");
 
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, "\\s+");
@@ -168,6 +171,7 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
     throw std::runtime_error("V is of improper dimension");
 
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, "\\s+");
-- 
2.43.0


From e71cd58e85ed2d4bcf5a6555de341b0e5ee6fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 28/85] fix: honour the leading dimension when reading FCIDUMP
 integrals

A strided submdspan was converted to a contiguous one.
---
 src/macis/fcidump.cxx | 67 +++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 5718557..fb2e548 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -129,13 +129,10 @@ double read_fcidump_core(std::string fname) {
   return 0.0;
 }
 
-void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
-  if(T.extent(0) != T.extent(1)) throw std::runtime_error("T must be square");
-
-  auto norb = read_fcidump_norb(fname);
-  if(T.extent(0) != norb)
-    throw std::runtime_error("T is of improper dimension");
+namespace {
 
+// Fill (norb x norb) block of T with leading dimension LDT
+void fill_1body(std::string fname, double* T, size_t LDT) {
   std::ifstream file(fname);
   if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
@@ -148,27 +145,17 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
     if(lc == LineClassification::OneBody) {
       p--;
       q--;
-      T(p, q) = integral;
-      T(q, p) = integral;
+      T[p + q * LDT] = integral;
+      T[q + p * LDT] = integral;
     }
   }
 }
 
-void read_fcidump_1body(std::string fname, double* T, size_t LDT) {
-  auto norb = read_fcidump_norb(fname);
-  col_major_span<double, 2> T_map(T, LDT, norb);
-  read_fcidump_1body(fname, KokkosEx::submdspan(T_map, std::pair{0, norb},
-                                                Kokkos::full_extent));
-}
-
-void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
-  if(V.extent(0) != V.extent(1)) throw std::runtime_error("V must be square");
-  if(V.extent(0) != V.extent(2)) throw std::runtime_error("V must be square");
-  if(V.extent(0) != V.extent(3)) throw std::runtime_error("V must be square");
-
-  auto norb = read_fcidump_norb(fname);
-  if(V.extent(0) != norb)
-    throw std::runtime_error("V is of improper dimension");
+// Fill (norb x norb x norb x norb) block of V with leading dimension LDV
+void fill_2body(std::string fname, double* V_ptr, size_t LDV) {
+  auto V = [=](size_t p, size_t q, size_t r, size_t s) -> double& {
+    return V_ptr[p + LDV * (q + LDV * (r + LDV * s))];
+  };
 
   std::ifstream file(fname);
   if(!file) throw std::runtime_error(fname + " not available");
@@ -197,12 +184,36 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
   }
 }
 
-void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
+}  // namespace
+
+void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
+  if(T.extent(0) != T.extent(1)) throw std::runtime_error("T must be square");
+
   auto norb = read_fcidump_norb(fname);
-  col_major_span<double, 4> V_map(V, LDV, LDV, LDV, norb);
-  auto sl = std::pair{0, norb};
-  read_fcidump_2body(
-      fname, KokkosEx::submdspan(V_map, sl, sl, sl, Kokkos::full_extent));
+  if(T.extent(0) != norb)
+    throw std::runtime_error("T is of improper dimension");
+
+  fill_1body(fname, T.data_handle(), norb);
+}
+
+void read_fcidump_1body(std::string fname, double* T, size_t LDT) {
+  fill_1body(fname, T, LDT);
+}
+
+void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
+  if(V.extent(0) != V.extent(1)) throw std::runtime_error("V must be square");
+  if(V.extent(0) != V.extent(2)) throw std::runtime_error("V must be square");
+  if(V.extent(0) != V.extent(3)) throw std::runtime_error("V must be square");
+
+  auto norb = read_fcidump_norb(fname);
+  if(V.extent(0) != norb)
+    throw std::runtime_error("V is of improper dimension");
+
+  fill_2body(fname, V.data_handle(), norb);
+}
+
+void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
+  fill_2body(fname, V, LDV);
 }
 
 void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
-- 
2.43.0


From 09d409deaf43477328049e4dc902dc1eff8aed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 29/85] fix: write_fcidump can be called more than once and
 completes the file

A named global logger threw on the second call, appended to an existing file,
was not flushed and obeyed the log level.
---
 src/macis/fcidump.cxx | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index fb2e548..604419d 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -6,9 +6,6 @@
  * See LICENSE.txt for details
  */
 
-#include <spdlog/sinks/basic_file_sink.h>
-#include <spdlog/spdlog.h>
-
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -218,27 +215,33 @@ void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
 
 void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
                    const double* V, size_t LDV, double E_core) {
-  auto logger = spdlog::basic_logger_mt("fcidump", fname);
-  logger->set_pattern("%v");
-  const std::string fmt_string = "{:8} {:8} {:8} {:8} {:25.16e}";
+  std::ofstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
+  file << std::scientific << std::setprecision(16);
+  auto write_line = [&](size_t p, size_t q, size_t r, size_t s, double x) {
+    file << std::setw(8) << p << " " << std::setw(8) << q << " " << std::setw(8)
+         << r << " " << std::setw(8) << s << " " << std::setw(25) << x << "\n";
+  };
 
   // Write two body
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
         for(size_t l = 0; l < norb; ++l) {
-          logger->info(fmt_string, i + 1, j + 1, k + 1, l + 1,
-                       V[i + j * LDV + k * LDV * LDV + l * LDV * LDV * LDV]);
+          write_line(i + 1, j + 1, k + 1, l + 1,
+                     V[i + j * LDV + k * LDV * LDV + l * LDV * LDV * LDV]);
         }
 
   // Write one body
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j) {
-      logger->info(fmt_string, i + 1, j + 1, 0, 0, T[i + j * LDT]);
+      write_line(i + 1, j + 1, 0, 0, T[i + j * LDT]);
     }
 
   // Write core
-  logger->info(fmt_string, 0, 0, 0, 0, E_core);
+  write_line(0, 0, 0, 0, E_core);
+  file.close();
+  if(!file) throw std::runtime_error(fname + " could not be written");
 }
 
 void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
-- 
2.43.0


From 70c9bb8a46d1a13dedb8cb52b677402b8dccbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 30/85] fix: screened excitations use the integrals of the
 excitation

Doubles were screened with (v1 v2|o1 o2) instead of (v1 o1|v2 o2), singles only
with the one-body part, so that pairs with non-zero elements were lost.
---
 attic/src/cmz_ed/slaterdet.c++ | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index 7b35d4f..df420ad 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -213,17 +213,29 @@ namespace cmz
   
       double thres = 1.E-9; //Threshold to keep excitation.
 
+      // A single excitation o -> v can be generated by the one-body
+      // integrals or by the interaction with any other electron.
+      auto couples = [&]( uint64_t v, uint64_t o )
+      {
+        if( std::abs(pint->get(v, o)) >= thres ) return true;
+        for( auto b : occs_up )
+          if( std::abs(pint->getChem(v, o, b, b)) >= thres || std::abs(pint->getChem(v, b, b, o)) >= thres ) return true;
+        for( auto b : occs_do )
+          if( std::abs(pint->getChem(v, o, b, b)) >= thres || std::abs(pint->getChem(v, b, b, o)) >= thres ) return true;
+        return false;
+      };
+
       double sign = 1.; // For function calling purposes
       // Build single excitation.
       // Single - Up
       for( auto ou : occs_up )
         for( auto vu : virts_up )
-          if( std::abs(pint->get(vu, ou)) >= thres )
+          if( couples( vu, ou ) )
             excs.push_back( GetSingExUpSt( vu, ou, sign ) );
       // Single - Down
       for( auto od : occs_do )
         for( auto vd : virts_do )
-          if( std::abs(pint->get(vd , od)) >= thres )
+          if( couples( vd, od ) )
             excs.push_back( GetSingExDoSt( vd, od, sign ) );
  
       // Build double excitations.
@@ -234,8 +246,8 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_up.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_up.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io1], occs_up[io2])) >= thres 
-               || std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io2], occs_up[io1])) >= thres )
+              if( std::abs(pint->getPhys(virts_up[iv1], virts_up[iv2], occs_up[io1], occs_up[io2])) >= thres 
+               || std::abs(pint->getPhys(virts_up[iv1], virts_up[iv2], occs_up[io2], occs_up[io1])) >= thres )
                 excs.push_back( tmp.GetSingExUpSt( virts_up[iv2], occs_up[io2], sign ) );
          }
       // Double - Do/Do
@@ -245,8 +257,8 @@ namespace cmz
           slater_det tmp = GetSingExDoSt( virts_do[iv1], occs_do[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io1], occs_do[io2])) >= thres 
-               || std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io2], occs_do[io1])) >= thres )
+              if( std::abs(pint->getPhys(virts_do[iv1], virts_do[iv2], occs_do[io1], occs_do[io2])) >= thres 
+               || std::abs(pint->getPhys(virts_do[iv1], virts_do[iv2], occs_do[io2], occs_do[io1])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
       // Double - Up/Do
@@ -256,7 +268,7 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = 0; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = 0; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_do[iv2], occs_up[io1], occs_do[io2])) >= thres )
+              if( std::abs(pint->getPhys(virts_up[iv1], virts_do[iv2], occs_up[io1], occs_do[io2])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
 
-- 
2.43.0


From 552d7f5bb0defde308f6ee533746081d7f0e8d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 31/85] fix: (ia|jb) and (jb|ia) are the same integral

The mirror image of every integral was missing when a file lists each integral once.
---
 attic/inc/cmz_ed/integrals.h++ | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attic/inc/cmz_ed/integrals.h++ b/attic/inc/cmz_ed/integrals.h++
index 1cc0f9a..234c4de 100644
--- a/attic/inc/cmz_ed/integrals.h++
+++ b/attic/inc/cmz_ed/integrals.h++
@@ -74,6 +74,11 @@ namespace cmz
           {
             if(i < a) std::swap(i,a);
             if(j < b) std::swap(j,b);
+            if(i < j || i == j && a < b)
+            {
+              std::swap(i,j);
+              std::swap(a,b);
+            }
           }
       
           /**
-- 
2.43.0


From 6922d9fa31c76f658ca3ba0e5c9e9b420977fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 32/85] fix: same-spin double excitations in the two-body
 density matrix

Down-down pairs were never taken, and exciting bra and ket alike could pick the
first electron again as the second one.
---
 attic/src/cmz_ed/rdms.c++ | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/attic/src/cmz_ed/rdms.c++ b/attic/src/cmz_ed/rdms.c++
index e4e3149..594f6d6 100644
--- a/attic/src/cmz_ed/rdms.c++
+++ b/attic/src/cmz_ed/rdms.c++
@@ -35,8 +35,7 @@ namespace cmz
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcUp( o1, v1 );
-            sign = ket.SingleExcUp( v1, o1 );
+            double sign = ket.SingleExcUp( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcUp( v2, o2 );
@@ -46,12 +45,11 @@ namespace cmz
             rdm2[ indexer(v2,v1,o1,o2) ] -= sign * contrib * 0.5;
           }
           // Double Do-Do
-          else if( exc_do == 4 && exc_do == 0 )
+          else if( exc_up == 0 && exc_do == 4 )
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcDo( o1, v1 );
-            sign = ket.SingleExcDo( v1, o1 );
+            double sign = ket.SingleExcDo( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcDo( v2, o2 );
-- 
2.43.0


From 5aa7a60a00a88f70cca221f6f62223a99a91cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 33/85] fix: read the orbital count of an RDM file completely
 and notice its end

Four bytes were read into an uninitialised eight-byte integer, and a cut-off file
gave zeros.
---
 attic/inc/cmz_ed/rdms.h++ | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/attic/inc/cmz_ed/rdms.h++ b/attic/inc/cmz_ed/rdms.h++
index b0a7549..d1665c5 100644
--- a/attic/inc/cmz_ed/rdms.h++
+++ b/attic/inc/cmz_ed/rdms.h++
@@ -487,7 +487,7 @@ namespace cmz
             if(!ifile)
               throw ("Could not open " + file);
     
-            int64_t norbs;
+            int norbs = 0;
        
             ifile.read((char*) &norbs, sizeof(int));
     
@@ -498,6 +498,8 @@ namespace cmz
              
             ifile.read((char*) &rdm1[0], rdm1.size() * sizeof(double));
             ifile.read((char*) &rdm2[0], rdm2.size() * sizeof(double));
+            if(!ifile)
+              throw ("RDMs stored in " + file + " are incomplete!");
     
             ifile.close();
         
-- 
2.43.0


From a8ba47a2102c324916da71c2be53e8b051835abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 34/85] fix: fast_to_ulong keeps all bits of 64- and 128-bit
 strings

---
 include/macis/bitset_operations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/macis/bitset_operations.hpp b/include/macis/bitset_operations.hpp
index e0f5ec2..b1a7931 100644
--- a/include/macis/bitset_operations.hpp
+++ b/include/macis/bitset_operations.hpp
@@ -76,8 +76,9 @@ unsigned long long fast_to_ullong(const std::bitset<N>& bits) {
 template <size_t N>
 unsigned long fast_to_ulong(const std::bitset<N>& bits) {
   // Low words
-  if constexpr(N == 32 or N == 64 or N == 128)
-    return *reinterpret_cast<const uint32_t*>(&bits);
+  if constexpr(N == 64 or N == 128)
+    return *reinterpret_cast<const uint64_t*>(&bits);
+  if constexpr(N == 32) return *reinterpret_cast<const uint32_t*>(&bits);
   return bits.to_ulong();
 }
 
-- 
2.43.0


From 0c23e0fe1c57c71279a7a30b787f8e12b5c98f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 35/85] fix: a full shell has no virtual orbitals, which is no
 error

---
 include/macis/sd_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/sd_operations.hpp b/include/macis/sd_operations.hpp
index c04267f..06631c6 100644
--- a/include/macis/sd_operations.hpp
+++ b/include/macis/sd_operations.hpp
@@ -83,7 +83,7 @@ void bitset_to_occ_vir(size_t norb, std::bitset<N> state,
                        std::vector<uint32_t>& occ, std::vector<uint32_t>& vir) {
   occ = bits_to_indices(state);
   const auto nocc = occ.size();
-  assert(nocc < norb);
+  assert(nocc <= norb);
 
   const auto nvir = norb - nocc;
   vir.resize(nvir);
-- 
2.43.0


From 8d0ee82114053e1c134fa678c9c895a3b290a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 36/85] fix: double excitations do not contribute to the
 one-body density matrix

---
 include/macis/util/rdms.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/macis/util/rdms.hpp b/include/macis/util/rdms.hpp
index 72b55bb..d3638a3 100644
--- a/include/macis/util/rdms.hpp
+++ b/include/macis/util/rdms.hpp
@@ -108,14 +108,17 @@ inline void rdm_contributions(wfn_t<N> bra_alpha, wfn_t<N> ket_alpha,
 
   if((ex_alpha_count + ex_beta_count) > 4) return;
 
-  const auto trdm_ptr = trdm.data_handle();
-  if(ex_alpha_count == 4 and trdm_ptr)
+  // Double excitations only contribute to the 2-RDM
+  const bool is_double = (ex_alpha_count + ex_beta_count) == 4;
+  if(is_double and !trdm.data_handle()) return;
+
+  if(ex_alpha_count == 4)
     rdm_contributions_4(bra_alpha, ket_alpha, ex_alpha, val, trdm);
 
-  else if(ex_beta_count == 4 and trdm_ptr)
+  else if(ex_beta_count == 4)
     rdm_contributions_4(bra_beta, ket_beta, ex_beta, val, trdm);
 
-  else if(ex_alpha_count == 2 and ex_beta_count == 2 and trdm_ptr)
+  else if(ex_alpha_count == 2 and ex_beta_count == 2)
     rdm_contributions_22(bra_alpha, ket_alpha, ex_alpha, bra_beta, ket_beta,
                          ex_beta, val, trdm);
 
-- 
2.43.0


From 078219f027a1439c3c63476146f894112bc6e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 37/85] fix: all ranks take the same decision on the starting
 vector

---
 include/macis/solvers/selected_ci_diag.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/macis/solvers/selected_ci_diag.hpp b/include/macis/solvers/selected_ci_diag.hpp
index 0a1e293..333815c 100644
--- a/include/macis/solvers/selected_ci_diag.hpp
+++ b/include/macis/solvers/selected_ci_diag.hpp
@@ -37,13 +37,12 @@ double parallel_selected_ci_diag(const SpMatType& H, size_t davidson_max_m,
   // Extract Diagonal
   auto D_local = extract_diagonal_elements(H.diagonal_tile());
 
-  // Setup guess
-  auto max_c = *std::max_element(
-      C_local.begin(), C_local.end(),
-      [](auto a, auto b) { return std::abs(a) < std::abs(b); });
-  max_c = std::abs(max_c);
+  // Setup guess (the decision has to be the same on all ranks)
+  double max_c = 0.;
+  for(auto c : C_local) max_c = std::max(max_c, std::abs(c));
+  max_c = allreduce(max_c, MPI_MAX, comm);
 
-  if(max_c > (1. / C_local.size())) {
+  if(max_c > (1. / H.m())) {
     logger->info("  * Will use passed vector as guess");
   } else {
     logger->info("  * Will generate identity guess");
-- 
2.43.0


From 40fed1c2286b0be707149de2664390b5c30ba27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 38/85] fix: CASCI density matrices are formed from the CI
 vector of all ranks

---
 include/macis/util/cas.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/macis/util/cas.hpp b/include/macis/util/cas.hpp
index 63c8f4a..9ff43ee 100644
--- a/include/macis/util/cas.hpp
+++ b/include/macis/util/cas.hpp
@@ -55,9 +55,22 @@ double compute_casci_rdms(
                        settings.ci_max_subspace, settings.ci_res_tol, C,
                        MACIS_MPI_CODE(comm, ) true);
 
-  // Compute RDMs
+  // Compute RDMs (requires the CI vector of all ranks)
+#ifdef MACIS_ENABLE_MPI
+  const auto world_size = comm_size(comm);
+  const int local_size = C.size();
+  std::vector<int> counts(world_size), displs(world_size, 0);
+  MPI_Allgather(&local_size, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
+  for(int i = 1; i < world_size; ++i) displs[i] = displs[i - 1] + counts[i - 1];
+  std::vector<double> C_full(dets.size());
+  MPI_Allgatherv(C.data(), local_size, MPI_DOUBLE, C_full.data(), counts.data(),
+                 displs.data(), MPI_DOUBLE, comm);
+  double* C_data = C_full.data();
+#else
+  double* C_data = C.data();
+#endif
   ham_gen.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(),
-                    C.data(), matrix_span<double>(ORDM, no, no),
+                    C_data, matrix_span<double>(ORDM, no, no),
                     rank4_span<double>(TRDM, no, no, no, no));
 
   return E0;
-- 
2.43.0


From c74784b09ca66bc1a9f831ca171ec3fd98066cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 39/85] fix: constraint masks of orbitals above 64

---
 include/macis/asci/mask_constraints.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index c9907e0..f9a5624 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -27,9 +27,7 @@ auto make_triplet(unsigned i, unsigned j, unsigned k) {
 
   con.C = 0;
   con.C.flip(i).flip(j).flip(k);
-  con.B = 1;
-  con.B <<= k;
-  con.B = con.B.to_ullong() - 1;
+  con.B = full_mask<N>(k);
   con.C_min = k;
 
   return con;
@@ -41,9 +39,7 @@ auto make_quad(unsigned i, unsigned j, unsigned k, unsigned l) {
 
   con.C = 0;
   con.C.flip(i).flip(j).flip(k).flip(l);
-  con.B = 1;
-  con.B <<= l;
-  con.B = con.B.to_ullong() - 1;
+  con.B = full_mask<N>(l);
   con.C_min = l;
 
   return con;
-- 
2.43.0


From 0564feb8f395549e4e715d9e5a6a1737f6b0555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 40/85] fix: no singles under a constraint leaves an empty list

---
 include/macis/asci/mask_constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index f9a5624..a5240d7 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -128,12 +128,12 @@ auto generate_constraint_double_excitations(wfn_t<N> det, wfn_t<N> C,
 template <size_t N>
 void generate_constraint_singles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
                                  wfn_t<N> B, std::vector<wfn_t<N>>& t_singles) {
+  t_singles.clear();
   auto [o, v] = generate_constraint_single_excitations(det, T, O_mask, B);
   const auto oc = o.count();
   const auto vc = v.count();
   if(!oc or !vc) return;
 
-  t_singles.clear();
   t_singles.reserve(oc * vc);
   const auto occ = bits_to_indices(o);
   const auto vir = bits_to_indices(v);
-- 
2.43.0


From 99a5d03cf5d0cfaaaec1a1de309f4b66adcb150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 41/85] fix: search constraints for few alpha electrons

---
 include/macis/asci/mask_constraints.hpp | 48 +++++++++++++++----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index a5240d7..1084ba1 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -79,8 +79,6 @@ auto generate_constraint_double_excitations(wfn_t<N> det, wfn_t<N> C,
   // Occ/Vir pairs to generate excitations
   std::vector<wfn_t<N>> O, V;
 
-  if((det & C) == 0) return std::make_tuple(O, V);
-
   auto o = det ^ C;
   auto v = (~det) & O_mask & B;
 
@@ -174,8 +172,6 @@ void generate_constraint_doubles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
 template <size_t N>
 unsigned count_constraint_doubles(wfn_t<N> det, wfn_t<N> C, wfn_t<N> O,
                                   wfn_t<N> B) {
-  if((det & C) == 0) return 0;
-
   auto o = det ^ C;
   auto v = (~det) & O & B;
 
@@ -496,19 +492,33 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
   std::vector<std::pair<wfn_constraint<N>, size_t>> constraint_sizes;
   constraint_sizes.reserve(norb * norb * norb);
   size_t total_work = 0;
-  for(int t_i = 0; t_i < norb; ++t_i)
-    for(int t_j = 0; t_j < t_i; ++t_j)
-      for(int t_k = 0; t_k < t_j; ++t_k) {
-        auto constraint = make_triplet<N>(t_i, t_j, t_k);
-        const auto& [T, B, _] = constraint;
-
-        size_t nw = 0;
-        for(const auto& alpha : unique_alpha) {
-          nw += constraint_histogram(alpha, ns_othr, nd_othr, T, O, B);
-        }
-        if(nw) constraint_sizes.emplace_back(constraint, nw);
-        total_work += nw;
-      }
+  auto add_constraint = [&](const wfn_constraint<N>& constraint) {
+    size_t nw = 0;
+    for(const auto& alpha : unique_alpha) {
+      nw += constraint_histogram(alpha, ns_othr, nd_othr, constraint.C, O,
+                                 constraint.B);
+    }
+    if(nw) constraint_sizes.emplace_back(constraint, nw);
+    total_work += nw;
+  };
+
+  // A constraint cannot fix more electrons than there are
+  const size_t nalpha = unique_alpha.size() ? unique_alpha[0].count() : 0;
+  if(nalpha == 0) {
+    add_constraint({wfn_t<N>(0), O, unsigned(norb)});
+  } else if(nalpha == 1) {
+    for(unsigned i = 0; i < norb; ++i)
+      add_constraint({wfn_t<N>(0).set(i), full_mask<N>(i), i});
+  } else if(nalpha == 2) {
+    for(unsigned i = 0; i < norb; ++i)
+      for(unsigned j = 0; j < i; ++j)
+        add_constraint({wfn_t<N>(0).set(i).set(j), full_mask<N>(j), j});
+  } else {
+    for(int t_i = 0; t_i < norb; ++t_i)
+      for(int t_j = 0; t_j < t_i; ++t_j)
+        for(int t_k = 0; t_k < t_j; ++t_k)
+          add_constraint(make_triplet<N>(t_i, t_j, t_k));
+  }
 
   size_t local_average = (0.6 * total_work) / world_size;
 
@@ -518,7 +528,9 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
     {
       auto it = std::partition(
           constraint_sizes.begin(), constraint_sizes.end(),
-          [=](const auto& a) { return a.second <= local_average; });
+          [=](const auto& a) {
+            return a.second <= local_average or a.first.C.count() >= nalpha;
+          });
 
       // Remove constraints from full list
       tps_to_next = decltype(tps_to_next)(it, constraint_sizes.end());
-- 
2.43.0


From c3f41435b8b73c421404304b911841ffd126bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 42/85] fix: pruning keeps track of the contributions of the
 current constraint

---
 include/macis/asci/determinant_search.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 7d66813..b99c62f 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -353,11 +353,14 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // Prune Down Contributions
       if(asci_pairs.size() > asci_settings.pair_size_max) {
-        // Remove small contributions
-        auto it = std::partition(
-            asci_pairs.begin(), asci_pairs.end(), [=](const auto& x) {
-              return std::abs(x.rv) > asci_settings.rv_prune_tol;
-            });
+        // Remove small contributions, keep those of this constraint at the end
+        auto is_small = [=](const auto& x) {
+          return std::abs(x.rv) <= asci_settings.rv_prune_tol;
+        };
+        size_before -= std::count_if(
+            asci_pairs.begin(), asci_pairs.begin() + size_before, is_small);
+        auto it =
+            std::remove_if(asci_pairs.begin(), asci_pairs.end(), is_small);
         asci_pairs.erase(it, asci_pairs.end());
 
         auto c_indices = bits_to_indices(C);
-- 
2.43.0


From 255c906e5f427c09afd95d5f8e7c39184163c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 43/85] fix: the distributed search respects just_singles

---
 include/macis/asci/determinant_search.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index b99c62f..3ec4ec1 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -297,6 +297,7 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // AAAA excitations
       for(const auto& bcd : uad[i_alpha].bcd) {
+        if(asci_settings.just_singles) break;
         const auto& beta = bcd.beta_string;
         const auto& coeff = bcd.coeff;
         const auto& h_diag = bcd.h_diag;
@@ -310,6 +311,7 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // AABB excitations
       for(const auto& bcd : uad[i_alpha].bcd) {
+        if(asci_settings.just_singles) break;
         const auto& beta = bcd.beta_string;
         const auto& coeff = bcd.coeff;
         const auto& h_diag = bcd.h_diag;
@@ -343,6 +345,7 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
               h_diag, E_ASCI, ham_gen, asci_pairs);
 
           // BBBB Excitations
+          if(asci_settings.just_singles) continue;
           append_ss_doubles_asci_contributions<N / 2, N / 2>(
               coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
               eps_beta.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI, ham_gen,
-- 
2.43.0


From 44f4ec18c378eecf75868e65562c67e827bcdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 44/85] fix: distributed search with fewer candidates than
 requested

---
 include/macis/asci/determinant_search.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 3ec4ec1..1f28452 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -577,10 +577,14 @@ std::vector<wfn_t<N>> asci_search(
       std::transform(asci_pairs.begin(), asci_pairs.end(), scores.begin(),
                      [](const auto& p) { return std::abs(p.rv); });
 
-      // Determine kth-ranked scores
-      auto kth_score =
-          dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
-                           std::greater<double>{}, std::equal_to<double>{});
+      // Determine kth-ranked scores (if there is something to be removed)
+      const size_t npairs = allreduce(scores.size(), MPI_SUM, comm);
+      double kth_score =
+          top_k_elements ? 0.0 : std::numeric_limits<double>::infinity();
+      if(top_k_elements and top_k_elements < npairs)
+        kth_score =
+            dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
+                             std::greater<double>{}, std::equal_to<double>{});
 
       // Partition local pairs into less / eq batches
       auto [g_begin, e_begin, l_begin, _end] = leg_partition(
-- 
2.43.0


From 1761725a9accc2ef251a6c5d5741c78372ee3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 45/85] fix: the distributed search cuts off only equal scores

---
 include/macis/asci/determinant_search.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 1f28452..0f6a005 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -596,11 +596,19 @@ std::vector<wfn_t<N>> asci_search(
       size_t n_greater = std::distance(g_begin, e_begin);
       size_t n_equal = std::distance(e_begin, l_begin);
       size_t n_less = std::distance(l_begin, _end);
+
+      // Elements which equal the kth score only fill up what the greater leave
+      std::vector<size_t> eq_sizes, eq_displ;
+      total_gather_and_exclusive_scan(n_equal, eq_sizes, eq_displ, comm);
+      const size_t n_fill =
+          top_k_elements - allreduce(n_greater, MPI_SUM, comm);
+      const size_t n_before = std::min(n_fill, eq_displ[world_rank]);
+      n_equal = std::min(n_equal, n_fill - n_before);
       const int n_geq_local = n_greater + n_equal;
 
       // Strip bitsrings
       std::vector<wfn_t<N>> keep_strings_local(n_geq_local);
-      std::transform(g_begin, l_begin, keep_strings_local.begin(),
+      std::transform(g_begin, g_begin + n_geq_local, keep_strings_local.begin(),
                      [](const auto& p) { return p.state; });
 
       // Gather global strings
-- 
2.43.0


From ace23a1cdb02a7402fadb00aa1c7da2617978da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 46/85] fix: growing with rotations returns the energy in the
 rotated orbitals

---
 include/macis/asci/grow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index f3f4260..cc5e5d7 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -124,7 +124,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
       logger->trace("  * Rediagonalizing");
       auto rdg_st = hrt_t::now();
       std::vector<double> X_local;
-      selected_ci_diag(
+      E = selected_ci_diag(
           wfn.begin(), wfn.end(), ham_gen, mcscf_settings.ci_matel_tol,
           mcscf_settings.ci_max_subspace, mcscf_settings.ci_res_tol,
           X_local MACIS_MPI_CODE(, comm));
-- 
2.43.0


From edd058cddbf98ab6e2bb373e3fd1936b5242775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 47/85] fix: growing reports a growth factor which does not
 grow the list

---
 include/macis/asci/grow.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index cc5e5d7..000bf02 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -52,6 +52,9 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
         std::min(std::max(asci_settings.ntdets_min,
                           wfn.size() * asci_settings.grow_factor),
                  asci_settings.ntdets_max);
+    if(ndets_new <= wfn.size())
+      throw std::runtime_error("Wavefunction didn't grow enough...");
+
     double E;
     auto ai_st = hrt_t::now();
     std::tie(E, wfn, X) = asci_iter<N, index_t>(
-- 
2.43.0


From 1ccfddcc23aca9acfa014d078704fcac96593e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 48/85] fix: the virtual rows of the generalized Fock matrix
 are zero

---
 src/macis/fock_matrices.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/macis/fock_matrices.cxx b/src/macis/fock_matrices.cxx
index a2708f1..e048e26 100644
--- a/src/macis/fock_matrices.cxx
+++ b/src/macis/fock_matrices.cxx
@@ -176,6 +176,11 @@ void generalized_fock_matrix(NumOrbital _norb, NumInactive _ninact,
       const size_t v_off = v + ninact;
       F[v_off + p * LDF] = X[p + v * norb] + Q[v + p * LDQ];
     }
+
+  // Virtual - General
+  // F(a,p) = 0
+  for(size_t p = 0; p < norb; ++p)
+    for(size_t a = ninact + nact; a < norb; ++a) F[a + p * LDF] = 0.0;
 }
 
 void generalized_fock_matrix_comp_mat1(NumOrbital _norb, NumInactive _ninact,
-- 
2.43.0


From 89b5df14264ba2437d22f5b228847d106b00547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 49/85] fix: the numerical orbital gradient respects its
 leading dimension

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 918bfba..2ba9a54 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -156,7 +156,7 @@ void numerical_orbital_gradient(NumOrbital _norb, NumInactive ninact,
       compute_orbital_rotation(_norb, -2.0, K.data(), norb, U.data(), norb);
       auto E_m2 = energy();
 
-      OG[a + i * norb] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
+      OG[a + i * LDOG] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
     }
 }
 
-- 
2.43.0


From 9088c470e72fb77c67940044233a2a74e52e1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 50/85] fix: the numerical orbital Hessian covers all pairs of
 rotations

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 2ba9a54..0fee681 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -182,7 +182,7 @@ void numerical_orbital_hessian(NumOrbital _norb, NumInactive ninact,
   for(size_t i = 0; i < norb; ++i)
     for(size_t a = i + 1; a < norb; ++a)
       for(size_t j = 0; j < norb; ++j)
-        for(size_t b = i + 1; b < norb; ++b) {
+        for(size_t b = j + 1; b < norb; ++b) {
           std::fill(Kx.begin(), Kx.end(), 0);
           std::fill(Ky.begin(), Ky.end(), 0);
           Kx[a + i * norb] = dk;
-- 
2.43.0


From 7b91d6061c0108967965207f77c18b62be8a5e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 51/85] fix: the one-index transformation respects the leading
 dimension of T

---
 src/macis/orbital_hessian.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index fcddd40..de2d6be 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -77,7 +77,7 @@ void one_index_transformed_hamiltonian(NumOrbital norb, const double* T,
       double tmp = 0.0;
       for(size_t o = 0; o < no; ++o) {
         tmp +=
-            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDX];
+            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDT];
       }
       Tx[p + q * LDTx] = tmp;
     }
-- 
2.43.0


From 7900acdd7572b5eba8ceb39a92f0b172bd053bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 52/85] fix: the orbital Hessian product is symmetric (half the
 commutator term)

---
 src/macis/orbital_hessian.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index de2d6be..f264d1a 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -140,10 +140,10 @@ void orb_orb_hessian_contract(NumOrbital norb, NumInactive ninact,
   blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, no,
              no, no, 1., Tk.data(), no, K_full.data(), no, 0., Fk.data(), no);
 
-  // Replace Tk with [G,K]
+  // Replace Tk with 0.5 * [G,K]
   for(size_t p = 0; p < no; ++p)
     for(size_t q = 0; q < no; ++q) {
-      Tk[p + q * no] = Fk[p + q * no] - Fk[q + p * no];
+      Tk[p + q * no] = 0.5 * (Fk[p + q * no] - Fk[q + p * no]);
     }
 
   // Take out orbital rotation piece into a temporary buffer
-- 
2.43.0


From 5cc9b43e84799459919ea12608879eccee103e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 53/85] fix: the MP2 energy respects the leading dimension of V

---
 src/macis/moller_plesset.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index 5e00d85..ffcec54 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -68,8 +68,8 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
         for(auto b = 0ul; b < nvir; ++b) {
           const auto a_off = a + nocc;
           const auto b_off = b + nocc;
-          const double V_abij = V[a_off + i * norb + b_off * LDV2 + j * LDV3];
-          const double V_abji = V[a_off + j * norb + b_off * LDV2 + i * LDV3];
+          const double V_abij = V[a_off + i * LDV + b_off * LDV2 + j * LDV3];
+          const double V_abji = V[a_off + j * LDV + b_off * LDV2 + i * LDV3];
 
           const double t2_ijab = T2[i + j * nocc + a * nocc2 + b * nocc2v];
           EMP2 += t2_ijab * (2 * V_abij - V_abji);
-- 
2.43.0


From 8a43bcf4236938ef5f096378f36629b6e999944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 54/85] fix: the MP2 density matrix has no occupied-virtual
 block

---
 src/macis/moller_plesset.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index ffcec54..cbeebf8 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -107,6 +107,13 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
           }
       ORDM[a + nocc + (b + nocc) * LDD] = 2 * tmp;
     }
+
+  // P(MP2) OV- and VO-blocks vanish (unrelaxed density)
+  for(auto i = 0ul; i < nocc; ++i)
+    for(auto a = 0ul; a < nvir; ++a) {
+      ORDM[i + (a + nocc) * LDD] = 0.0;
+      ORDM[a + nocc + i * LDD] = 0.0;
+    }
 }
 
 void mp2_natural_orbitals(NumOrbital norb, NumCanonicalOccupied nocc,
-- 
2.43.0


From b06709f50faf1a745d46e36301c4670cd2f4479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 55/85] fix: the preconditioned orbital step leaves out
 rotations without curvature

---
 src/macis/orbital_steps.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/macis/orbital_steps.cxx b/src/macis/orbital_steps.cxx
index 95fd4f4..c9c8055 100644
--- a/src/macis/orbital_steps.cxx
+++ b/src/macis/orbital_steps.cxx
@@ -6,6 +6,7 @@
  * See LICENSE.txt for details
  */
 
+#include <cmath>
 #include <macis/util/orbital_hessian.hpp>
 #include <macis/util/orbital_steps.hpp>
 
@@ -24,9 +25,11 @@ void precond_cg_orbital_step(NumOrbital norb, NumInactive ninact,
   approx_diag_hessian(ninact, nact, nvirt, Fi, LDFi, Fa, LDFa, A1RDM, LDD, F,
                       LDF, DH.data());
 
-  // Precondition the gradient
+  // Precondition the gradient, rotations without curvature (e.g. redundant
+  // ones between doubly occupied orbitals) are left out
+  const double curv_tol = 1e-10;
   for(size_t p = 0; p < orb_rot_sz; ++p) {
-    K_lin[p] = -OG[p] / DH[p];
+    K_lin[p] = std::abs(DH[p]) > curv_tol ? -OG[p] / DH[p] : 0.0;
   }
 }
 
-- 
2.43.0


From 81714ad054d8af16c497e6a57ae1ce59c74c58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 56/85] fix: the orbital optimisation respects the leading
 dimensions of the density matrices

---
 include/macis/util/mcscf_impl.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/macis/util/mcscf_impl.hpp b/include/macis/util/mcscf_impl.hpp
index 48d1f85..38a5acb 100644
--- a/include/macis/util/mcscf_impl.hpp
+++ b/include/macis/util/mcscf_impl.hpp
@@ -106,6 +106,18 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
   // DIIS Object
   DIIS<std::vector<double>> diis(settings.diis_nkeep);
 
+  // Contiguous working copies of the active RDMs (returned on exit)
+  double *const A1RDM_user = A1RDM, *const A2RDM_user = A2RDM;
+  const size_t LDD1_user = LDD1, LDD2_user = LDD2;
+  std::vector<double> A1RDM_work(na2), A2RDM_work(na4);
+  active_submatrix_1body(nact, NumInactive(0), A1RDM_user, LDD1_user,
+                         A1RDM_work.data(), na);
+  active_subtensor_2body(nact, NumInactive(0), A2RDM_user, LDD2_user,
+                         A2RDM_work.data(), na);
+  A1RDM = A1RDM_work.data();
+  A2RDM = A2RDM_work.data();
+  LDD1 = LDD2 = na;
+
   /**************************************************************
    *    Precompute Active Space Hamiltonian given input data    *
    *                                                            *
@@ -320,6 +332,12 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
     converged = grad_nrm / rms_factor < settings.orb_grad_tol_mcscf;
   }
 
+  // Return the RDMs
+  active_submatrix_1body(nact, NumInactive(0), A1RDM, na, A1RDM_user,
+                         LDD1_user);
+  active_subtensor_2body(nact, NumInactive(0), A2RDM, na, A2RDM_user,
+                         LDD2_user);
+
   if(converged) logger->info("MCSCF Converged");
   return E0;
 }
-- 
2.43.0


From 2dc93efdaa7fddd11c5ffec9fc782a5f05f2e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 57/85] fix: the backtracking line search does not stop at a
 point that climbs

---
 src/macis/bfgs/line_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/bfgs/line_search.hpp b/src/macis/bfgs/line_search.hpp
index 407bb8a..87c1640 100644
--- a/src/macis/bfgs/line_search.hpp
+++ b/src/macis/bfgs/line_search.hpp
@@ -75,7 +75,7 @@ void backtracking_line_search(Functor& op,
   size_t max_iter = 100;
   for(size_t iter = 0; iter < max_iter; ++iter) {
 #ifdef USE_CARLOS_VAL
-    if(test_carlos(fx, step)) break;
+    if(test_carlos(fx, step) and fx <= fx0) break;
     step *= tau;
 #else
     if(test_armijo(fx, step)) {
-- 
2.43.0


From 131eb423579ff8da4e75e183467d9eefea2ee31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 58/85] fix: generate_singles_spin is defined once in the
 legacy determinant header

---
 attic/inc/dbwy/sd_operations.hpp | 35 --------------------------------
 1 file changed, 35 deletions(-)

diff --git a/attic/inc/dbwy/sd_operations.hpp b/attic/inc/dbwy/sd_operations.hpp
index d4805eb..f63d1de 100644
--- a/attic/inc/dbwy/sd_operations.hpp
+++ b/attic/inc/dbwy/sd_operations.hpp
@@ -295,41 +295,6 @@ void generate_singles_doubles_spin_as( size_t norb, std::bitset<N> state,
 
 }
 
-template <size_t N>
-void generate_singles_spin( size_t norb, std::bitset<N> state, 
-  std::vector<std::bitset<N>>& singles ) {
-
-  auto state_alpha = truncate_bitset<N/2>(state);
-  auto state_beta  = truncate_bitset<N/2>(state >> (N/2));
-
-  std::vector<std::bitset<N/2>> singles_alpha, singles_beta;
-
-  // Generate Spin-Specific singles / doubles
-  generate_singles( norb, state_alpha, singles_alpha );
-  generate_singles( norb, state_beta,  singles_beta  );
-
-  auto state_alpha_expand = expand_bitset<N>(state_alpha);
-  auto state_beta_expand  = expand_bitset<N>(state_beta) << (N/2);
-
-  // Generate Singles in full space
-  singles.clear();
-
-  // Single Alpha + No Beta
-  for( auto s_alpha : singles_alpha ) {
-    auto s_state = expand_bitset<N>(s_alpha);
-    s_state = s_state | state_beta_expand;
-    singles.emplace_back(s_state);
-  }
-
-  // No Alpha + Single Beta
-  for( auto s_beta : singles_beta ) {
-    auto s_state = expand_bitset<N>(s_beta) << (N/2);
-    s_state = s_state | state_alpha_expand;
-    singles.emplace_back(s_state);
-  }
-
-}
-
 template <size_t N>
 void generate_singles_doubles_spin( size_t norb, std::bitset<N> state, 
   std::vector<std::bitset<N>>& singles, std::vector<std::bitset<N>>& doubles ) {
-- 
2.43.0


From be4eef7825394ecaef931aa2cf13dd107c60c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 59/85] fix: a fully occupied spin channel is a valid legacy
 determinant

---
 attic/inc/dbwy/sd_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/sd_operations.hpp b/attic/inc/dbwy/sd_operations.hpp
index f63d1de..d3a38f2 100644
--- a/attic/inc/dbwy/sd_operations.hpp
+++ b/attic/inc/dbwy/sd_operations.hpp
@@ -38,7 +38,7 @@ void bitset_to_occ_vir( size_t norb, std::bitset<N> state,
 
   occ = bits_to_indices( state );
   const auto nocc = occ.size();
-  assert( nocc < norb );
+  assert( nocc <= norb );
 
   const auto nvir = norb - nocc;
   vir.resize(nvir);
-- 
2.43.0


From a5d853994d7db5c88a37991dbfc7dedd6782cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 60/85] fix: the legacy excitation generator puts the diagonal
 only where the row's determinant is a column

---
 attic/inc/dbwy/sd_build.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/sd_build.hpp b/attic/inc/dbwy/sd_build.hpp
index 95e01dd..ebe511d 100644
--- a/attic/inc/dbwy/sd_build.hpp
+++ b/attic/inc/dbwy/sd_build.hpp
@@ -93,9 +93,11 @@ protected:
         // Compute Matrix Element
         const auto h_eld = this->matrix_element_diag( bra_occ_alpha, bra_occ_beta );
 
-        if( std::abs(h_eld) > H_thresh ) {
+        det_pos<N> pos_bra; pos_bra.det = bra; pos_bra.id = 0;
+        auto bra_it = kets.find( pos_bra );
+        if( bra_it != kets.end() and std::abs(h_eld) > H_thresh ) {
           nrow++;
-          colind.emplace_back(i);
+          colind.emplace_back(bra_it->id);
           nzval.emplace_back(h_eld);
         }
 
-- 
2.43.0


From 54360225ab6e01818f2611e23b8701f11a9492c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 61/85] fix: a legacy Green's function without any
 non-vanishing vector is empty

---
 attic/inc/dbwy/gf.h++ | 20 +++++++++++++++-----
 attic/src/dbwy/gf.c++ |  6 +++++-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/attic/inc/dbwy/gf.h++ b/attic/inc/dbwy/gf.h++
index adab04d..edaa44e 100644
--- a/attic/inc/dbwy/gf.h++
+++ b/attic/inc/dbwy/gf.h++
@@ -500,6 +500,21 @@ namespace cmz
       size_t nterms = gf_dets.size();
       cout << "---> FINAL ADD BASIS HAS " << nterms << " ELEMENTS" << endl;
     
+      //PREPARE THE WAVEFUNCTIONS FOR THE BAND LANCZOS
+      VecInt todelete;
+      std::vector<VecD> wfns = BuildWfn4Lanczos<nbits, index_t>( wfn0, GF_orbs_comp, is_up_comp, 
+                                                                         base_dets, gf_dets, is_part, todelete );
+
+      //IF THEY ALL VANISH, THE GREEN'S FUNCTION HAS NO ELEMENTS
+      if( wfns.empty() )
+      {
+        GF.clear();
+        GF.resize( ws.size() );
+        if( writeGF ) 
+          write_GF( GF, ws, GF_orbs_comp, todelete, is_part );
+        return;
+      }
+
       loop1 = time(NULL);
       loop1C = Clock::now();
       auto hamil = dbwy::make_dist_csr_hamiltonian<index_t>( MPI_COMM_WORLD, gf_dets.begin(), 
@@ -513,11 +528,6 @@ namespace cmz
       if(nterms < nLanIts)
         nLanIts = nterms;
 
-      //PREPARE THE WAVEFUNCTIONS FOR THE BAND LANCZOS
-      VecInt todelete;
-      std::vector<VecD> wfns = BuildWfn4Lanczos<nbits, index_t>( wfn0, GF_orbs_comp, is_up_comp, 
-                                                                         base_dets, gf_dets, is_part, todelete );
-    
       // //ACTUALLY COMPUTE THE GF!
        time_t GF_loop1 = time(NULL);
        auto GF_loop1C = Clock::now(); 
diff --git a/attic/src/dbwy/gf.c++ b/attic/src/dbwy/gf.c++
index 4d2ca85..cfa16ba 100644
--- a/attic/src/dbwy/gf.c++
+++ b/attic/src/dbwy/gf.c++
@@ -47,7 +47,11 @@ namespace cmz
          fname += std::to_string(GF_orbs[0]+1) + "_" + std::to_string(GF_orbs[0]+1) + ".dat";
          std::ofstream ofile( fname );
          ofile.precision(dbl::max_digits10);
-         for(int iii = 0; iii < nfreqs; iii++) ofile << scientific << real(ws[iii]) << " " << imag(ws[iii]) << " " << real(GF[iii][0][0]) << " " << imag(GF[iii][0][0]) << std::endl;
+         for(int iii = 0; iii < nfreqs; iii++){
+           ofile << scientific << real(ws[iii]) << " " << imag(ws[iii]);
+           if(!GF[iii].empty()) ofile << " " << real(GF[iii][0][0]) << " " << imag(GF[iii][0][0]);
+           ofile << std::endl;
+         }
          ofile.close();
        }
     }
-- 
2.43.0


From 286c7ef52f8acdb77f5075e90bdf6ba103686cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 62/85] fix: more vectors than dimensions in the legacy band
 resolvent

---
 attic/src/cmz_ed/bandlan.c++ | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/attic/src/cmz_ed/bandlan.c++ b/attic/src/cmz_ed/bandlan.c++
index 1ecbdf9..3ca79d7 100644
--- a/attic/src/cmz_ed/bandlan.c++
+++ b/attic/src/cmz_ed/bandlan.c++
@@ -93,15 +93,15 @@ namespace cmz
     {
       //CALL LAPACK'S QR DECOMPOSITION ROUTINES.
       //INPUT: Q: INPUT MATRIX TO PERFORM A QR DECOMPOSITION FOR. MAY BE RECTANGULAR,
-      //          THE NUMBER OF COLUMNS WILL BE ALWAYS LESS THAN THE NUMBER OF ROWS.
+      //          ONE VECTOR PER ROW. IF THERE ARE MORE VECTORS THAN ELEMENTS IN
+      //          EACH, Q KEEPS ONLY AS MANY ROWS AS THERE ARE ELEMENTS.
       //OUTPUT: Q: Q MATRIX FROM THE DECOMPOSITION, OVERWRITES INPUT
-      //        R: R MATRIX FROM THE DECOMPOSITION. UPPER DIAGONAL, SQUARE.
+      //        R: R MATRIX FROM THE DECOMPOSITION. UPPER DIAGONAL, ONE ROW PER ROW OF Q.
       //        return : TRUE FOR SUCCESS, FALSE OTHERWISE
     
       R.clear();
       //PREPARE VARIABLES TO CALL LAPACK
       int M = Q[0].size(), N = Q.size();
-      assert(M >= N);
       int LDA = M, INFO = 0, LWORK;
       double *A, *TAU, *WORK;
     
@@ -131,18 +131,18 @@ namespace cmz
         return false;
       }
       //SAVE THE R MATRIX
-      R.resize(N);
-      for(int i = 0; i < N; i++){
+      int K = std::min(M, N);
+      R.resize(K);
+      for(int i = 0; i < K; i++){
         R[i].resize(N);
         std::fill(R[i].begin(), R[i].end(), 0.);
         for(int j = i; j < N; j++) R[i][j] = A[i + j * M];
       }
     
       //NOW, COMPUTE THE ACTUAL Q MATRIX
-      int K = N;
       //FIRST, PERFORM WORKSPACE QUERY
       LWORK = -1;
-      dorgqr_(&M, &N, &K, A, &LDA, TAU, WORK, &LWORK, &INFO);
+      dorgqr_(&M, &K, &K, A, &LDA, TAU, WORK, &LWORK, &INFO);
       if(INFO != 0){
         std::cout << "ERROR IN dorgqr_ MEMORY QUERY!! ERROR CODE: " << INFO << std::endl;
         return false;
@@ -151,7 +151,7 @@ namespace cmz
       delete[] WORK;
       WORK = new double[LWORK];
       //NOW, COMPUTE ACTUAL Q
-      dorgqr_(&M, &N, &K, A, &LDA, TAU, WORK, &LWORK, &INFO);
+      dorgqr_(&M, &K, &K, A, &LDA, TAU, WORK, &LWORK, &INFO);
       if(INFO != 0){
         std::cout << "ERROR IN dorgqr_ COMPUTATION OF Q!! ERROR CODE: " << INFO << std::endl;
         return false;
@@ -159,8 +159,9 @@ namespace cmz
       delete[] TAU;
       delete[] WORK;
       //SAVE THE Q MATRIX
+      Q.resize(K);
       for(int i = 0; i < M; i++){
-        for(int j = 0; j < N; j++) Q[j][i] = A[i + j * M];
+        for(int j = 0; j < K; j++) Q[j][i] = A[i + j * M];
       }
       delete[] A;
     
@@ -443,7 +444,7 @@ namespace cmz
         std::cout << " COMPUTING S MATRIX ...";
         for(int i_lan = 0; i_lan < nLanIts; i_lan++){
           for(int j_n = 0; j_n < n; j_n++){
-            for(int l = 0; l < n; l++) S[i_lan][j_n] += eigvecs[i_lan][l] * R[l][j_n];
+            for(size_t l = 0; l < R.size(); l++) S[i_lan][j_n] += eigvecs[i_lan][l] * R[l][j_n];
           }
         }
         std::cout << "DONE! COMPUTING RESOLVENT ...";
-- 
2.43.0


From d227214fd666839cc9f28dac4e6534dd29897db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 63/85] fix: the legacy band resolvent takes at least one step
 per vector

---
 attic/src/cmz_ed/bandlan.c++ | 1 +
 1 file changed, 1 insertion(+)

diff --git a/attic/src/cmz_ed/bandlan.c++ b/attic/src/cmz_ed/bandlan.c++
index 3ca79d7..348a88c 100644
--- a/attic/src/cmz_ed/bandlan.c++
+++ b/attic/src/cmz_ed/bandlan.c++
@@ -371,6 +371,7 @@ namespace cmz
       //NEXT, COMPUTE THE BAND LANCZOS
       std::vector<std::vector<double> > bandH;
       std::cout << "BAND LANCZOS ...";
+      nLanIts = std::max(nLanIts, int(vecs.size())); //AT LEAST ONE PER STARTING VECTOR
       MyBandLan<double>(H, vecs, bandH, nLanIts, 1.E-6, print);
       std::cout << "DONE! ";
       if(print){
-- 
2.43.0


From b38fd3e6a9d71f6e3cbc951871a71fda62376ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 64/85] fix: the legacy resolvent of a vanishing vector is zero

---
 attic/inc/dbwy/gf.h++ | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/attic/inc/dbwy/gf.h++ b/attic/inc/dbwy/gf.h++
index edaa44e..f49f096 100644
--- a/attic/inc/dbwy/gf.h++
+++ b/attic/inc/dbwy/gf.h++
@@ -79,6 +79,12 @@ namespace cmz
       int nLanIts = 1000,
       bool saveABtofile = false){
       
+      gf.clear();
+      gf.resize(freqs.size(), CompD(0.,0.));
+
+      //THE RESOLVENT OF A VANISHING VECTOR IS ZERO
+      if( state_0.squaredNorm() == 0. ) return;
+      
       //FIRST, WE HAVE TO COMPUTE THE LANCZOS alphas AND betas
       double tol = 1.E-6;
       VecD alphas, betas;
@@ -105,9 +111,6 @@ namespace cmz
       }
     
       //FINALLY, WE CAN COMPUTE THE GREEN'S FUNCTION
-      gf.clear();
-      gf.resize(freqs.size(), CompD(0.,0.));
-      
       #pragma omp parallel for
       for (int indx_w = 0; indx_w < freqs.size(); indx_w++){
           gf[indx_w] = betas[kry_size] * betas[kry_size] / (freqs[indx_w] + sign * ( alphas[kry_size] - E0 ) );
-- 
2.43.0


From 1d36c26af4df5611ee7fa938ebf39e17bac3dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 65/85] fix: the legacy band Lanczos for Green's functions is
 not cut short when a chain ends early

---
 attic/inc/dbwy/gf.h++ | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/gf.h++ b/attic/inc/dbwy/gf.h++
index f49f096..db70d25 100644
--- a/attic/inc/dbwy/gf.h++
+++ b/attic/inc/dbwy/gf.h++
@@ -528,8 +528,10 @@ namespace cmz
       //NOW, PERFORM THE BAND LANCZOS ON THE TRUNCATED SPACE
       //WE ALREADY BUILT THE HAMILTONIANS
     
-      if(nterms < nLanIts)
-        nLanIts = nterms;
+      //VECTORS WHOSE CHAIN ENDS EARLY STILL TAKE THEIR STEPS IN THE BAND LANCZOS
+      size_t max_its = use_bandLan ? nterms * wfns.size() : nterms;
+      if(max_its < nLanIts)
+        nLanIts = max_its;
 
       // //ACTUALLY COMPUTE THE GF!
        time_t GF_loop1 = time(NULL);
-- 
2.43.0


From d57f46cf305a55b4bd96a830325f9aa7fc8a6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 66/85] fix: legacy input files may hold blank lines and keys
 without values

---
 attic/src/cmz_ed/utils.c++ | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index 20c9c7e..b8366db 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -118,7 +118,8 @@ namespace cmz
       while(getline(ifile, line)){
         if(line[0] == '#' || line[0] == '!' || line[0] == '%') continue;
         istringstream iss(line);
-        iss >> key;
+        val.clear();
+        if(!(iss >> key)) continue;
         iss >> std::ws;
         std::getline(iss, val);
         if(input.find(key) == input.end()){
-- 
2.43.0


From 56652c434909a03241eec49d91244ba1b063ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 67/85] fix: a legacy vector file with too many or too few
 values does not overrun or pass for a vector

---
 attic/src/cmz_ed/utils.c++ | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index b8366db..26de3db 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -76,14 +76,14 @@ namespace cmz
       }
       
       int size, cont = 0;
-      ifile >> size;
+      if(!(ifile >> size) || size < 0) return false;
       vec = VectorXcd::Zero(size);
       double val;
-      while(ifile >> val){
+      while(cont < size && ifile >> val){
         vec(cont) = std::complex<double>(val, 0.);
         cont++;
       }  
-      return true;
+      return cont == size;
     }
     
     bool ReadVec(string vec_file, VecD &vec){
@@ -97,14 +97,14 @@ namespace cmz
       }
       
       int size, cont = 0;
-      ifile >> size;
+      if(!(ifile >> size) || size < 0) return false;
       vec.resize(size, 0.);
       double val;
-      while(ifile >> val){
+      while(cont < size && ifile >> val){
         vec[cont] = val;
         cont++;
       }  
-      return true;
+      return cont == size;
     }
     
     bool ReadInput(string in_file, Input_t &input){
-- 
2.43.0


From 65415d578a38c7d16305cbd93f237686a9f6e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 68/85] fix: a blank, cut-off or out-of-range line of a legacy
 matrix file is not stored as an element

---
 attic/src/cmz_ed/utils.c++ | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index 26de3db..1523eeb 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -20,7 +20,7 @@ namespace cmz
       int rows, cols, nnz;
       getline(ifile, line);
       istringstream iss(line);
-      iss >> rows >> cols >> nnz;
+      if(!(iss >> rows >> cols >> nnz)) return 0;
     
       assert(rows == cols);
       return rows;
@@ -43,7 +43,7 @@ namespace cmz
       int rows, cols, nnz;
       getline(ifile, line);
       istringstream iss(line);
-      iss >> rows >> cols >> nnz;
+      if(!(iss >> rows >> cols >> nnz)) return false;
       
       if(mat.rows() != rows or mat.cols() != cols){
     
@@ -56,7 +56,11 @@ namespace cmz
         istringstream iss(line);
         int r, c;
         double val;
-        iss >> r >> c >> val;
+        if(!(iss >> r)){
+          if(iss.eof()) continue; // BLANK LINE
+          return false;
+        }
+        if(!(iss >> c >> val) || r < 0 || c < 0 || r >= rows || c >= cols) return false;
         tripletlist.push_back(T(r , c , val)); 
         if(r != c) tripletlist.push_back(T(c , r , val)); 
       } 
-- 
2.43.0


From ceb944fb8f33125ecc7705845e0b74b2b80f796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 69/85] fix: a sparse matrix file that cannot be written
 completely is reported

---
 .../include/sparsexx/io/write_binary_triplets.hpp     |  4 ++++
 src/sparsexx/include/sparsexx/io/write_dist_mm.hpp    | 11 ++++++++++-
 src/sparsexx/include/sparsexx/io/write_mm.hpp         |  3 ++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
index 037d3b6..e4f48cc 100644
--- a/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_binary_triplets.hpp
@@ -35,6 +35,8 @@ detail::enable_if_coo_matrix_t<SpMatType> write_binary_triplet(
   f_out.write((char*)A.rowind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.colind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.nzval().data(), nnz * sizeof(value_t));
+  f_out.close();
+  if(!f_out) throw std::runtime_error(fname + " could not be written");
 }
 
 template <typename SpMatType>
@@ -63,6 +65,8 @@ detail::enable_if_csr_matrix_t<SpMatType> write_binary_triplet(
   f_out.write((char*)rowind.data(), nnz * sizeof(index_t));
   f_out.write((char*)A.colind().data(), nnz * sizeof(index_t));
   f_out.write((char*)A.nzval().data(), nnz * sizeof(value_t));
+  f_out.close();
+  if(!f_out) throw std::runtime_error(fname + " could not be written");
 }
 
 }  // namespace sparsexx
diff --git a/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp b/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
index bde876a..ad3ab65 100644
--- a/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_dist_mm.hpp
@@ -33,9 +33,12 @@ void write_dist_mm(std::string fname, const dist_sparse_matrix<SpMatType>& A,
              A.comm());
 
   // Create the file
+  int ok = 1;
   if(!mpi_rank) {
     std::ofstream file(fname);
     write_mm_header(file, m, n, total_nnz_root, false);
+    file.close();
+    if(!file) ok = 0;
   }
   MPI_Barrier(A.comm());
 
@@ -60,6 +63,8 @@ void write_dist_mm(std::string fname, const dist_sparse_matrix<SpMatType>& A,
     const auto A_loc = A.diagonal_tile();
     write_mm_csr_block(file, A_loc, A.local_row_start() + row_offset,
                        A.local_row_start() + col_offset);
+    file.close();
+    if(!file) ok = 0;
   }
 
   // Write Off-diagonal block
@@ -69,13 +74,17 @@ void write_dist_mm(std::string fname, const dist_sparse_matrix<SpMatType>& A,
     const auto A_loc = A.off_diagonal_tile();
     write_mm_csr_block(file, A_loc, A.local_row_start() + row_offset,
                        col_offset);
+    file.close();
+    if(!file) ok = 0;
   }
 
   if(mpi_rank != mpi_size - 1) {
     MPI_Send(&token, 1, MPI_INT, mpi_rank + 1, 0, A.comm());
   }
 
-  MPI_Barrier(A.comm());
+  // Every rank learns whether all parts have been written
+  MPI_Allreduce(MPI_IN_PLACE, &ok, 1, MPI_INT, MPI_MIN, A.comm());
+  if(!ok) throw std::runtime_error(fname + " could not be written");
 }
 
 }  // namespace sparsexx
diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index 30bf831..44c3ca7 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -80,7 +80,8 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
 
   file << std::setprecision(17);
   write_mm_csr_block(file, A, row_offset, col_offset);
-  file << std::flush;
+  file.close();
+  if(!file) throw std::runtime_error(fname + " could not be written");
 }
 
 }  // namespace sparsexx
-- 
2.43.0


From 0a16b7941e30f1ebb63182cbd88e6ae81eeed85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 70/85] fix: a density-matrix or wave-function file that cannot
 be written completely is reported

---
 include/macis/wavefunction_io.hpp | 2 ++
 src/macis/fcidump.cxx             | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/macis/wavefunction_io.hpp b/include/macis/wavefunction_io.hpp
index 6f5338c..7710f39 100644
--- a/include/macis/wavefunction_io.hpp
+++ b/include/macis/wavefunction_io.hpp
@@ -113,6 +113,8 @@ void write_wavefunction(std::string fname, size_t norb,
     file << std::setw(30) << coeffs[i] << " " << to_canonical_string(states[i])
          << " " << std::endl;
   }
+  file.close();
+  if(!file) throw std::runtime_error(fname + " could not be written");
 }
 
 }  // namespace macis
diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 604419d..3105036 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -318,6 +318,8 @@ void write_rdms_binary(std::string fname, size_t norb, const double* ORDM,
               TRDM[i + j * LDD2 + k * LDD2 * LDD2 + l * LDD2 * LDD2 * LDD2];
         }
   out_file.write((char*)raw.data(), norb * norb * norb * norb * sizeof(double));
+  out_file.close();
+  if(!out_file) throw std::runtime_error(fname + " could not be written");
 }
 
 }  // namespace macis
-- 
2.43.0


From d6e67583acab1909c9dffd4a0ad95ba8d58bb5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 71/85] fix: subnormal values in text matrix files can be read
 back

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp  |  2 +-
 src/sparsexx/include/sparsexx/io/read_rb.hpp  |  2 +-
 src/sparsexx/include/sparsexx/util/string.hpp | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index e0b9b88..e0d40d8 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -332,7 +332,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
     nentries++;
     int64_t i = std::stoll(tokens[0]);
     int64_t j = std::stoll(tokens[1]);
-    T v = (tokens.size() == 3) ? std::stod(tokens[2]) : 1.;
+    T v = (tokens.size() == 3) ? to_double(tokens[2]) : 1.;
 
     rowind.push_back(i);
     colind.push_back(j);
diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index eb3affa..a38903a 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -78,7 +78,7 @@ csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   }
   while(curcount != nnz and std::getline(f_in, line)) {
     auto tokens = tokenize(line);
-    for(const auto& t : tokens) A.nzval().at(curcount++) = std::stod(t);
+    for(const auto& t : tokens) A.nzval().at(curcount++) = to_double(t);
 
   }
   if(curcount != nnz) throw std::runtime_error(fname + " is incomplete");
diff --git a/src/sparsexx/include/sparsexx/util/string.hpp b/src/sparsexx/include/sparsexx/util/string.hpp
index c15fb5b..e6f4c99 100644
--- a/src/sparsexx/include/sparsexx/util/string.hpp
+++ b/src/sparsexx/include/sparsexx/util/string.hpp
@@ -10,8 +10,13 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <locale>
+#include <stdexcept>
 #include <string>
+#include <vector>
 
 namespace sparsexx {
 
@@ -52,4 +57,15 @@ static inline std::vector<std::string> tokenize(
 
 }  // tokenize
 
+// Unlike std::stod, accepts subnormal numbers
+static inline double to_double(const std::string& str) {
+  char* end;
+  errno = 0;
+  const double value = std::strtod(str.c_str(), &end);
+  if(end == str.c_str()) throw std::invalid_argument("Invalid Number " + str);
+  if(errno == ERANGE and std::abs(value) > 1.)
+    throw std::out_of_range("Number Out of Range " + str);
+  return value;
+}
+
 }  // namespace sparsexx
-- 
2.43.0


From 313e6b88db7f636392b0daf62977afb746b74c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 72/85] fix: subnormal integrals in a file can be read back

---
 src/macis/fcidump.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 3105036..d732624 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -6,6 +6,9 @@
  * See LICENSE.txt for details
  */
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -45,7 +48,14 @@ double fcidump_value(std::string str) {
   // Fortran double precision exponents
   std::replace_if(
       str.begin(), str.end(), [](auto c) { return c == 'D' or c == 'd'; }, 'E');
-  return std::stod(str);
+  // std::stod does not accept subnormal numbers
+  char* end;
+  errno = 0;
+  const double value = std::strtod(str.c_str(), &end);
+  if(end == str.c_str()) throw std::invalid_argument("Invalid Number " + str);
+  if(errno == ERANGE and std::abs(value) > 1.)
+    throw std::out_of_range("Number Out of Range " + str);
+  return value;
 }
 
 auto fcidump_line(const std::vector<std::string>& tokens) {
-- 
2.43.0


From 3b80f75974e1aadcaaae03d0abf8f1fda1519cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:28 +0000
Subject: [PATCH 73/85] fix: subnormal coefficients in a wave-function file can
 be read back

---
 include/macis/wavefunction_io.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/macis/wavefunction_io.hpp b/include/macis/wavefunction_io.hpp
index 7710f39..bdbbb86 100644
--- a/include/macis/wavefunction_io.hpp
+++ b/include/macis/wavefunction_io.hpp
@@ -8,6 +8,9 @@
 
 #pragma once
 #include <bitset>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -68,7 +71,12 @@ void read_wavefunction(std::string fname, std::vector<std::bitset<N>>& states,
     if(d.size() < norb)
       throw std::runtime_error(fname + " contains an invalid state");
     states.emplace_back(from_canonical_string<N>(d));
-    coeffs.emplace_back(std::stod(c));
+    // std::stod does not accept subnormal numbers
+    char* end;
+    errno = 0;
+    coeffs.emplace_back(std::strtod(c.c_str(), &end));
+    if(end == c.c_str() or (errno == ERANGE and std::abs(coeffs.back()) > 1.))
+      throw std::runtime_error(fname + " contains an invalid coefficient");
   }
   if(states.size() != nstate)
     throw std::runtime_error(fname + " does not contain the stated states");
-- 
2.43.0


From 60cd9381e9d0f12a4ee8ea5cd22163f358422114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 74/85] fix: legacy ASCI search handles an empty candidate list

---
 attic/inc/dbwy/asci_util.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index 731a708..e6f26b3 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -365,6 +365,8 @@ void sort_and_accumulate_asci_pairs(
   std::vector< asci_contrib<N> >& asci_pairs
 ) {
 
+  if( asci_pairs.empty() ) return;
+
   // Sort by bitstring
   #if 0
   std::sort( asci_pairs.begin(), asci_pairs.end(), []( auto x, auto y ) {
@@ -406,6 +408,8 @@ void keep_only_largest_copy_asci_pairs(
   std::vector< asci_contrib<N> >& asci_pairs
 ) {
 
+  if( asci_pairs.empty() ) return;
+
   // Sort by bitstring
   #if 0
   std::sort( asci_pairs.begin(), asci_pairs.end(), []( auto x, auto y ) {
-- 
2.43.0


From f77d7b15ec97e4269306e5e3b8b5419caa5c536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 75/85] fix: legacy ASCI sorts candidates with a strict weak
 order

---
 attic/inc/dbwy/asci_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index e6f26b3..d0423b4 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -422,7 +422,7 @@ void keep_only_largest_copy_asci_pairs(
   });
   #else
   ips4o::parallel::sort( asci_pairs.begin(), asci_pairs.end(), 
-    []( auto x, auto y ) { return !bitset_less(x.state, y.state); });
+    []( auto x, auto y ) { return bitset_less(y.state, x.state); });
   #endif
   #endif
 
-- 
2.43.0


From 11596ba3daa5a30b74156bbee981a7a88a2e341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 76/85] fix: legacy ASCI search with fewer candidates than
 asked for

---
 attic/inc/dbwy/asci_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index d0423b4..66fd173 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -633,7 +633,8 @@ std::vector<std::bitset<N>> asci_search(
   // Sort pairs by ASCI score
   auto asci_sort_st = clock_type::now();
   #if 1
-  std::nth_element( asci_pairs.begin(), asci_pairs.begin() + ndets_max,
+  std::nth_element( asci_pairs.begin(), 
+    asci_pairs.begin() + std::min(ndets_max, asci_pairs.size()),
     asci_pairs.end(), 
   #else
   std::sort( asci_pairs.begin(), asci_pairs.end(),
-- 
2.43.0


From 3a8ec8c5146fcd63573644c02b5c4d10e31f9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 77/85] fix: legacy Davidson solvers accept a starting vector
 that is an eigenvector

---
 attic/inc/dbwy/davidson.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/attic/inc/dbwy/davidson.hpp b/attic/inc/dbwy/davidson.hpp
index 7a6dec4..56d8e43 100644
--- a/attic/inc/dbwy/davidson.hpp
+++ b/attic/inc/dbwy/davidson.hpp
@@ -41,6 +41,12 @@ double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, d
   // Compute Initial A*V
   sparsexx::spblas::gespmbv(1, 1., A, V.data(), N, 0., AV.data(), N);
 
+  // The guess may be an eigenvector already
+  const double guess_val = blas::dot( N, V.data(), 1, AV.data(), 1 );
+  std::copy_n(AV.data(), N, V.data()+N);
+  blas::axpy( N, -guess_val, V.data(), 1, V.data()+N, 1 );
+  if( blas::nrm2( N, V.data()+N, 1 ) < tol ) return guess_val;
+
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV.data(), N, V.data()+N);
   gram_schmidt(N, 1, V.data(), N, V.data()+N);
@@ -258,6 +264,18 @@ double p_davidson( int64_t max_m,
   // Compute initial A*V
   sparsexx::spblas::pgespmv( 1., A, V_local.data(), 0., AV_local.data(), spmv_info );
 
+  // The starting vector may be an eigenvector already
+  double start_val = blas::dot( N_local, V_local.data(), 1, AV_local.data(), 1 );
+  MPI_Allreduce( MPI_IN_PLACE, &start_val, 1, MPI_DOUBLE, MPI_SUM, comm );
+  std::copy_n(AV_local.data(), N_local, V_local.data()+N_local);
+  blas::axpy( N_local, -start_val, V_local.data(), 1, V_local.data()+N_local, 1 );
+  double start_res = blas::dot( N_local, V_local.data()+N_local, 1, V_local.data()+N_local, 1 );
+  MPI_Allreduce( MPI_IN_PLACE, &start_res, 1, MPI_DOUBLE, MPI_SUM, comm );
+  if( std::sqrt(start_res) < tol ) {
+    if( X_local ) std::copy_n( V_local.data(), N_local, X_local );
+    return start_val;
+  }
+
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV_local.data(), N_local, V_local.data()+N_local);
   p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data()+N_local, comm);
-- 
2.43.0


From 3efdc363c7db251234b31ea5909cc324f641d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 78/85] fix: legacy wave-function files separate coefficients
 from determinants

---
 attic/inc/dbwy/asci_body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/asci_body.hpp b/attic/inc/dbwy/asci_body.hpp
index 1938091..bf69e92 100644
--- a/attic/inc/dbwy/asci_body.hpp
+++ b/attic/inc/dbwy/asci_body.hpp
@@ -338,7 +338,7 @@ auto run_asci_w_1rdm(
     auto w = std::setw(25);
 
     for( int idet = 0; idet < dets.size(); idet++ )
-       ofile << X_local[idet] << w << dbwy::to_canonical_string( dets[idet] ) << std::endl; 
+       ofile << X_local[idet] << " " << w << dbwy::to_canonical_string( dets[idet] ) << std::endl; 
 
     ofile.close();
   }
@@ -492,7 +492,7 @@ auto run_ed_w_1rdm(
     auto w = std::setw(25);
 
     for( int idet = 0; idet < dets.size(); idet++ )
-       ofile << pairs[idet].coeff << w << pairs[idet].s << std::endl; 
+       ofile << pairs[idet].coeff << " " << w << pairs[idet].s << std::endl; 
 
     ofile.close();
   }
-- 
2.43.0


From 6a164a3d2a2d244512719fe4344f6cce95e163a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:25 +0000
Subject: [PATCH 79/85] fix: legacy Green's function driver adds sectors in
 which orbitals vanish

---
 attic/inc/dbwy/asci_body.hpp | 30 ++++++++++++++++++------------
 attic/inc/dbwy/gf.h++        |  4 +++-
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/attic/inc/dbwy/asci_body.hpp b/attic/inc/dbwy/asci_body.hpp
index bf69e92..03aad60 100644
--- a/attic/inc/dbwy/asci_body.hpp
+++ b/attic/inc/dbwy/asci_body.hpp
@@ -186,18 +186,24 @@ auto run_asci_w_GF(
     for( int iw = 0; iw < nws; iw++ )
       ws[iw] = std::complex<double>( wmin + double(iw) * (wmax - wmin) / (double(nws - 1)) , eta );
 
-    // Particle sector
-    bool is_part = true;
-    cmz::ed::RunGFCalc<nbits>( GF, psi0, ham_gen, dets, EASCI, is_part, ws, occs, input );
-
-    // Hole sector
-    is_part = false;
-    std::vector<std::vector<std::vector<std::complex<double> > > > GF_tmp;
-    cmz::ed::RunGFCalc<nbits>( GF_tmp, psi0, ham_gen, dets, EASCI, is_part, ws, occs, input );
-    for( int i = 0; i < GF_tmp.size(); i++ )
-      for( int j = 0; j < GF_tmp[i].size(); j++)
-        for( int k = 0; k < GF_tmp[i][j].size(); k++)
-          GF[i][j][k] += GF_tmp[i][j][k];
+    // Particle and hole sectors. Orbitals that vanish in a sector (full or
+    // empty ones) have no elements there
+    const auto GF_orbs = cmz::ed::getParam<cmz::ed::VecInt>( input, "GF_orbs_comp" );
+    const size_t nGF = GF_orbs.size();
+    GF.assign( nws, vector<vector<complex<double> > >( nGF, vector<complex<double> >( nGF ) ) );
+    for( bool is_part : { true, false } ) {
+      vector<vector<vector<complex<double> > > > GF_tmp;
+      cmz::ed::VecInt vanishing;
+      cmz::ed::RunGFCalc<nbits>( GF_tmp, psi0, ham_gen, dets, EASCI, is_part, ws, occs, input, &vanishing );
+      std::vector<size_t> kept;
+      for( size_t i = 0; i < nGF; i++ )
+        if( std::find( vanishing.begin(), vanishing.end(), i ) == vanishing.end() )
+          kept.push_back( i );
+      for( size_t i = 0; i < GF_tmp.size(); i++ )
+        for( size_t j = 0; j < GF_tmp[i].size(); j++)
+          for( size_t k = 0; k < GF_tmp[i][j].size(); k++)
+            GF[i][kept[j]][kept[k]] += GF_tmp[i][j][k];
+    }
   } // GF
   return std::tuple( Eret, GF );
 }
diff --git a/attic/inc/dbwy/gf.h++ b/attic/inc/dbwy/gf.h++
index db70d25..f1b5017 100644
--- a/attic/inc/dbwy/gf.h++
+++ b/attic/inc/dbwy/gf.h++
@@ -458,7 +458,8 @@ namespace cmz
       const bool is_part, 
       const VecCompD& ws, 
       const VecD & occs, 
-      const Input_t &input)
+      const Input_t &input,
+      VecInt *vanishing = nullptr)
     {
     
       // READ INPUT
@@ -507,6 +508,7 @@ namespace cmz
       VecInt todelete;
       std::vector<VecD> wfns = BuildWfn4Lanczos<nbits, index_t>( wfn0, GF_orbs_comp, is_up_comp, 
                                                                          base_dets, gf_dets, is_part, todelete );
+      if( vanishing ) *vanishing = todelete;
 
       //IF THEY ALL VANISH, THE GREEN'S FUNCTION HAS NO ELEMENTS
       if( wfns.empty() )
-- 
2.43.0


From 4f744d3dc199b7af2f52d876e6e6b30f3df96fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:36 +0000
Subject: [PATCH 80/85] fix: no iterator past the end when vanishing vectors
 are dropped

---
 attic/inc/dbwy/gf.h++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/gf.h++ b/attic/inc/dbwy/gf.h++
index f1b5017..4082422 100644
--- a/attic/inc/dbwy/gf.h++
+++ b/attic/inc/dbwy/gf.h++
@@ -393,7 +393,7 @@ namespace cmz
         for(size_t iii = 0; iii < nterms; iii++) st_nrm += wfns[orb_indx][iii] * wfns[orb_indx][iii];
         if(abs(st_nrm) <= zero_thresh) todelete.push_back(orb_indx);
        }
-       for(int i = 0; i < todelete.size(); i++) wfns.erase(wfns.begin() + todelete[i] - i);
+       for(int i = 0; i < todelete.size(); i++) wfns.erase(wfns.begin() + (todelete[i] - i));
        cout << "ORBITALS WITH NO CORRESPONING ADD-VECTOR: [";
        for(int i = 0; i < todelete.size(); i++) cout << todelete[i] << ", ";
        cout << "]" << endl;
-- 
2.43.0


From 541c34e7c60115f87279c33d501da052dee5dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:26 +0000
Subject: [PATCH 81/85] fix: legacy Davidson solvers go on when the correction
 lies in the space already

---
 attic/inc/dbwy/davidson.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/attic/inc/dbwy/davidson.hpp b/attic/inc/dbwy/davidson.hpp
index 56d8e43..e2b74b3 100644
--- a/attic/inc/dbwy/davidson.hpp
+++ b/attic/inc/dbwy/davidson.hpp
@@ -6,9 +6,12 @@
 #include <random>
 
 
-void gram_schmidt( int64_t N, int64_t K, const double* V_old, int64_t LDV,
+// Returns the norm of what is left of V_new relative to its norm
+double gram_schmidt( int64_t N, int64_t K, const double* V_old, int64_t LDV,
   double* V_new ) {
 
+  const auto nrm_in = blas::nrm2(N,V_new,1);
+
   std::vector<double> inner(K);
   blas::gemm( blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
     K, 1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K );
@@ -22,6 +25,7 @@ void gram_schmidt( int64_t N, int64_t K, const double* V_old, int64_t LDV,
 
   auto nrm = blas::nrm2(N,V_new,1);
   blas::scal( N, 1./nrm, V_new, 1 );
+  return nrm / nrm_in;
 }  
 
 
@@ -79,12 +83,17 @@ double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, d
 
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
+    const std::vector<double> R_plain( R, R + N );
     for( auto j = 0; j < N; ++j ) {
       R[j] = - R[j] / (D[j] - LAM[0]);
     }
 
-    // Project new vector out form old vectors
-    gram_schmidt(N, k, V.data(), N, R);
+    // Project new vector out form old vectors. If nothing is left of it,
+    // take the residual, which is orthogonal to them
+    if( not (gram_schmidt(N, k, V.data(), N, R) > 1e-8) ) {
+      std::copy( R_plain.begin(), R_plain.end(), R );
+      gram_schmidt(N, k, V.data(), N, R);
+    }
 
   } // Davidson iterations
 
@@ -102,10 +111,14 @@ double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, d
 
 
 
-void p_gram_schmidt( int64_t N_local, int64_t K, const double* V_old, int64_t LDV,
+// Returns the norm of what is left of V_new relative to its norm
+double p_gram_schmidt( int64_t N_local, int64_t K, const double* V_old, int64_t LDV,
   double* V_new, MPI_Comm comm ) {
 
   std::vector<double> inner(K);
+  double dot_in = blas::dot( N_local, V_new, 1, V_new, 1 );
+  MPI_Allreduce( MPI_IN_PLACE, &dot_in, 1, MPI_DOUBLE, MPI_SUM, comm );
+
   // Compute local V_old**H * V_new
   blas::gemm( blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
     K, 1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K );
@@ -130,6 +143,7 @@ void p_gram_schmidt( int64_t N_local, int64_t K, const double* V_old, int64_t LD
   MPI_Allreduce( MPI_IN_PLACE, &dot, 1, MPI_DOUBLE, MPI_SUM, comm );
   double nrm = std::sqrt(dot);
   blas::scal(N_local, 1./nrm, V_new, 1);
+  return nrm / std::sqrt(dot_in);
 
 }  
 
@@ -335,12 +349,17 @@ double p_davidson( int64_t max_m,
 
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
+    const std::vector<double> R_plain( R_local, R_local + N_local );
     for( auto j = 0; j < N_local; ++j ) {
       R_local[j] = - R_local[j] / (D_local[j] - LAM[0]);
     }
 
-    // Project new vector out form old vectors
-    p_gram_schmidt(N_local, k, V_local.data(), N_local, R_local, comm);
+    // Project new vector out form old vectors. If nothing is left of it,
+    // take the residual, which is orthogonal to them
+    if( not (p_gram_schmidt(N_local, k, V_local.data(), N_local, R_local, comm) > 1e-8) ) {
+      std::copy( R_plain.begin(), R_plain.end(), R_local );
+      p_gram_schmidt(N_local, k, V_local.data(), N_local, R_local, comm);
+    }
 
   } // Davidson iterations
 
-- 
2.43.0


From a15e9e1bc21c635e0f000644c1af98f9704145e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:26 +0000
Subject: [PATCH 82/85] fix: legacy ASCI search with impurity orbitals uses the
 full occupation in denominators

---
 attic/inc/dbwy/asci_util.hpp | 38 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index 66fd173..1bbcbef 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -204,9 +204,10 @@ void append_ss_doubles_asci_contributions(
   double                       coeff,
   std::bitset<2*N>             state_full,
   std::bitset<N>               state_spin,
-  const std::vector<uint32_t>& ss_occ,
-  const std::vector<uint32_t>& vir,
-  const std::vector<uint32_t>& os_occ,
+  const std::vector<uint32_t>& occ, // Orbitals to excite from
+  const std::vector<uint32_t>& vir, // Orbitals to excite to
+  const std::vector<uint32_t>& ss_occ, // All occupied orbitals
+  const std::vector<uint32_t>& os_occ, // All occupied orbitals
   const double*                G,
   size_t                       norb,
   double                       h_el_tol,
@@ -216,20 +217,20 @@ void append_ss_doubles_asci_contributions(
   std::vector< asci_contrib<2*N> >& asci_contributions
 ) {
 
-  const size_t nocc = ss_occ.size();
+  const size_t nocc = occ.size();
   const size_t nvir = vir.size();
 
   const std::bitset<N> one = 1;
   for( auto ii = 0; ii < nocc; ++ii )
   for( auto aa = 0; aa < nvir; ++aa ) {
 
-    const auto i = ss_occ[ii];
+    const auto i = occ[ii];
     const auto a = vir[aa];
     const auto G_ai = G + (a + i*norb)*norb*norb;
 
     for( auto jj = ii + 1; jj < nocc; ++jj )
     for( auto bb = aa + 1; bb < nvir; ++bb ) {
-      const auto j = ss_occ[jj];
+      const auto j = occ[jj];
       const auto b = vir[bb];
       const auto jb = b + j*norb;
       const auto G_aibj = G_ai[jb];
@@ -311,10 +312,12 @@ void append_os_doubles_asci_contributions(
   std::bitset<2*N>             state_full,
   std::bitset<N>               state_alpha,
   std::bitset<N>               state_beta,
-  const std::vector<uint32_t>& occ_alpha,
-  const std::vector<uint32_t>& occ_beta,
-  const std::vector<uint32_t>& vir_alpha,
+  const std::vector<uint32_t>& exc_alpha, // Orbitals to excite from
+  const std::vector<uint32_t>& exc_beta,
+  const std::vector<uint32_t>& vir_alpha, // Orbitals to excite to
   const std::vector<uint32_t>& vir_beta,
+  const std::vector<uint32_t>& occ_alpha, // All occupied orbitals
+  const std::vector<uint32_t>& occ_beta,
   const double*                V,
   size_t                       norb,
   double                       h_el_tol,
@@ -325,12 +328,12 @@ void append_os_doubles_asci_contributions(
 ) {
 
   const std::bitset<2*N> one = 1;
-  for( auto i : occ_alpha )
+  for( auto i : exc_alpha )
   for( auto a : vir_alpha ) {
     const auto V_ai = V + a + i*norb;
 
     double sign_alpha = single_excitation_sign( state_alpha, a, i );
-    for( auto j : occ_beta )
+    for( auto j : exc_beta )
     for( auto b : vir_beta ) {
       const auto jb = b + j*norb;
       const auto V_aibj = V_ai[jb*norb*norb];
@@ -469,6 +472,7 @@ std::vector<std::bitset<N>> asci_search(
 
   std::vector<uint32_t> occ_alpha, vir_alpha;
   std::vector<uint32_t> occ_beta, vir_beta;
+  std::vector<uint32_t> exc_alpha, exc_beta;
 
   std::vector< asci_contrib<N> > asci_pairs;
 
@@ -533,28 +537,30 @@ std::vector<std::bitset<N>> asci_search(
     if( !ham_gen.GetJustSingles() )
     {
       // In case they are defined, consider doubles only between impurity orbitals.
+      exc_alpha = occ_alpha;
+      exc_beta  = occ_beta;
       size_t nimp = ham_gen.GetNimp();
       if( nimp < N/2 )
       {
         std::vector<uint32_t> imp_orbs( nimp, 0 );
         for( int ii = 0; ii < nimp; ii++ )
           imp_orbs[ii] = ii;
-        bitset_to_occ_vir_as( norb, state_alpha, occ_alpha, vir_alpha, imp_orbs ); 
-        bitset_to_occ_vir_as( norb, state_beta,  occ_beta,  vir_beta,  imp_orbs  ); 
+        bitset_to_occ_vir_as( norb, state_alpha, exc_alpha, vir_alpha, imp_orbs ); 
+        bitset_to_occ_vir_as( norb, state_beta,  exc_beta,  vir_beta,  imp_orbs  ); 
       }
       // Doubles - AAAA
       append_ss_doubles_asci_contributions<N/2,0>( coeff, state, state_alpha, 
-        occ_alpha, vir_alpha, occ_beta, G_pqrs, norb, h_el_tol, hdiag, E_ASCI, 
+        exc_alpha, vir_alpha, occ_alpha, occ_beta, G_pqrs, norb, h_el_tol, hdiag, E_ASCI, 
         ham_gen, asci_pairs);
 
       // Doubles - BBBB
       append_ss_doubles_asci_contributions<N/2,N/2>( coeff, state, state_beta, 
-        occ_beta, vir_beta, occ_alpha, G_pqrs, norb, h_el_tol, hdiag, E_ASCI,
+        exc_beta, vir_beta, occ_beta, occ_alpha, G_pqrs, norb, h_el_tol, hdiag, E_ASCI,
         ham_gen, asci_pairs);
 
       // Doubles - AABB
       append_os_doubles_asci_contributions( coeff, state, state_alpha, state_beta, 
-        occ_alpha, occ_beta, vir_alpha, vir_beta, V_pqrs, norb, h_el_tol, hdiag,
+        exc_alpha, exc_beta, vir_alpha, vir_beta, occ_alpha, occ_beta, V_pqrs, norb, h_el_tol, hdiag,
         E_ASCI, ham_gen, asci_pairs );
     }
 
-- 
2.43.0


From 7a5751373e515222dd8242e654b9cd02f1532c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:00 +0000
Subject: [PATCH 83/85] fix: legacy find-first-set of 128 bits counts from one
 like the other widths

---
 attic/inc/dbwy/bitset_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/bitset_operations.hpp b/attic/inc/dbwy/bitset_operations.hpp
index bf04b59..bf819d8 100644
--- a/attic/inc/dbwy/bitset_operations.hpp
+++ b/attic/inc/dbwy/bitset_operations.hpp
@@ -37,7 +37,7 @@ uint32_t ffs( std::bitset<N> bits ) {
 
   if constexpr (N <= 32)      return ffsl( bits.to_ulong() );
   else if constexpr (N <= 64) return ffsll( bits.to_ullong() );
-  else if constexpr (N <= 128) return std::countr_zero( to_uint128(bits) );
+  else if constexpr (N == 128) return bits.any() ? std::countr_zero( to_uint128(bits) ) + 1 : 0;
   else {
     uint32_t ind = 0;
     for( ind = 0; ind < N; ++ind )
-- 
2.43.0


From 821a83bea5eab5957c6b78b074f0cae6d95c17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:36 +0000
Subject: [PATCH 84/85] fix: legacy bit-string combinations of more than 31
 bits

---
 attic/src/cmz_ed/combins.c++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/src/cmz_ed/combins.c++ b/attic/src/cmz_ed/combins.c++
index 06e0dbf..adb7fa3 100644
--- a/attic/src/cmz_ed/combins.c++
+++ b/attic/src/cmz_ed/combins.c++
@@ -18,7 +18,7 @@ namespace cmz
        uint64_t temp = 0;
        for (int i = 0; i < Nbits; ++i) {
          if (v[i]) {
-             temp = temp + (1 << i);
+             temp = temp + (uint64_t(1) << i);
          }
        }
      //End: From vvector bool to uint
-- 
2.43.0


From b26c1dc7e3ff009313efd198290d8f65cf56d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:45 +0000
Subject: [PATCH 85/85] fix: legacy determinants of more than 16 orbitals

---
 attic/inc/cmz_ed/slaterdet.h++ | 6 +++---
 attic/src/cmz_ed/slaterdet.c++ | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/attic/inc/cmz_ed/slaterdet.h++ b/attic/inc/cmz_ed/slaterdet.h++
index d496ff9..4116282 100644
--- a/attic/inc/cmz_ed/slaterdet.h++
+++ b/attic/inc/cmz_ed/slaterdet.h++
@@ -220,7 +220,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndx( const slater_det &st ) const 
         {
-          return (ffs( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -237,7 +237,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxUp( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -254,7 +254,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxDo( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Defines order among Slater determinants, for use in std::set. 
diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index df420ad..d26f476 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -10,7 +10,7 @@ namespace cmz
       uint64_t omax = std::max(i,a);
       uint64_t omin = std::min(i,a);
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((uint64_t(1)<<omax) - 1) ^ ((uint64_t(1)<<(omin+1)) - 1);
       mask = state & mask;
       Flip(i); Flip(a);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
@@ -21,7 +21,7 @@ namespace cmz
       uint64_t omax = std::max(i,a) + Norbs;
       uint64_t omin = std::min(i,a) + Norbs;
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((uint64_t(1)<<omax) - 1) ^ ((uint64_t(1)<<(omin+1)) - 1);
       mask = state & mask;
       Flip(i+Norbs); Flip(a+Norbs);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
-- 
2.43.0

