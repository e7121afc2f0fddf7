From 315c0d6e80e5b4fc46e9eef4288f4c21e7e2453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 01/18] fix: make sparse matrix enable_if traits SFINAE
 friendly

write_binary_triplet has overloads constrained on the CSR and COO traits; the
traits raised a hard error instead of removing the overload, so the function
could not be called with any matrix type.
---
 .../include/sparsexx/matrix_types/type_traits.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
index 14549d0..20ba626 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
@@ -53,17 +53,14 @@ template <typename SpMatType>
 inline constexpr bool is_coo_matrix_v = is_coo_matrix<SpMatType>::value;
 
 template <typename SpMatType, typename U = void>
-struct enable_if_csr_matrix {
-  using type = std::enable_if_t<is_csr_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csr_matrix
+    : public std::enable_if<is_csr_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_csc_matrix {
-  using type = std::enable_if_t<is_csc_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csc_matrix
+    : public std::enable_if<is_csc_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_coo_matrix {
-  using type = std::enable_if_t<is_coo_matrix_v<SpMatType>, U>;
-};
+struct enable_if_coo_matrix
+    : public std::enable_if<is_coo_matrix_v<SpMatType>, U> {};
 
 template <typename SpMatType, typename U = void>
 using enable_if_csr_matrix_t =
-- 
2.43.0


From d81beac05381b8b31f7d27419f72150e9de183d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 02/18] fix: let dist_sparse_matrix be built from matrices with
 64-bit indices

std::make_pair with explicit template arguments takes rvalue references, so the
constructors from a replicated matrix did not compile for int64_t indices.
---
 .../sparsexx/matrix_types/dist_sparse_matrix.hpp     | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index a2f8893..6caae32 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -93,10 +93,8 @@ class dist_sparse_matrix {
   dist_sparse_matrix(MPI_Comm c, const SpMatType& A)
       : dist_sparse_matrix(c, A.m(), A.n()) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
-    auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
-    auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+    std::pair<int64_t, int64_t> local_lo(local_row_st, local_row_st);
+    std::pair<int64_t, int64_t> local_up(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
@@ -109,10 +107,8 @@ class dist_sparse_matrix {
                      const std::vector<extent_type>& row_tiles)
       : dist_sparse_matrix(c, A.m(), A.n(), row_tiles) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
-    auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
-    auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+    std::pair<int64_t, int64_t> local_lo(local_row_st, local_row_st);
+    std::pair<int64_t, int64_t> local_up(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
-- 
2.43.0


From 8d9c8cc4f04bbee1a1acca497558920d8dd44ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:10 +0000
Subject: [PATCH 03/18] fix: build pointer arrays from coordinate form for
 empty rows and columns

The running row counter advanced by one per change of row, so any empty row or
column shifted the pointers; the column form also wrote its end at index m.
---
 .../sparsexx/matrix_types/conversions.hpp     | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 563cdea..b022a2f 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "coo_matrix.hpp"
@@ -74,15 +75,12 @@ csr_matrix<T, index_t, Alloc>::csr_matrix(
   const auto& colind_coo = other.colind();
   const auto& nzval_coo = other.nzval();
 
-  // Compute rowptr
-  rowptr_.at(0) = other.indexing();
-  auto cur_row = 0;
+  // Compute rowptr (rows may be empty)
+  std::fill(rowptr_.begin(), rowptr_.end(), 0);
+  rowptr_.at(0) = indexing_;
   for(size_type i = 0; i < nnz_; ++i)
-    if(rowind_coo[i] != (cur_row + indexing_)) {
-      cur_row++;
-      rowptr_.at(cur_row) = i + indexing_;
-    }
-  rowptr_.at(m_) = nnz_ + indexing_;
+    rowptr_.at(rowind_coo[i] - indexing_ + 1)++;
+  for(size_type i = 0; i < m_; ++i) rowptr_[i + 1] += rowptr_[i];
 
   std::copy(colind_coo.begin(), colind_coo.end(), colind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
@@ -101,15 +99,12 @@ csc_matrix<T, index_t, Alloc>::csc_matrix(
   const auto& colind_coo = other.colind();
   const auto& nzval_coo = other.nzval();
 
-  // Compute colptr
-  colptr_.at(0) = other.indexing();
-  auto cur_col = 0;
-  for(size_t i = 0; i < nnz_; ++i)
-    if(colind_coo[i] != (cur_col + indexing_)) {
-      cur_col++;
-      colptr_.at(cur_col) = i + indexing_;
-    }
-  colptr_.at(m_) = nnz_ + indexing_;
+  // Compute colptr (columns may be empty)
+  std::fill(colptr_.begin(), colptr_.end(), 0);
+  colptr_.at(0) = indexing_;
+  for(size_type i = 0; i < nnz_; ++i)
+    colptr_.at(colind_coo[i] - indexing_ + 1)++;
+  for(size_type i = 0; i < n_; ++i) colptr_[i + 1] += colptr_[i];
 
   std::copy(rowind_coo.begin(), rowind_coo.end(), rowind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From c7f4fd2bac14a4d745a4abdd9278ab4558dbb2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:10 +0000
Subject: [PATCH 04/18] fix: honour the index base in the coordinate-form block
 product

---
 src/sparsexx/include/sparsexx/spblas/spmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
index 419c42c..a77eb99 100644
--- a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
@@ -121,8 +121,8 @@ gespmbv(int64_t K, ALPHAT ALPHA, const SpMatType& A,
 
   for(index_type k = 0; k < K; ++k)
     for(index_type inz = 0; inz < nnz; ++inz) {
-      const auto i = Ari[inz];
-      const auto j = Aci[inz];
+      const auto i = Ari[inz] - indexing;
+      const auto j = Aci[inz] - indexing;
       AV[i + k * LDAV] += alpha * Anz[inz] * V[j + k * LDV];
     }
 }
-- 
2.43.0


From 14322fee46ed04ba8c1a1b97d20dd7c1c74ae85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:10 +0000
Subject: [PATCH 05/18] fix: honour the index base when expanding coordinate
 form to dense

---
 .../include/sparsexx/matrix_types/dense_conversions.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
index 376bfa3..eb633cf 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
@@ -59,7 +59,7 @@ void convert_to_dense(const coo_matrix<Args...>& A,
 
 #pragma omp parallel for
   for(int64_t i = 0; i < nnz; ++i) {
-    A_dense[Ari[i] + Aci[i] * LDAD] = Anz[i];
+    A_dense[(Ari[i] - indexing) + (Aci[i] - indexing) * LDAD] = Anz[i];
   }
 }
 
-- 
2.43.0


From cf3553797664f61544d795ca393dcc74f1289357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:10 +0000
Subject: [PATCH 06/18] fix: keep the row partition when copying a distributed
 matrix

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index 6caae32..09916f0 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -84,7 +84,8 @@ class dist_sparse_matrix {
   }
 
   dist_sparse_matrix(const dist_sparse_matrix& other)
-      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_) {
+      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_,
+                           other.dist_row_extents_) {
     if(other.diagonal_tile_) set_diagonal_tile(other.diagonal_tile());
     if(other.off_diagonal_tile_)
       set_off_diagonal_tile(other.off_diagonal_tile());
-- 
2.43.0


From 60780f354a39dc62adcfc91aad439e4eff38aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:24 +0000
Subject: [PATCH 07/18] fix: count the entries a triangle expands to

2*nnz - n is only right when every diagonal element is stored.
---
 src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index c6a2c7f..f146a7c 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -111,7 +111,9 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   if(diagonal or full_matrix) return;
 
   std::cout << "Performing Expansion..." << std::endl;
-  size_t new_nnz = 2 * nnz_ - n_;
+  size_t new_nnz = nnz_;
+  for(size_t i = 0; i < nnz_; ++i)
+    if(rowind_[i] != colind_[i]) new_nnz++;
   rowind_.reserve(new_nnz);
   colind_.reserve(new_nnz);
   nzval_.reserve(new_nnz);
-- 
2.43.0


From 369ff96085af3ca270c6dd9449711d280616afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:24 +0000
Subject: [PATCH 08/18] fix: write row and column indices of a matrix file in
 the same base

---
 src/sparsexx/include/sparsexx/io/write_mm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index c29e7a2..30bf831 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -72,7 +72,7 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
   write_mm_header(file, m, n, nnz, symm);
 
   int col_offset = 0;
-  int row_offset = 0;
+  int row_offset = A.indexing();
   if(forced_index >= 0) {
     col_offset = forced_index - A.indexing();
     row_offset = forced_index;
-- 
2.43.0


From 4ea8e3e963a0f29391285638d9559476e8311712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:16 +0000
Subject: [PATCH 09/18] fix: keep the upper half of the low word in
 fast_to_ulong

---
 include/macis/bitset_operations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/macis/bitset_operations.hpp b/include/macis/bitset_operations.hpp
index e0f5ec2..b1a7931 100644
--- a/include/macis/bitset_operations.hpp
+++ b/include/macis/bitset_operations.hpp
@@ -76,8 +76,9 @@ unsigned long long fast_to_ullong(const std::bitset<N>& bits) {
 template <size_t N>
 unsigned long fast_to_ulong(const std::bitset<N>& bits) {
   // Low words
-  if constexpr(N == 32 or N == 64 or N == 128)
-    return *reinterpret_cast<const uint32_t*>(&bits);
+  if constexpr(N == 64 or N == 128)
+    return *reinterpret_cast<const uint64_t*>(&bits);
+  if constexpr(N == 32) return *reinterpret_cast<const uint32_t*>(&bits);
   return bits.to_ulong();
 }
 
-- 
2.43.0


From f3c030ed4540c65bf6c1e41375582cca53ad247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:16 +0000
Subject: [PATCH 10/18] fix: find the owner of the guess row from the row
 partition

Dividing by the first extent names the wrong process (or none) when the last
process carries the remainder or the partition is not uniform, which left the
guess vector zero.
---
 include/macis/solvers/davidson.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 6375677..abdac7a 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -100,10 +100,10 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
   // Zero out guess
   for(size_t i = 0; i < N_local; ++i) X[i] = 0.;
 
-  // Get owner rank
-  int owner_rank = min_idx / remote_counts[0];
-  if(world_rank == owner_rank) {
-    X[min_idx - A.local_row_start()] = 1.;
+  // Only the owner of the row has a nonzero element
+  if(min_idx >= row_starts[world_rank] and
+     min_idx < row_starts[world_rank + 1]) {
+    X[min_idx - row_starts[world_rank]] = 1.;
   }
 }
 #endif
-- 
2.43.0


From 3d8bd39756a91d95bf3fae9f2d7401f969d86b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 11/18] fix: decide on the Davidson guess from the whole vector

The largest local coefficient guarded the collective guess generation, so
processes could disagree and hang; it was also undefined for empty blocks.
---
 include/macis/solvers/selected_ci_diag.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/macis/solvers/selected_ci_diag.hpp b/include/macis/solvers/selected_ci_diag.hpp
index 0a1e293..82908e6 100644
--- a/include/macis/solvers/selected_ci_diag.hpp
+++ b/include/macis/solvers/selected_ci_diag.hpp
@@ -37,13 +37,12 @@ double parallel_selected_ci_diag(const SpMatType& H, size_t davidson_max_m,
   // Extract Diagonal
   auto D_local = extract_diagonal_elements(H.diagonal_tile());
 
-  // Setup guess
-  auto max_c = *std::max_element(
-      C_local.begin(), C_local.end(),
-      [](auto a, auto b) { return std::abs(a) < std::abs(b); });
-  max_c = std::abs(max_c);
+  // Setup guess: all processes have to take the same branch
+  double max_c = 0.;
+  for(auto c : C_local) max_c = std::max(max_c, std::abs(c));
+  max_c = allreduce(max_c, MPI_MAX, comm);
 
-  if(max_c > (1. / C_local.size())) {
+  if(max_c > (1. / H.m())) {
     logger->info("  * Will use passed vector as guess");
   } else {
     logger->info("  * Will generate identity guess");
-- 
2.43.0


From 2bf4b57a845ebf8442b0ec4bbca6d7c78c0b8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 12/18] fix: use the leading dimension of T in the one-index
 transformation

---
 src/macis/orbital_hessian.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index fcddd40..de2d6be 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -77,7 +77,7 @@ void one_index_transformed_hamiltonian(NumOrbital norb, const double* T,
       double tmp = 0.0;
       for(size_t o = 0; o < no; ++o) {
         tmp +=
-            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDX];
+            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDT];
       }
       Tx[p + q * LDTx] = tmp;
     }
-- 
2.43.0


From 344da514343293ff413d39ef0f927c84784200b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 13/18] fix: honour LDOG in the numerical orbital gradient

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 918bfba..2ba9a54 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -156,7 +156,7 @@ void numerical_orbital_gradient(NumOrbital _norb, NumInactive ninact,
       compute_orbital_rotation(_norb, -2.0, K.data(), norb, U.data(), norb);
       auto E_m2 = energy();
 
-      OG[a + i * norb] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
+      OG[a + i * LDOG] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
     }
 }
 
-- 
2.43.0


From 79b39cc2fd1b09bea19e0063ebc9ba89975528ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 14/18] fix: use the leading dimension of V in the MP2 density

---
 src/macis/moller_plesset.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index 5e00d85..ffcec54 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -68,8 +68,8 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
         for(auto b = 0ul; b < nvir; ++b) {
           const auto a_off = a + nocc;
           const auto b_off = b + nocc;
-          const double V_abij = V[a_off + i * norb + b_off * LDV2 + j * LDV3];
-          const double V_abji = V[a_off + j * norb + b_off * LDV2 + i * LDV3];
+          const double V_abij = V[a_off + i * LDV + b_off * LDV2 + j * LDV3];
+          const double V_abji = V[a_off + j * LDV + b_off * LDV2 + i * LDV3];
 
           const double t2_ijab = T2[i + j * nocc + a * nocc2 + b * nocc2v];
           EMP2 += t2_ijab * (2 * V_abij - V_abji);
-- 
2.43.0


From f487ceb73070497cfe7c2384e7b5538d2e20ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 15/18] fix: honour the leading dimensions of rank-4 arrays in
 four_index_transform

LDX was only used for the first index and LDY not at all, so padded arrays were
read and written at the wrong elements.
---
 src/macis/transform.cxx | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/macis/transform.cxx b/src/macis/transform.cxx
index 0403307..14a4f5a 100644
--- a/src/macis/transform.cxx
+++ b/src/macis/transform.cxx
@@ -62,10 +62,15 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 1st Quarter
   // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
-  // TMP1(p, jkl)  = C(i,p) * X(i,jkl)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
-             norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
-             tmp1.data(), norb_new);
+  // TMP1_kl(p,j)  = C(i,p) * X_kl(i,j)
+  for(size_t l = 0; l < norb_old; ++l)
+    for(size_t k = 0; k < norb_old; ++k) {
+      auto X_kl = X + (k + l * LDX) * LDX * LDX;
+      auto TMP1_kl = tmp1.data() + (k + l * norb_old) * norb_old * norb_new;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+                 norb_new, norb_old, norb_old, 1.0, C, LDC, X_kl, LDX, 0.0,
+                 TMP1_kl, norb_new);
+    }
 
   // 2nd Quarter
   // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
@@ -91,10 +96,15 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 4th Quarter
   // Y(p,q,r,s) = C(l,s) * TMP1(p,q,r,l)
-  // Y(pqr,s) = V(pqr,l) * C(l,s)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C, LDC,
-             0.0, Y, norb_new3);
+  // Y_qr(p,s) = TMP1_qr(p,l) * C(l,s)
+  for(size_t r = 0; r < norb_new; ++r)
+    for(size_t q = 0; q < norb_new; ++q) {
+      auto TMP1_qr = tmp1.data() + (q + r * norb_new) * norb_new;
+      auto Y_qr = Y + (q + r * LDY) * LDY;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+                 norb_new, norb_new, norb_old, 1.0, TMP1_qr, norb_new3, C, LDC,
+                 0.0, Y_qr, LDY * LDY * LDY);
+    }
 
 #else
 
-- 
2.43.0


From 7e6fd60bcb8df72db734af2d42e0ab1e26caf8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:26 +0000
Subject: [PATCH 16/18] fix: accumulate communication offsets in their own type

The int initial value made every partial sum an int.
---
 include/macis/util/dist_quickselect.hpp         | 3 ++-
 src/sparsexx/include/sparsexx/spblas/pspmbv.hpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/macis/util/dist_quickselect.hpp b/include/macis/util/dist_quickselect.hpp
index 466f060..97dc292 100644
--- a/include/macis/util/dist_quickselect.hpp
+++ b/include/macis/util/dist_quickselect.hpp
@@ -40,7 +40,8 @@ Integral total_gather_and_exclusive_scan(Integral val,
   auto dtype = mpi_traits<Integral>::datatype();
   MPI_Allgather(&val, 1, dtype, gather.data(), 1, dtype, comm);
   Integral total = std::accumulate(gather.begin(), gather.end(), Integral(0));
-  std::exclusive_scan(gather.begin(), gather.end(), scan.begin(), 0);
+  std::exclusive_scan(gather.begin(), gather.end(), scan.begin(),
+                      Integral(0));
 
   return total;
 }
diff --git a/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp b/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
index 811f4a6..544c04b 100644
--- a/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
@@ -157,9 +157,9 @@ auto generate_spmv_comm_info(const DistSpMatrixType& A) {
   // Compute offsets for send/recv indices in contiguous memory
   std::vector<size_t> recv_offsets(comm_size), send_offsets(comm_size);
   std::exclusive_scan(send_counts.begin(), send_counts.end(),
-                      send_offsets.begin(), 0);
+                      send_offsets.begin(), size_t(0));
   std::exclusive_scan(recv_counts.begin(), recv_counts.end(),
-                      recv_offsets.begin(), 0);
+                      recv_offsets.begin(), size_t(0));
 
   // Linearize the send/recv data structures
   size_t nrecv_indices =
-- 
2.43.0


From 22aa2e4bda2a99bc0402ec8acd6628cc66f2c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 17/18] fix: end the bit scan of wide determinants on an empty
 string

---
 include/macis/bitset_operations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/macis/bitset_operations.hpp b/include/macis/bitset_operations.hpp
index b1a7931..2405ba0 100644
--- a/include/macis/bitset_operations.hpp
+++ b/include/macis/bitset_operations.hpp
@@ -195,8 +195,8 @@ uint32_t fls(std::bitset<N> bits) {
     else
       return fls(as_words[0]);
   } else {
-    uint32_t ind = 0;
-    for(ind = N - 1; ind >= 0; ind--)
+    uint32_t ind = N;
+    while(ind-- > 0)
       if(bits[ind]) return ind;
     return ind;
   }
-- 
2.43.0


From 12d952c44c21ddde4d8cce6a1ce10e2cd2becfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:24 +0000
Subject: [PATCH 18/18] fix: keep double excitations out of a one-body density
 formed alone

---
 include/macis/util/rdms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/macis/util/rdms.hpp b/include/macis/util/rdms.hpp
index 72b55bb..a0dd7e7 100644
--- a/include/macis/util/rdms.hpp
+++ b/include/macis/util/rdms.hpp
@@ -109,6 +109,9 @@ inline void rdm_contributions(wfn_t<N> bra_alpha, wfn_t<N> ket_alpha,
   if((ex_alpha_count + ex_beta_count) > 4) return;
 
   const auto trdm_ptr = trdm.data_handle();
+  // Double excitations only contribute to the two-body density
+  if((ex_alpha_count + ex_beta_count) == 4 and !trdm_ptr) return;
+
   if(ex_alpha_count == 4 and trdm_ptr)
     rdm_contributions_4(bra_alpha, ket_alpha, ex_alpha, val, trdm);
 
-- 
2.43.0

