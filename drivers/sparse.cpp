// Instantiates every public template of sparsexx (never run; only type-checked).
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
#include <sparsexx/matrix_types/coo_conversions.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/util/submatrix.hpp>
#include <sparsexx/util/graph.hpp>
#include <sparsexx/util/hash.hpp>
#include <sparsexx/util/string.hpp>
#include <sparsexx/util/mpi.hpp>
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/read_rb.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <sparsexx/spsolve/bunch_kaufman.hpp>

namespace sparsexx {
template <class... T> void sink(T&&...) {}
#define INST(T, I)                                                       \
  template class csr_matrix<T, I>;                                       \
  template class csc_matrix<T, I>;                                       \
  template class coo_matrix<T, I>;                                       \
  template struct spblas::spmv_info<I>;
INST(double, int64_t)
INST(double, int32_t)
INST(double, size_t)
template class dist_sparse_matrix<csr_matrix<double, int64_t>>;
template class dist_sparse_matrix<csr_matrix<double, int32_t>>;
template class dist_sparse_matrix<csr_matrix<double, size_t>>;

template <class T, class I> void use(MPI_Comm comm) {
  using csr = csr_matrix<T, I>;
  using csc = csc_matrix<T, I>;
  using coo = coo_matrix<T, I>;
  csr A(1, 1, 1, 0);
  csc B(1, 1, 1, 0);
  coo C(1, 1, 1, 0);
  csr A1(C);
  csc B1(C);
  csr A2(B);
  coo C1(A);
  bool eq = A == A1 || A != A2;
  sink(eq);
  A.set_indexing(1);
  C.sort_by_row_index();
  C.sort_by_col_index();
  C.expand_from_triangle();
  T* p = nullptr;
  convert_to_dense(A, p, 1);
  convert_to_dense(C, p, 1);
  spblas::gespmbv(1, T(1), A, p, 1, T(0), p, 1);
  spblas::gespmbv(1, T(1), C, p, 1, T(0), p, 1);
  std::vector<I> perm;
  sink(perm_from_part(int64_t(1), perm), invert_perm(perm));
  permute_vector(1, (const T*)p, perm.data(), p, PermuteDirection::Forward);
  permute_vector(1, p, perm.data(), PermuteDirection::Forward);
  sink(permute_rows(A, perm), permute_cols(A, perm), permute_rows_cols(A, perm, perm));
  std::pair<int64_t, int64_t> lo, up;
  sink(extract_submatrix(A, lo, up), extract_submatrix_inclrow_exclcol(A, lo, up),
       extract_upper_triangle(A), extract_diagonal_elements(A), trace(A));
  sink(extract_adjacency(A, 0));
  sink(read_binary_triplet<csr>(""), read_binary_triplet<csc>(""), read_binary_triplet<coo>(""));
  write_binary_triplet<csr>(A, "");
  write_binary_triplet<coo>(C, "");
  sink(read_mm<csr>(""), read_mm<csc>(""), read_mm<coo>(""));
  sink(read_rb<csc>(""), read_rb<csr>(""));
  write_mm("", A, false);
}
template void use<double, int64_t>(MPI_Comm);
template void use<double, int32_t>(MPI_Comm);

template <class T, class I> void use_dist(MPI_Comm comm) {
  using csr = csr_matrix<T, I>;
  using dist = dist_sparse_matrix<csr>;
  csr A(1, 1, 1, 0);
  T* p = nullptr;
  dist D(comm, A);
  std::vector<typename dist::extent_type> tiles;
  dist D1(comm, A, tiles);
  dist D2(comm, 1, 1);
  dist D3(D), D4(std::move(D3)), D5(comm, 1, 1, tiles);
  sink(D.m(), D.n(), D.nnz(), D.mem_footprint(), D.local_row_extent(), D.local_row_start());
  auto info = spblas::generate_spmv_comm_info(D);
  spblas::pgespmv(1., D, p, 0., p, info);
  sink(info.communication_volume());
  write_dist_mm("", D);
}
template void use_dist<double, int64_t>(MPI_Comm);
template void use_dist<double, int32_t>(MPI_Comm);
template void use_dist<double, size_t>(MPI_Comm);

void use_mpi(MPI_Comm comm) {
  std::vector<double> v, w;
  std::vector<int> iv, iw;
  std::vector<size_t> sv, sw;
  sink(detail::get_mpi_rank(comm), detail::get_mpi_size(comm));
  sink(detail::mpi_allreduce(1., MPI_SUM, comm), detail::mpi_allreduce(1, MPI_SUM, comm), detail::mpi_allreduce(size_t(1), MPI_SUM, comm));
  detail::mpi_allgather(v.data(), 1, w.data(), comm);
  detail::mpi_allgather(iv.data(), 1, iw.data(), comm);
  sink(detail::mpi_allgather(sv, comm), detail::mpi_allgather(v, comm));
  detail::mpi_bcast(v.data(), 1, 0, comm);
  detail::mpi_bcast(iv, 0, comm);
  sink(detail::mpi_irecv(v.data(), 1, 0, 0, comm), detail::mpi_isend(v.data(), 1, 0, 0, comm));
  sink(detail::mpi_irecv(v, 0, 0, comm), detail::mpi_isend(v, 0, 0, comm));
  sink(detail::mpi_irecv(iv.data(), 1, 0, 0, comm), detail::mpi_isend(iv.data(), 1, 0, 0, comm));
  using clk = std::chrono::high_resolution_clock;
  sink(tokenize("", " "));
}
}  // namespace sparsexx
