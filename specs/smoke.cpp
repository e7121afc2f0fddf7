#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <cstdint>
namespace spec {
template <class M> void csr_spmbv(int64_t K, double al, const M& A, const double* V, int64_t LDV, double be, double* AV, int64_t LDAV) {
  for (int64_t k = 0; k < K; ++k)
    for (int64_t i = 0; i < A.m(); ++i) {
      AV[i + k * LDAV] = be * AV[i + k * LDAV];
      for (int64_t j = A.rowptr()[i] - A.indexing(); j < A.rowptr()[i + 1] - A.indexing(); ++j)
        AV[i + k * LDAV] += al * A.nzval()[j] * V[A.colind()[j] - A.indexing() + k * LDV];
    }
}
template void csr_spmbv(int64_t, double, const sparsexx::csr_matrix<double,int>&, const double*, int64_t, double, double*, int64_t);
}
