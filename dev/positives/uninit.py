R = [
 ('un-scalar', 'C40', 'include/macis/util/diis.hpp', [('    const size_t ndiis = diis_pairs_.size();', '    size_t ndiis;\n    if(diis_pairs_.size() > 1) ndiis = diis_pairs_.size();')]),
 ('un-member', 'C40', 'src/sparsexx/include/sparsexx/matrix_types/csr_matrix.hpp', [('nnz_(nnz),', '')]),
 ('un-member2', 'C40', 'include/macis/asci/determinant_search.hpp', [('      coeff = c;\n', '')]),
 ('un-pivot', 'C40', 'include/macis/util/dist_quickselect.hpp', [('    size_t local_partition_sizes[3] = {local_L, local_E, local_G};', '    size_t local_partition_sizes[3];\n    if(local_n) { local_partition_sizes[0] = local_L; }\n const size_t zz = local_partition_sizes[0];')]),
]
