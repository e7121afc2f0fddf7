"""Anchors of every property: pid -> (title, [(file pattern, function pattern), ...])."""
SX = r'src/sparsexx/include/sparsexx/'
LO = r'src/lobpcgxx/include/lobpcgxx/'
IM = r'^include/macis/'
SM = r'^src/macis/'
ANY = r'.'

ROOTS = {
 'C01': ('Local sparse product is exactly alpha*A*V + beta*AV', [
     (SX + r'spblas/spmbv', ANY)]),
 'C02': ('Sparse format and dense conversions preserve the matrix', [
     (SX + r'matrix_types/(conversions|coo_conversions|dense_conversions)', ANY)]),
 'C03': ('Index base is a representation choice only', [
     (SX + r'matrix_types/(csr|csc|coo)_matrix\.hpp', r'(set_indexing|determine_indexing|operator[=!]=|is_sorted|::indexing|::m$|::n$|::nnz|rowptr|colind|rowind|colptr|nzval|mem_footprint|csr_matrix$|coo_matrix$|csc_matrix$)')]),
 'C04': ('Submatrix, triangle and diagonal extraction select exactly the asked entries', [
     (SX + r'util/submatrix', ANY)]),
 'C05': ('Permutations and adjacency graphs are exact relabelings', [
     (SX + r'util/(permute|graph|reorder)', ANY)]),
 'C06': ('Coordinate sort and triangle expansion keep every entry', [
     (SX + r'matrix_types/coo_matrix(_ops)?\.hpp', r'(sort_by|expand_from|is_sorted|determine)')]),
 'C07': ('Matrix files read back as the matrix that was written', [
     (SX + r'io/', ANY), (SX + r'util/string', ANY)]),
 'C08': ('Distributed matrix rows are partitioned without gap or overlap', [
     (SX + r'matrix_types/dist_sparse', ANY), (SX + r'util/submatrix', r'extract_(dia|off|sub)')]),
 'C09': ('Distributed product equals the serial product', [
     (SX + r'spblas/pspmbv', ANY)]),
 'C10': ('Block eigensolver kernels compute their textbook definitions', [
     (LO + r'(cholqr|rayleigh_ritz|residuals|rotate_basis|operator|convergence)', ANY)]),
 'C11': ('Block eigensolver honours settings, workspace and convergence contract', [
     (LO + r'(driver|simplified_interface|convergence|operator)', ANY)]),
 'C12': ('Davidson solver invariants hold for every matrix and process count', [
     (IM + r'solvers/davidson', ANY)]),
 'C13': ('Distributed selection returns the global k-th order statistic', [
     (IM + r'util/dist_quickselect', ANY)]),
 'C14': ('Integral transforms contract every index exactly once', [
     (SM + r'transform', ANY)]),
 'C15': ('Fock matrices and energies follow their defining contractions', [
     (SM + r'(fock_matrices|orbital_energies)', ANY), (IM + r'util/(fock_matrices|orbital_energies)', ANY)]),
 'C16': ('Orbital gradient, Hessian and rotation parameters use one convention', [
     (SM + r'(orbital_gradient|orbital_hessian|orbital_rotation_utilities|orbital_steps)', ANY),
     (IM + r'util/(orbital_hessian|orbital_rotation_utilities|orbital_gradient|orbital_steps)', ANY)]),
 'C17': ('MP2 amplitudes, densities and natural orbitals follow their definitions', [
     (SM + r'moller_plesset', ANY), (IM + r'util/moller_plesset', ANY)]),
 'C18': ('DIIS extrapolation uses exactly its stored history', [
     (IM + r'util/diis', ANY)]),
 'C19': ('Density matrices accumulate every determinant pair once with its sign', [
     (IM + r'util/rdms', ANY), (IM + r'hamiltonian_generator/(double_loop|rdms)', r'(form_rdms|rotate_hamiltonian)')]),
 'C20': ('Hamiltonian matrix elements obey the Slater-Condon rules', [
     (IM + r'hamiltonian_generator(\.hpp|/impl|/matrix_elements|/fast_diagonals)', ANY)]),
 'C21': ('Determinant bit operations are exact at every width and position', [
     (IM + r'bitset_operations', ANY)]),
 'C22': ('Excitation generation lists each allowed determinant once', [
     (IM + r'sd_operations', ANY), (IM + r'types', r'^macis::')]),
 'C23': ('Selected-CI search ranks candidates by their accumulated estimate', [
     (IM + r'asci/(determinant_search|determinant_contributions|determinant_sort)', ANY)]),
 'C24': ('Search constraints partition the candidate space', [
     (IM + r'asci/mask_constraints', ANY)]),
 'C25': ('Selected-CI growth and refinement honour their settings', [
     (IM + r'asci/(grow|refine|iteration)', ANY), (IM + r'solvers/selected_ci_diag', ANY)]),
 'C26': ('Message-passing wrappers move exactly the described elements', [
     (IM + r'util/mpi', ANY), (SX + r'util/mpi', ANY)]),
 'C27': ('Quasi-Newton optimiser follows its update and line-search contract', [
     (r'^src/macis/bfgs/', ANY)]),
 'C28': ('Orbital optimisation reports converged energies and consistent state', [
     (IM + r'util/(mcscf|mcscf_impl|cas)\.hpp', ANY), (SM + r'casscf', ANY)]),
 'C29': ('Integral, density and wavefunction files round-trip', [
     (SM + r'fcidump', ANY), (IM + r'(wavefunction_io|util/detail/rdm_files|util/binary_rdms|util/fcidump)', ANY)]),
 'C30': ('Assembled sparse Hamiltonian has every and only the significant elements', [
     (IM + r'csr_hamiltonian', ANY), (IM + r'hamiltonian_generator/double_loop', r'make_csr|DoubleLoop')]),
}
