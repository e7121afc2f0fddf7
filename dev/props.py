#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 dev/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/lib']
from rules.table import ROOTS
SX = 'src/sparsexx/include/sparsexx/'
LO = 'src/lobpcgxx/include/lobpcgxx/'
IM = 'include/macis/'
SM = 'src/macis/'
P = []
SAMPLES = 'The tests sample a handful of inputs of this kind'


def prop(pid, statement, over, text, why, files, mech, title=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': pid, 'title': title or ROOTS[pid][0], 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'For every sparse matrix in compressed-row or coordinate form, with either index base, any number of vectors and any '
     'leading dimensions at least as large as the row counts, the local block product leaves alpha*A*V + beta*AV in the output block. '
     'Every stored entry contributes exactly once to its own row, and nothing outside the output block is written.',
     ['inputs', 'configurations'], 'all matrices, index bases, numbers of vectors, leading dimensions, scalars and thread counts',
     'The tests multiply a few fixed matrices with leading dimension equal to the row count and alpha=1, beta=0; offsets, strides and scalars are not varied.',
     [SX + 'spblas/spmbv.hpp'], [('local sparse block product', SX + 'spblas/spmbv.hpp gespmbv')])
prop('C02', 'Converting a sparse matrix between coordinate, compressed-row, compressed-column and dense form gives a matrix with the same '
     'dimensions and exactly the same set of (row, column, value) entries, in the index base of the source. '
     'Pointer arrays are monotone, start at the index base and end at base plus number of entries, also when rows or columns are empty.',
     ['inputs'], 'all matrices, including empty rows and columns, rectangular shapes and both index bases',
     'The tests convert a few fixed matrices that have entries in every row and column and are square.',
     [SX + 'matrix_types/conversions.hpp', SX + 'matrix_types/coo_conversions.hpp', SX + 'matrix_types/dense_conversions.hpp'],
     [('coordinate to compressed constructors', SX + 'matrix_types/conversions.hpp'), ('transposition kernel', SX + 'matrix_types/conversions.hpp csr_to_csc'),
      ('dense expansion', SX + 'matrix_types/dense_conversions.hpp convert_to_dense')])
prop('C03', 'The index base of a sparse matrix is a pure representation choice: switching it shifts every stored index and pointer by the '
     'difference and leaves dimensions, number of entries and values unchanged, and switching to the current base changes nothing. '
     'Dimensions, counts, equality and footprint reported by a matrix always describe its current contents.',
     ['inputs', 'histories'], 'all matrices and all sequences of base switches, including no-op switches',
     'The tests construct matrices in one base and never switch back and forth.',
     [SX + 'matrix_types/csr_matrix.hpp', SX + 'matrix_types/csc_matrix.hpp', SX + 'matrix_types/coo_matrix.hpp'],
     [('index base switch', SX + 'matrix_types/csr_matrix.hpp set_indexing'), ('index base detection', SX + 'matrix_types/coo_matrix.hpp determine_indexing_from_adj')])
prop('C04', 'Extracting a row/column window, the window complement, a triangle or the diagonal of a sparse matrix returns exactly the stored '
     'entries that lie in the requested region, with their values and relative positions, and sizes its storage to exactly that many entries. '
     'The trace is the sum of the stored diagonal entries.',
     ['inputs'], 'all matrices, index bases and windows, including empty windows and the boundary rows and columns',
     'The tests take a few windows of a few fixed matrices.',
     [SX + 'util/submatrix.hpp'], [('window extraction', SX + 'util/submatrix.hpp extract_submatrix'), ('triangle extraction', SX + 'util/submatrix.hpp extract_upper_triangle, extract_lower_triangle'),
                                   ('diagonal and trace', SX + 'util/submatrix.hpp extract_diagonal_elements, trace')])
prop('C05', 'Permuting the rows, the columns, or both of a sparse matrix moves every stored entry to the position given by the permutation and changes '
     'no value; applying a permutation and its inverse restores the original. Permutations built from a partition list every index of part 0, then part 1, and so on. '
     'The adjacency graph lists, for every row, exactly its off-diagonal neighbours in the requested index base.',
     ['inputs'], 'all matrices, permutations, partitions and index bases',
     'The tests use a few fixed permutations and two graphs.',
     [SX + 'util/permute.hpp', SX + 'util/graph.hpp'], [('row and column permutation', SX + 'util/permute.hpp'), ('adjacency extraction', SX + 'util/graph.hpp extract_adjacency')])
prop('C06', 'Sorting a coordinate matrix by row or by column reorders whole (row, column, value) triplets, ordering ties by the other index, and never loses or '
     'duplicates one. Expanding a stored triangle adds the mirror image of every off-diagonal entry once, keeps diagonal entries single, and updates the entry count.',
     ['inputs'], 'all coordinate matrices in any entry order, both index bases',
     'Tests only expand symmetric files with full diagonals and pre-sorted order.',
     [SX + 'matrix_types/coo_matrix.hpp', SX + 'matrix_types/coo_matrix_ops.hpp'], [('triplet sorts', SX + 'matrix_types/coo_matrix_ops.hpp'), ('triangle expansion', SX + 'matrix_types/coo_matrix_ops.hpp expand_from_triangle')])
prop('C07', 'A sparse matrix written to a text or binary file and read back has the same dimensions, entries and values, with symmetric files expanded to both '
     'triangles and indices in the requested base. Parsing handles comment lines, blanks and separators without dropping or shifting entries. '
     'Distributed writing produces the file the serial writer would produce, each process writing only its rows.',
     ['inputs', 'configurations'], 'all matrices, formats, index bases and process counts',
     'The tests read two or three reference files; writers and index-base options are hardly exercised.',
     [SX + 'io/read_mm.hpp', SX + 'io/write_mm.hpp', SX + 'io/write_dist_mm.hpp', SX + 'io/read_binary_triplets.hpp', SX + 'io/write_binary_triplets.hpp', SX + 'io/read_rb.hpp', SX + 'util/string.hpp'],
     [('text reader', SX + 'io/read_mm.hpp'), ('text writer', SX + 'io/write_mm.hpp'), ('binary triplets', SX + 'io/read_binary_triplets.hpp'), ('tokenizer', SX + 'util/string.hpp')])
prop('C08', 'In a distributed sparse matrix every global row belongs to exactly one process, row extents are contiguous, ordered and end at the number of rows, for any process '
     'count including more processes than rows. Each process splits its rows into a diagonal tile (columns in its own row range) and an off-diagonal tile (all other columns) '
     'that together hold every stored entry of those rows exactly once.',
     ['inputs', 'configurations'], 'all matrices, row partitions and process counts',
     'Distributed tests run with at most a couple of processes and even partitions.',
     [SX + 'matrix_types/dist_sparse_matrix.hpp', SX + 'util/submatrix.hpp'], [('row partition and tile split', SX + 'matrix_types/dist_sparse_matrix.hpp')],
     state=[('row extents', 'per-process [first, last) row ranges')])
prop('C09', 'The distributed block product gives each process exactly its rows of alpha*A*V + beta*AV for every row partition, process count and sparsity pattern. '
     'The communication plan sends each process precisely the remote vector elements its off-diagonal tile references, at matching positions, counts and displacements on both sides, '
     'and every exchanged buffer is complete before it is used.',
     ['inputs', 'configurations', 'schedules'], 'all matrices, partitions, process counts and message arrival orders',
     'No stable test runs the distributed product; message timing is not controlled by tests.',
     [SX + 'spblas/pspmbv.hpp'], [('communication plan', SX + 'spblas/pspmbv.hpp generate_spmv_comm_info'), ('distributed product', SX + 'spblas/pspmbv.hpp pgespmv')],
     state=[('exchange plan', 'counts, displacements and index lists per peer')])
prop('C10', 'The block eigensolver building blocks follow their definitions for every size and leading dimension: Cholesky orthonormalisation makes a basis orthonormal in its own overlap, '
     'the projected eigenproblem uses the basis, its operator image and metric consistently, the residual is operator image minus basis times eigenvalues, and basis rotation combines '
     'current block, residual block and search directions with matching coefficient rows.',
     ['inputs'], 'all block sizes, problem sizes and leading dimensions',
     'A single tester program runs one problem size and its result is not part of the reliable tests.',
     [LO + 'cholqr.hpp', LO + 'rayleigh_ritz.hpp', LO + 'residuals.hpp', LO + 'rotate_basis.hpp', LO + 'operator.hpp', LO + 'convergence.hpp'],
     [('orthonormalisation', LO + 'cholqr.hpp'), ('projection', LO + 'rayleigh_ritz.hpp'), ('residual', LO + 'residuals.hpp'), ('rotation', LO + 'rotate_basis.hpp')])
prop('C11', 'The block eigensolver driver stays within the workspace size it reports, runs at most the configured number of iterations, restarts or drops search directions only as configured, declares convergence only '
     'when the user-selected criterion holds for the requested number of roots, and returns the eigenpairs, residual norms and iteration history of the final iteration.',
     ['inputs', 'configurations', 'histories'], 'all settings, block sizes, problem sizes and iteration histories',
     'One run on one matrix visits a single history of the state machine.',
     [LO + 'driver.hpp', LO + 'simplified_interface.hpp', LO + 'convergence.hpp', LO + 'operator.hpp'],
     [('driver loop', LO + 'driver.hpp lobpcg'), ('workspace query', LO + 'driver.hpp lobpcg_lwork'), ('convergence tests', LO + 'convergence.hpp')])
prop('C12', 'The serial and distributed Davidson solvers keep a subspace whose new directions are the preconditioned residual orthogonalised against all earlier directions, project the matrix on exactly that subspace, '
     'stop when the residual norm is at or below the tolerance or when the subspace limit is reached, and signal failure otherwise. '
     'All processes take the same decisions and the distributed initial guess is the unit vector at the globally smallest diagonal element.',
     ['inputs', 'configurations'], 'all matrices, diagonals, tolerances, subspace limits, row distributions and process counts',
     'No stable test runs the Davidson solver; header compilation only.',
     [IM + 'solvers/davidson.hpp'], [('serial solver', IM + 'solvers/davidson.hpp davidson'), ('distributed solver', IM + 'solvers/davidson.hpp p_davidson'), ('orthogonalisation', IM + 'solvers/davidson.hpp gram_schmidt, p_gram_schmidt'),
                                     ('initial guess', IM + 'solvers/davidson.hpp diagonal_guess, p_diagonal_guess')])
prop('C13', 'For any distribution of values over processes, including empty processes, duplicates and any valid rank k, distributed selection returns on every process the same value: the k-th element of the globally ordered sequence under the given comparator. '
     'All processes execute the same sequence of collective operations and the search interval shrinks until the answer is found.',
     ['inputs', 'configurations', 'schedules'], 'all value distributions, comparators, ranks and process counts',
     'The tests draw a few random vectors of one size.',
     [IM + 'util/dist_quickselect.hpp'], [('three-way partition', IM + 'util/dist_quickselect.hpp leg_partition'), ('global offsets', IM + 'util/dist_quickselect.hpp total_gather_and_exclusive_scan'), ('selection loop', IM + 'util/dist_quickselect.hpp dist_quickselect')])
prop('C14', 'Two- and four-index transformation replace every index of the tensor by its transformed counterpart exactly once, with each input and output addressed through its own leading dimensions, and accumulate into or overwrite the output as the beta argument says.',
     ['inputs'], 'all numbers of orbitals, leading dimensions and both accumulate modes',
     'The tests transform a few square cases with tight leading dimensions.',
     [SM + 'transform.cxx', IM + 'util/transform.hpp'], [('index transformations', SM + 'transform.cxx')])
prop('C15', 'Inactive, active and generalized Fock matrices, the core and active energies, the active-space Hamiltonian and canonical orbital energies are the defining contractions of the one- and two-electron integrals with the densities, with each integral read in its own index order and leading dimension '
     'and each orbital class limited to its own range.',
     ['inputs'], 'all integrals, densities, orbital-space sizes (including empty spaces) and leading dimensions',
     'The tests that touch these need reference data and libraries that are absent here, and cover one molecule.',
     [SM + 'fock_matrices.cxx', SM + 'orbital_energies.cxx'], [('Fock builders', SM + 'fock_matrices.cxx'), ('orbital energies', SM + 'orbital_energies.cxx')])
prop('C16', 'Rotation parameters, gradient and Hessian use one ordering: packing a gradient from a generalized Fock matrix, packing a matrix, unpacking to an antisymmetric matrix and splitting into blocks all agree on which element belongs to which orbital pair. '
     'The gradient is twice the antisymmetric part of the generalized Fock matrix, Hessian diagonals and products follow their defining formulas, and rotations are the exponential of the antisymmetric generator.',
     ['inputs'], 'all orbital-space sizes including empty classes, all matrices and leading dimensions',
     'Existing tests compare one molecule and need absent dependencies.',
     [SM + 'orbital_gradient.cxx', SM + 'orbital_hessian.cxx', SM + 'orbital_rotation_utilities.cxx', SM + 'orbital_steps.cxx', IM + 'util/orbital_hessian.hpp', IM + 'util/orbital_rotation_utilities.hpp'],
     [('packing', SM + 'orbital_rotation_utilities.cxx'), ('gradient', SM + 'orbital_gradient.cxx'), ('Hessian', SM + 'orbital_hessian.cxx'), ('step', SM + 'orbital_steps.cxx')])
prop('C17', 'Second-order perturbation amplitudes are the antisymmetrised or spin-adapted integral over the orbital-energy denominator for every occupied and virtual quadruple, the relaxed-free density is their defining contraction, and natural orbitals diagonalise that density and are returned in order of decreasing occupation.',
     ['inputs'], 'all orbital energies, integrals, space sizes and leading dimensions',
     'Existing tests cover one molecule and need absent dependencies.',
     [SM + 'moller_plesset.cxx'], [('amplitudes, density, natural orbitals', SM + 'moller_plesset.cxx')])
prop('C18', 'The extrapolation accelerator keeps at most its configured number of vector/error pairs, always dropping the oldest, builds the constrained least-squares system from exactly the stored errors, and returns the combination of exactly the stored vectors with weights that sum to one.',
     ['inputs', 'histories'], 'all histories of additions and extrapolations, all history limits',
     'No test exercises it beyond compilation.',
     [IM + 'util/diis.hpp'], [('history and extrapolation', IM + 'util/diis.hpp')], state=[('history', 'stored vectors and errors in insertion order')])
prop('C19', 'One- and two-body densities are the sums over all ordered determinant pairs that differ by at most a double excitation, each contribution placed at the orbital indices and with the permutation sign given by second quantisation, so that their traces are the electron and pair counts. '
     'Rotating the Hamiltonian by natural orbitals uses the same basis for one- and two-body parts.',
     ['inputs'], 'all determinant lists, coefficient vectors and spaces',
     'Existing tests compare a single active space.',
     [IM + 'util/rdms.hpp', IM + 'hamiltonian_generator/double_loop.hpp', IM + 'hamiltonian_generator/rdms.hpp'], [('contributions', IM + 'util/rdms.hpp'), ('pair loop', IM + 'hamiltonian_generator/double_loop.hpp form_rdms')])
prop('C20', 'The matrix element of the Hamiltonian between any two determinants is the Slater-Condon value: the diagonal energy, the mean-field coupling for single excitations, the antisymmetrised or plain integral for same-spin or opposite-spin doubles, with the fermionic sign, and zero otherwise. '
     'The incremental diagonal formulas give the same energies as the full diagonal, and the reduced integral arrays are consistent with the full integrals.',
     ['inputs'], 'all determinant pairs, integrals, orbital counts and word widths',
     'Existing tests cover a single Hamiltonian and need absent dependencies.',
     [IM + 'hamiltonian_generator.hpp', IM + 'hamiltonian_generator/impl.hpp', IM + 'hamiltonian_generator/matrix_elements.hpp', IM + 'hamiltonian_generator/fast_diagonals.hpp'],
     [('element formulas', IM + 'hamiltonian_generator/matrix_elements.hpp'), ('incremental diagonals', IM + 'hamiltonian_generator/fast_diagonals.hpp'), ('reduced integrals', IM + 'hamiltonian_generator/impl.hpp')])
prop('C21', 'Bit-string primitives give the exact mathematical result for every supported width and every bit position, including the word boundaries, the full string: lowest and highest set bit of a non-empty string, index lists in ascending order, masks of k low bits, halves, widening and narrowing, and integer conversion. '
     'Comparison orders strings as the unsigned integers they represent.',
     ['inputs'], 'all bit strings of all supported widths',
     'No stable test covers these; exhaustive testing at 128 or 256 bits is impossible.',
     [IM + 'bitset_operations.hpp'], [('primitives', IM + 'bitset_operations.hpp')])
prop('C22', 'Excitation generators return each determinant of the requested excitation ranks, spin and active range exactly once, with electron counts preserved; Hilbert-space enumeration is complete and duplicate free. '
     'Excitation signs and first-flipped-orbital queries equal the parity of occupied orbitals between the affected positions, and occupation strings convert to text and back without change.',
     ['inputs'], 'all determinants, orbital counts, electron counts and spin sectors',
     'Existing tests check a few fixed strings and need absent dependencies.',
     [IM + 'sd_operations.hpp', IM + 'types.hpp'], [('generators and signs', IM + 'sd_operations.hpp')])
prop('C23', 'The selected-CI search accumulates, for every candidate determinant, the contributions of all parent determinants above the thresholds, discards members of the current wavefunction, and returns the requested number of candidates with the largest accumulated scores, the same set on every process. '
     'Sorting and merging of candidates keeps each determinant once with the sum of its scores, and reordering a wavefunction moves coefficients with their determinants.',
     ['inputs', 'configurations', 'schedules'], 'all wavefunctions, thresholds, list sizes, process and thread counts',
     'Existing tests need absent dependencies and a single molecule.',
     [IM + 'asci/determinant_search.hpp', IM + 'asci/determinant_contributions.hpp', IM + 'asci/determinant_sort.hpp'], [('search', IM + 'asci/determinant_search.hpp asci_search'), ('contributions', IM + 'asci/determinant_contributions.hpp'), ('sort and merge', IM + 'asci/determinant_sort.hpp')])
prop('C24', 'The search constraints cover all candidate determinants: each candidate with enough high-lying occupied orbitals satisfies exactly one constraint, counting and generation agree on how many excitations of a determinant satisfy a constraint, and distributing constraints assigns each to exactly one process.',
     ['inputs', 'configurations'], 'all determinants, orbital counts, constraint depths and process counts',
     'Existing tests check a few constraints and need absent dependencies.',
     [IM + 'asci/mask_constraints.hpp'], [('constraint membership, counting, generation, distribution', IM + 'asci/mask_constraints.hpp')])
prop('C25', 'Growing the selected-CI space multiplies the list size by the configured factor up to the configured maximum, and refinement iterates until the energy change is at or below the tolerance or reports failure; both return determinants, coefficients and energy that belong together. '
     'The selected diagonalisation solves for the determinant list it was given, with the configured tolerances and subspace limits.',
     ['inputs', 'configurations', 'histories'], 'all settings and wavefunction histories, serial and distributed',
     'Existing tests need absent dependencies and cover one path.',
     [IM + 'asci/grow.hpp', IM + 'asci/refine.hpp', IM + 'asci/iteration.hpp', IM + 'solvers/selected_ci_diag.hpp'], [('growth loop', IM + 'asci/grow.hpp'), ('refinement loop', IM + 'asci/refine.hpp'), ('selected diagonalisation', IM + 'solvers/selected_ci_diag.hpp')])
prop('C26', 'Message-passing helpers transmit exactly the elements they are given: the element type sent matches the element type stored, counts larger than the message limit are split into pieces that cover every element exactly once, reductions and broadcasts act on all elements, and derived types are committed before use and released once.',
     ['inputs', 'configurations'], 'all element types, counts (also above the 32-bit limit), process counts and roots',
     'Tests use a few elements; chunked transfers need gigabyte messages.',
     [IM + 'util/mpi.hpp', SX + 'util/mpi.hpp'], [('typed collectives', IM + 'util/mpi.hpp'), ('datatype mapping', SX + 'util/mpi.hpp')])
prop('C27', 'The quasi-Newton optimiser updates its inverse-Hessian history with the difference of accepted points and gradients, applies it by the two-loop recursion in the right order, only accepts steps its line search has validated, and stops when the convergence test holds or the iteration limit is reached.',
     ['inputs', 'histories'], 'all objective functions, starting points and iteration histories',
     'No stable test covers it.',
     [SM + 'bfgs/bfgs.hpp', SM + 'bfgs/bfgs_hessian.hpp', SM + 'bfgs/line_search.hpp'], [('iteration', SM + 'bfgs/bfgs.hpp'), ('inverse Hessian', SM + 'bfgs/bfgs_hessian.hpp'), ('line searches', SM + 'bfgs/line_search.hpp')])
prop('C28', 'Orbital optimisation iterates until the gradient norm meets the configured tolerance or the configured number of iterations is used, applies every rotation to the accumulated transformation and to the integrals alike, and returns an energy that belongs to the returned integrals and densities.',
     ['inputs', 'configurations', 'histories'], 'all integrals, orbital-space sizes, settings and iteration histories',
     'Existing tests need absent dependencies and cover one molecule.',
     [IM + 'util/mcscf_impl.hpp', IM + 'util/mcscf.hpp', IM + 'util/cas.hpp', SM + 'casscf.cxx'], [('optimisation loop', IM + 'util/mcscf_impl.hpp'), ('active-space solver', IM + 'util/cas.hpp')])
prop('C29', 'Integral, density and wavefunction files written by the suite are read back with the same sizes, indices and values: every line of an integral file is classified by its indices, one-based file indices map to zero-based orbitals, permutational symmetry fills all equivalent elements, and binary records are read in the order and widths in which they are written.',
     ['inputs'], 'all integrals, densities, wavefunctions and orbital counts',
     'Existing tests read one file and need absent dependencies.',
     [SM + 'fcidump.cxx', IM + 'wavefunction_io.hpp', IM + 'util/detail/rdm_files.hpp', IM + 'util/binary_rdms.hpp'], [('integral files', SM + 'fcidump.cxx'), ('density files', IM + 'util/detail/rdm_files.hpp'), ('wavefunction files', IM + 'wavefunction_io.hpp')])
prop('C30', 'The assembled sparse Hamiltonian of two determinant lists stores, for every pair whose matrix element magnitude exceeds the threshold, exactly that element at the position of the pair, with sorted complete rows, and the distributed assembly gives each process exactly its rows of the same matrix.',
     ['inputs', 'configurations'], 'all determinant lists, thresholds, process and thread counts',
     'Existing tests need absent dependencies and cover one list.',
     [IM + 'csr_hamiltonian.hpp', IM + 'hamiltonian_generator/double_loop.hpp'], [('block assembly', IM + 'hamiltonian_generator/double_loop.hpp'), ('distributed assembly', IM + 'csr_hamiltonian.hpp')])

CONF_TECH = 'abstract interpretation to symbolic effect summaries; summary equality by algebraic normal form and polynomial identity testing'
CONF_NOTE = ('Decides, for every function in the call closure of the anchors, that its stores, calls, throws and results (element, value, guard, index range, order) are the ones '
             'confirmed on the reviewed tree; independent of how the code is written. Assumes the reviewed summaries are right, external libraries behave as documented; '
             'components the interpreter cannot resolve are reported as undecided, never as violations.')
LEVEL = {}
NA = []
try:
    from props_more import more
    more(prop, P, LEVEL, NA)
except ImportError:
    pass


def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    import rules
    na = {x['property'] for x in NA}
    assert set(ids) == set(rules.TABLE) | na, (set(ids) ^ (set(rules.TABLE) | na))
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        if p['id'] in na:
            continue
        tech, note = LEVEL.get(p['id'], (CONF_TECH, CONF_NOTE))
        checks.append({'property': p['id'], 'quick_cmd': f'python3 run.py {p["id"]}', 'thorough_cmd': f'python3 run.py {p["id"]}',
                       'technique': tech, 'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': NA,
         'notes': 'All checks are static: they parse /repo with a libTooling extractor built from tool/astdump.cpp and never run repository code.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, ps)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(P), 'properties', len(checks), 'checks', len(NA), 'not applicable')


if __name__ == '__main__':
    main()
