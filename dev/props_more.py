"""Cross-cutting properties and those that are not applicable."""
SX = 'src/sparsexx/include/sparsexx/'
LO = 'src/lobpcgxx/include/lobpcgxx/'
IM = 'include/macis/'
SM = 'src/macis/'


def more(prop, P, LEVEL, NA):
    from rules import TABLE

    def add(pid, statement, over, text, why, files, mech, tech, note):
        prop(pid, statement, over, text, why, files, mech, title=TABLE[pid][1])
        LEVEL[pid] = (tech, note)

    add('C31', 'Between the start of a nonblocking send or receive and the wait that completes it, a send buffer is not written and a receive '
        'buffer is neither read nor written; every request that is started is waited for before its buffers go out of scope or the exchange is reported complete; '
        'a request is not waited for twice or overwritten while it is active.',
        ['schedules', 'inputs'], 'all message timings, process counts and communication patterns',
        'With small messages between two local processes data is usually delivered before it is looked at, so a missing or late wait does not fail.',
        [SX + 'spblas/pspmbv.hpp', SX + 'util/mpi.hpp'],
        [('start and wait helpers', SX + 'util/mpi.hpp mpi_irecv, mpi_isend, mpi_waitall'), ('vector exchange', SX + 'spblas/pspmbv.hpp pgespmv'),
         ('plan construction', SX + 'spblas/pspmbv.hpp generate_spmv_comm_info')],
        'typestate analysis of requests and buffers over inlined effect traces',
        'Decides buffer and request states along the program order of every exchanging function, all callees inlined; aliasing by symbolic base, request arrays by segment.')
    add('C32', 'All processes of a communicator make the same sequence of collective calls: whether, how often and in which order a collective is reached never '
        'depends on the rank of the process or on data only one process holds.',
        ['schedules', 'configurations'], 'all process counts and all ranks, all data distributions',
        'Tests run on one or two processes with even distributions, where ranks take the same branches.',
        [IM + 'solvers/davidson.hpp', IM + 'asci/determinant_search.hpp', IM + 'asci/grow.hpp', IM + 'util/dist_quickselect.hpp', SX + 'io/write_dist_mm.hpp', SX + 'matrix_types/dist_sparse_matrix.hpp'],
        [('distributed eigensolver', IM + 'solvers/davidson.hpp p_davidson'), ('distributed selection', IM + 'util/dist_quickselect.hpp'), ('distributed search', IM + 'asci/determinant_search.hpp asci_search')],
        'taint analysis from the rank to the conditions and loop bounds that control collective calls; residual sequences compared per rank',
        'Rank taint through values, memory and conditions; ended only by collectives that deliver the same value everywhere. Data documented as global is assumed equal on all processes.')
    add('C33', 'Iterations of a loop that runs on several threads do not interfere: no shared variable is assigned without a reduction, private copy or lock, '
        'different iterations write different elements, and no iteration reads an element another one writes, so the result does not depend on the number of threads.',
        ['schedules', 'configurations'], 'all thread counts and schedules, all inputs',
        'The tests run with the default thread count once and a lost update between threads rarely shows on small matrices.',
        [SX + 'spblas/spmbv.hpp', SX + 'spblas/pspmbv.hpp', SX + 'util/submatrix.hpp', IM + 'asci/determinant_search.hpp', IM + 'asci/determinant_sort.hpp'],
        [('parallel products', SX + 'spblas/spmbv.hpp'), ('parallel searches', IM + 'asci/determinant_search.hpp')],
        'loop dependence analysis: injectivity of written offsets in the parallel index, shared-variable assignment check on the AST',
        'Every OpenMP loop of the library in every instantiation; offsets linear in the index, leading-dimension columns and pointer-array segments are decided, others reported undecided.')
    add('C34', 'A routine that takes a matrix together with its leading dimension walks the matrix with that leading dimension only, and passes the pair on together, '
        'so results are correct for sub-blocks of larger arrays and nothing outside the block is touched.',
        ['inputs', 'configurations'], 'all leading dimensions, also larger than the number of rows',
        'Tests pass leading dimensions equal to the number of rows, where every mix-up is invisible.',
        [SX + 'spblas/spmbv.hpp', LO + 'driver.hpp', IM + 'solvers/davidson.hpp', IM + 'util/transform.hpp', IM + 'util/fock_matrices.hpp', IM + 'util/orbital_gradient.hpp', SM + 'transform.cxx'],
        [('sparse product', SX + 'spblas/spmbv.hpp'), ('integral transformation', SM + 'transform.cxx'), ('Fock matrices', SM + 'fock_matrices.cxx'), ('orbital gradient', SM + 'orbital_gradient.cxx')],
        'stride analysis: polynomial offset of every access decomposed by stride and matched to the leading-dimension parameter of its array',
        'Every access and every BLAS/LAPACK or library call in functions with (array, leading dimension) parameters; parameter pairing by name and position.')
    add('C35', 'Every access to an array a routine allocates itself lies inside the allocated size, for all values of the dimensions, so no routine reads or writes past its work space.',
        ['inputs', 'configurations'], 'all dimensions, counts and leading dimensions',
        'Overruns of a few elements of a heap block usually go unnoticed, and the tests use a few fixed dimensions.',
        [IM + 'solvers/davidson.hpp', LO + 'driver.hpp', SM + 'transform.cxx', IM + 'util/mcscf_impl.hpp', SX + 'util/submatrix.hpp', SX + 'matrix_types/conversions.hpp', SX + 'matrix_types/dist_sparse_matrix.hpp'],
        [('work space of the eigensolvers', IM + 'solvers/davidson.hpp'), ('transformation buffers', SM + 'transform.cxx'), ('pointer arrays', SX + 'matrix_types/conversions.hpp')],
        'symbolic range analysis: largest offset over the enclosing index ranges compared with the allocated size as polynomials',
        'Proves upper and lower bound per access, or reports it undecided; a violation needs an offset that exceeds the size for admissible dimensions by a definite amount.')
    add('C36', 'Every message names the element type its buffer really holds: the transport type passed with a buffer describes the C++ element type of that buffer, on both sides of '
        'a collective, and derived types are committed before use and cover exactly the bytes of one element.',
        ['inputs', 'configurations'], 'all element types the wrappers are instantiated with, all process counts',
        'The stable tests exchange only doubles and integers between local processes.',
        [IM + 'util/mpi.hpp', SX + 'util/mpi.hpp', IM + 'util/dist_quickselect.hpp', SX + 'io/write_dist_mm.hpp'],
        [('type mapping', IM + 'util/mpi.hpp mpi_traits; ' + SX + 'util/mpi.hpp mpi_data'), ('derived types', IM + 'util/mpi.hpp make_contiguous_mpi_datatype')],
        'type-state and type-consistency analysis of datatype values against the types of buffer arguments, in every instantiation',
        'All direct communication calls of the library; the datatype value is followed through traits and wrapper objects.')
    add('C37', 'Floating-point data is never stored, passed, summed or compared at a lower precision than it was given in, nor as an integer; sums over a range are accumulated in a type that '
        'holds the elements, and counts and masks are not computed in a type too narrow for their bit positions.',
        ['inputs'], 'all values, sizes and bit positions',
        'Test tolerances are loose and test sizes small, so lost digits and truncated counts do not fail.',
        [SM + 'fock_matrices.cxx', IM + 'asci/grow.hpp', IM + 'util/dist_quickselect.hpp', SX + 'util/submatrix.hpp', SX + 'spblas/pspmbv.hpp', IM + 'bitset_operations.hpp'],
        [('reductions', SX + 'util/submatrix.hpp; ' + IM + 'util/dist_quickselect.hpp'), ('energies and integrals', SM + 'fock_matrices.cxx')],
        'type-conversion lint over the type-checked tree with a use-flow exemption for log messages',
        'Every conversion, compound assignment and standard reduction in every instantiation.')
    add('C38', 'Every comparison used to sort, select or search orders its elements consistently (never before itself or before an equal element, never in a cycle), and every equality used to '
        'remove duplicates is reflexive, symmetric and transitive, whatever values and ties occur.',
        ['inputs'], 'all elements and ties',
        'Inconsistent comparisons only misbehave on ties and particular orders that fixed test data lacks.',
        [IM + 'bitset_operations.hpp', IM + 'asci/determinant_sort.hpp', IM + 'asci/determinant_search.hpp', IM + 'asci/mask_constraints.hpp', IM + 'sd_operations.hpp',
         SX + 'matrix_types/coo_matrix_ops.hpp', SX + 'util/permute.hpp'],
        [('triplet orders', SX + 'matrix_types/coo_matrix_ops.hpp'), ('determinant orders', IM + 'bitset_operations.hpp bitset_less_comparator'), ('score order', IM + 'asci/determinant_search.hpp asci_contrib_topk_comparator')],
        'symbolic summary of each comparator as a condition over keys; ordering laws decided over all key patterns of three elements',
        'All comparator lambdas and function objects; comparators that are not functions of per-element keys are undecided.')
    add('C39', 'An iterator, pointer, reference or view is only used while the object it looks into exists and has not been resized, grown, emptied or replaced since; '
        'nothing returned to a caller refers to an object that ended with the call; an object that was moved from is not read before it is given a new value.',
        ['inputs', 'histories'], 'all inputs, container sizes and orders of operations',
        'Stale memory usually still holds the old contents for small containers, so a use after a reallocation passes the tests.',
        [IM + 'asci/determinant_search.hpp', IM + 'asci/determinant_sort.hpp', IM + 'asci/mask_constraints.hpp', IM + 'hamiltonian_generator/impl.hpp', IM + 'util/diis.hpp', SX + 'util/permute.hpp'],
        [('compaction of candidate lists', IM + 'asci/determinant_sort.hpp'), ('views of stored integrals', IM + 'hamiltonian_generator/impl.hpp generate_integral_intermediates'),
         ('hand-over of wavefunctions', IM + 'asci/grow.hpp; ' + IM + 'asci/iteration.hpp')],
        'ownership and typestate dataflow over the resolved syntax tree: origins of views, container changes, moves; must-join at branches',
        'Tracks local, parameter and member views of vectors and strings through assignments, algorithms, accessors and callees that reallocate their reference parameters; containers with reserved room and '
        'views before an erased position are left out.')
    add('C40', 'Every variable, array and object member has been given a value before it is read, on every way through the code, and every constructor leaves all scalar members of '
        'the object with a value.',
        ['inputs', 'configurations'], 'all inputs and all ways through each function',
        'An unset variable often happens to be zero in a test run.',
        [IM + 'asci/determinant_search.hpp', IM + 'util/dist_quickselect.hpp', SX + 'matrix_types/csr_matrix.hpp', SX + 'matrix_types/dist_sparse_matrix.hpp', IM + 'types.hpp'],
        [('constructors', SX + 'matrix_types/csr_matrix.hpp; ' + IM + 'asci/determinant_search.hpp beta_coeff_data'), ('out-parameters', IM + 'util/dist_quickselect.hpp')],
        'definite-assignment dataflow over the resolved syntax tree, per variable and per scalar member of constructors',
        'Scalars, pointers, enumerations and built-in arrays; a variable whose address or reference is handed out counts as set; heap buffers are covered by the summaries of C01-C30 instead.')
    add('C41', 'Every loop ends: whatever the input, each iteration moves the loop towards its end condition or leaves it, counters run towards their bound in a type that can reach it, '
        'and no iteration can repeat unchanged.',
        ['inputs'], 'all inputs, including empty strings, empty ranges and the widest supported determinants',
        'Tests run the common widths and non-empty inputs; a loop that does not end on a rare input is never entered with it.',
        [IM + 'bitset_operations.hpp', IM + 'util/dist_quickselect.hpp', IM + 'asci/grow.hpp', SX + 'io/read_mm.hpp', SX + 'util/string.hpp', IM + 'sd_operations.hpp'],
        [('bit scans', IM + 'bitset_operations.hpp fls'), ('selection loop', IM + 'util/dist_quickselect.hpp'), ('file readers', SX + 'io/read_mm.hpp; ' + SM + 'fcidump.cxx')],
        'loop lint on the resolved syntax tree: change of condition variables, direction and width of counters, dataflow for iterations that change nothing',
        'Every for, while and do loop in every instantiation. Does not prove that converging numerical iterations or data-dependent selections end; those have iteration limits or are compared in C12, C13, C25.')
    add('C42', 'Every result is a function of the arguments and the object alone: no call leaves anything behind that a later call picks up, and nothing depends on unseeded randomness, the '
        'clock, the environment or addresses; repeating a calculation in one process or on another repeats its result.',
        ['histories', 'configurations'], 'all sequences of calls in one process, all processes',
        'Each test calls a function once or with one size, so a value kept from the first call is never seen by a second.',
        [IM + 'util/dist_quickselect.hpp', IM + 'util/diis.hpp', SM + 'transform.cxx', SX + 'spblas/pspmbv.hpp', IM + 'util/mpi.hpp', LO + 'driver.hpp'],
        [('seeded pivot selection', IM + 'util/dist_quickselect.hpp'), ('work space', SM + 'transform.cxx; ' + SX + 'spblas/pspmbv.hpp'), ('type mapping', IM + 'util/mpi.hpp')],
        'effect analysis: writes to static storage and mutable members, dependence of static initialisers, calls to non-deterministic sources',
        'Every function, record and namespace-scope variable in every instantiation; loggers are left out. State of external libraries is not looked into.')

    def none(pid, title, statement, reason, files):
        prop(pid, statement, ['inputs'], 'all inputs', 'depends on floating-point behaviour over all inputs', files, [(title, files[0])], title=title)
        NA.append({'property': pid, 'reason': reason})

    none('C90', 'Eigensolvers converge to the lowest eigenpairs', 'For every symmetric matrix and reasonable guess the iterative eigensolvers converge to the lowest eigenpairs within their iteration limit.',
         'Convergence depends on the spectrum and on rounding at run time; no static argument in reach bounds it. The contract around it (tests, limits, reported failure) is C11 and C12.',
         [IM + 'solvers/davidson.hpp', LO + 'driver.hpp'])
    none('C91', 'Computed energies are accurate to the requested tolerance', 'Energies and densities differ from the exact values of the given integrals by no more than the requested tolerance.',
         'Error bounds of long floating-point reductions and of rediagonalisation depend on runtime data; only the precision of the types is decided (C37).',
         [IM + 'util/mcscf_impl.hpp', SM + 'fock_matrices.cxx'])
    none('C92', 'The selected determinants are the most important ones', 'For a given size the selected determinant space captures the largest possible weight of the wavefunction.',
         'A statement about the quality of a heuristic on data; only the ranking rule itself is decided (C23).', [IM + 'asci/determinant_search.hpp'])
