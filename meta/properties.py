# Single source of /verif/properties.jsonl (written by meta/gen.py).
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

SX = "src/sparsexx/include/sparsexx/"
LX = "src/lobpcgxx/include/lobpcgxx/"
M = "include/macis/"

p("S01", "Every sparse storage format denotes the same matrix after conversion",
  """Converting a matrix between coordinate, compressed-row, compressed-column and dense storage, sorting or
  re-basing its indices, and expanding a stored triangle yields exactly the same matrix: same shape, same
  entry at every position, valid row/column offsets and sorted indices.
  This holds for every sparsity pattern, including empty rows and columns, matrices without entries,
  rectangular shapes, and both zero- and one-based indexing.""",
  ["inputs", "histories"],
  "all sparsity patterns of small shapes, both index bases, both index widths, all short chains of conversions",
  "The suite converts one 7x7 and one 23x23 sample file; empty rows, rectangles, one-based coordinate data and chains of conversions are never built.",
  [SX+"matrix_types/conversions.hpp", SX+"matrix_types/coo_matrix_ops.hpp", SX+"matrix_types/dense_conversions.hpp",
   SX+"matrix_types/coo_matrix.hpp", SX+"matrix_types/csr_matrix.hpp", SX+"matrix_types/csc_matrix.hpp", SX+"matrix_types/coo_conversions.hpp"],
  [("format-converting constructors", SX+"matrix_types/conversions.hpp"), ("sort_by_row_index/sort_by_col_index, expand_from_triangle, determine_indexing", SX+"matrix_types/coo_matrix_ops.hpp"),
   ("convert_to_dense", SX+"matrix_types/dense_conversions.hpp")],
  ["accessors of the converted matrix (m, n, nnz, indexing, offsets, indices, values)"],
  [("rowptr/colptr", "offset of each row/column, last one = nnz + base", SX+"matrix_types/csr_matrix.hpp")])

p("S02", "Sparse matrix-vector products equal dense algebra",
  """A sparse product Y <- alpha*A*X + beta*Y equals the dense result for every matrix, block width, leading
  dimension, pair of scalars, storage format and index base.
  Only the rows and columns of Y that belong to the result are written, and X and A are left unchanged.""",
  ["inputs"],
  "all sparsity patterns of small shapes (rectangular, empty rows), K in 0..3, padded leading dimensions, alpha/beta in {0,1,-1,2}, CSR and COO, both bases",
  "The suite multiplies one fixed square matrix by one vector.",
  [SX+"spblas/spmbv.hpp", SX+"spblas/type_traits.hpp"],
  [("gespmbv overloads", SX+"spblas/spmbv.hpp")], ["the output block and its padding"])

p("S03", "A row-distributed sparse matrix holds and multiplies exactly the global matrix",
  """However a matrix is split into contiguous row blocks over any number of processes (including processes
  that own no rows), every entry is stored exactly once on the owner of its row, and the distributed
  product equals the serial product on every process; the reported communication volume is the number of elements exchanged.
  This holds in every order in which processes run, messages arrive and non-blocking transfers complete;
  no process waits forever, reads data that has not arrived, or leaves a message unreceived.""",
  ["inputs", "schedules", "configurations"],
  "all small matrices x all row partitions x 1..4 processes x all completion policies of sends/receives and process interleavings up to a deviation bound",
  "No test runs the distributed product at all (test_dist is compiled, never run).",
  [SX+"matrix_types/dist_sparse_matrix.hpp", SX+"spblas/pspmbv.hpp", SX+"util/mpi.hpp", SX+"util/submatrix.hpp"],
  [("communication plan: who needs which remote element", SX+"spblas/pspmbv.hpp"), ("diagonal / off-diagonal tile split", SX+"matrix_types/dist_sparse_matrix.hpp")],
  ["local result of each process; the messages exchanged"],
  [("send/recv counts, offsets, indices", "per-peer exchange plan", SX+"spblas/pspmbv.hpp")])

p("S04", "Multi-threaded kernels are free of data races and thread-count independent",
  """No two threads of a parallel region touch the same memory location without ordering when at least one
  of them writes, and the result of every threaded routine (sparse products, row/column permutations,
  coordinate-to-dense conversion) is the same for every number of threads, every assignment of iterations
  to threads and every interleaving.""",
  ["schedules", "inputs", "configurations"],
  "1..4 threads, all thread start orders and chunk assignments, all small matrices; every memory access of the region is monitored",
  "Tests run with two threads on one matrix and never look at the schedule; a race usually still gives the right answer.",
  [SX+"spblas/spmbv.hpp", SX+"util/permute.hpp", SX+"matrix_types/dense_conversions.hpp"],
  [("OpenMP work sharing over disjoint rows/columns; per-thread scratch", SX+"util/permute.hpp")],
  ["memory accesses inside parallel regions; results"])

p("S05", "Permuting, slicing and summarising a sparse matrix keeps every selected entry",
  """Permuting the rows, the columns or both, permuting vectors, extracting a row/column range, the upper
  triangle, the diagonal or the trace, and building the adjacency structure give exactly the entries that
  the same operation on the dense matrix gives, with sorted indices and consistent offsets. A partition request
  hands exactly the graph of the matrix to the external partitioner and returns its answer.
  Applying a permutation and then its inverse restores the original.""",
  ["inputs", "histories"],
  "all sparsity patterns of small shapes, all permutations, all row/column ranges, both bases",
  "One 23x23 sample and a handful of fixed ranges are tested; permutations are not tested at all.",
  [SX+"util/permute.hpp", SX+"util/submatrix.hpp", SX+"util/graph.hpp", "src/sparsexx/src/metis_wrapper.cxx"],
  [("permute_rows / permute_cols / permute_rows_cols / permute_vector", SX+"util/permute.hpp"), ("extract_submatrix and friends", SX+"util/submatrix.hpp"), ("extract_adjacency, kway_partition", SX+"util/graph.hpp"), ("metis_kway_partitioning", "src/sparsexx/src/metis_wrapper.cxx")],
  ["the returned matrices, vectors and graphs"])

p("S06", "Sparse matrix files round-trip, whoever writes or reads them",
  """Writing a sparse matrix to a file and reading it back gives the same matrix, in the text exchange
  format, in the Rutherford-Boeing format and in the binary triplet format, for every sparsity pattern and
  index base; symmetric, skew-free triangular storage is expanded to the full matrix.
  The file a set of processes writes together holds the same matrix and the same bytes in every order in which
  the processes run.""",
  ["inputs", "schedules", "configurations"],
  "all sparsity patterns of small shapes x bases x formats x 1..4 writing processes x process interleavings",
  "Two sample files are read; nothing is ever written, and no file is read or written by more than one process.",
  [SX+"io/read_mm.hpp", SX+"io/write_mm.hpp", SX+"io/write_dist_mm.hpp", SX+"io/read_rb.hpp", SX+"io/read_binary_triplets.hpp", SX+"io/write_binary_triplets.hpp"],
  [("readers and writers", SX+"io/"), ("token ring that serialises the distributed writer", SX+"io/write_dist_mm.hpp")],
  ["the matrix read back; bytes of the file"])

p("S07", "A cut-off data file is reported, never read as different data",
  """When a matrix, density-matrix or wave-function file is missing or ends early, at any byte, the reader raises an
  error, or, when nothing that matters was lost, returns exactly the original data.
  It never returns other numbers as if the read had succeeded, and never reads outside its buffers.
  (A text file cut inside its very last number is a complete file with another last number, and is not meant.)""",
  ["crash_points", "fault_sequences"],
  "every prefix length of every file the writers produce for a set of small matrices / density matrices",
  "Tests only read complete files.",
  [SX+"io/read_mm.hpp", SX+"io/read_rb.hpp", SX+"io/read_binary_triplets.hpp", M+"util/binary_rdms.hpp", "src/macis/fcidump.cxx", M+"wavefunction_io.hpp"],
  [("stream checks in the readers", SX+"io/")], ["value or exception of the reader"])

p("S08", "A data file that cannot be written completely is reported",
  """When a matrix, density-matrix, wave-function or integral file cannot be created or written completely, because
  the path is unusable, the storage is full after any number of bytes or any single write fails, the writer raises an
  error, on every process that takes part, and none of them waits for ever.
  A writer that returns has left exactly the file it would have left without the fault, also over an older, longer file;
  a write that is merely interrupted or taken in pieces loses nothing in silence, and nothing sticks for the next file.""",
  ["crash_points", "fault_sequences"],
  "every storage size in bytes, every write call x six kinds of failure, unusable paths, for every small file of each writer; 1..3 writing processes",
  "Tests only write files that can be written, and hardly any.",
  [SX+"io/write_mm.hpp", SX+"io/write_dist_mm.hpp", SX+"io/write_binary_triplets.hpp", M+"util/binary_rdms.hpp", M+"util/fcidump.hpp", "src/macis/fcidump.cxx", M+"wavefunction_io.hpp"],
  [("stream checks in the writers", SX+"io/")], ["exception or return of the writer; bytes of the file"])

p("D01", "Distributed selection returns the k-th ranked element on every process",
  """For every way of spreading elements over processes (empty processes and repeated values included),
  every rank k from one to the number of elements and every ordering, selecting the k-th ranked element
  returns that element, the same on every process, and leaves each process with a rearrangement of its own
  elements.
  Every process makes the same sequence of collective calls, so none waits forever.""",
  ["inputs", "schedules", "configurations"],
  "all value multisets up to 6-7 elements over 1..4 processes, all k, three orderings, all process interleavings up to a deviation bound",
  "One random array of 100 elements per process and one k are tested on two processes.",
  [M+"util/dist_quickselect.hpp", M+"util/mpi.hpp"],
  [("pivot broadcast + global three-way partition sizes", M+"util/dist_quickselect.hpp")], ["returned element per process; local arrays"])

p("D02", "Typed collective wrappers deliver exactly the typed data",
  """Reductions, broadcasts and gathers through the typed message-passing wrappers give, for every supported
  element type, element count, process count and root, the same result as the mathematical operation, on
  every process, touching only the counted elements; user-defined element types are created and released
  exactly once.""",
  ["inputs", "schedules", "configurations"],
  "all element types x counts 0..4 x 1..4 processes x roots x operations x process orders",
  "The wrappers are only exercised through one quickselect test on two processes.",
  [M+"util/mpi.hpp", SX+"util/mpi.hpp"],
  [("traits mapping C++ types to message types, managed datatype lifetime", M+"util/mpi.hpp")], ["buffers after each collective"])

p("E01", "The Davidson solver returns the lowest eigenpair or says it failed",
  """For every symmetric matrix, every positive subspace limit and every non-zero starting vector, the solver
  either returns a unit vector and value that satisfy the eigenvalue equation to the requested residual,
  or reports non-convergence; from a starting vector that has a component along the lowest eigenvector and
  a subspace allowed to grow to the full dimension the value is the lowest eigenvalue.
  It never returns not-a-number.""",
  ["inputs", "configurations"],
  "all symmetric matrices of dimension 1..4 over a small alphabet, subspace limits, guesses",
  "The solver's own test needs a missing dependency and covers one matrix.",
  [M+"solvers/davidson.hpp"],
  [("Gram-Schmidt, Rayleigh-Ritz, residual, preconditioned expansion, restart", M+"solvers/davidson.hpp")], ["returned iteration count, eigenvalue and vector"])

p("E02", "The distributed Davidson solver agrees with the serial one on any process grid",
  """Splitting the vectors and the matrix by rows over any number of processes gives the same eigenvalue on
  every process and eigenvector pieces that concatenate to a unit eigenvector, for every process count,
  uneven splits, and every process interleaving; the distributed orthogonalisation, starting guess and
  subspace projection equal their serial counterparts.
  All processes make the same collective calls, so no process waits forever.""",
  ["inputs", "schedules", "configurations"],
  "small symmetric matrices x row splits over 1..4 processes x process interleavings up to a deviation bound",
  "Never run: the only test needs a missing dependency.",
  [M+"solvers/davidson.hpp"],
  [("p_davidson, p_gram_schmidt, p_rayleigh_ritz, p_diagonal_guess", M+"solvers/davidson.hpp")], ["per-process results"])

p("E03", "The block eigensolver's converged answer is a correct set of lowest eigenpairs",
  """Whenever the locally optimal block solver returns normally, the requested number of values are
  eigenvalues of the operator in ascending order, the returned vectors are orthonormal and satisfy the
  eigenvalue equation to the requested relative residual, and the reported residual norms are the actual
  ones; when it cannot converge within the iteration limit it raises an error, having returned its last approximations with their actual residuals.
  The remaining columns of the block return the other approximations, orthonormal and decoupled as well. Leading-dimension padding, workspace beyond the documented size and the operator's data are never
  modified, and too small a workspace is rejected.""",
  ["inputs", "configurations"],
  "all small symmetric matrices over an alphabet x block widths x requested pairs x guesses x leading dimensions x iteration limits",
  "There is no test of this solver, only an unasserted example.",
  [LX+"driver.hpp", LX+"cholqr.hpp", LX+"rayleigh_ritz.hpp", LX+"residuals.hpp", LX+"rotate_basis.hpp", LX+"convergence.hpp", LX+"operator.hpp", LX+"simplified_interface.hpp"],
  [("three-term block recurrence with orthogonalisation", LX+"driver.hpp")], ["values, vectors, residuals, convergence history"])

p("E04", "The extrapolation accelerator keeps the newest vectors and minimises the error",
  """After every sequence of additions, the accelerator holds exactly the most recent vectors up to its
  capacity, and its extrapolated vector is the combination of the held vectors, with coefficients summing
  to one, whose combined error has the least norm; a held zero-error vector is returned exactly when the other errors are linearly independent.""",
  ["histories", "inputs"],
  "all sequences of additions up to capacity+3 over a small vector alphabet, capacities 1..4",
  "There is no test of the accelerator.",
  [M+"util/diis.hpp"], [("DIIS::add_vector, DIIS::extrapolate", M+"util/diis.hpp")], ["extrapolated vector"],
  [("stored vectors, errors, error overlap matrix", "circular history", M+"util/diis.hpp")])

p("T01", "Integral transformation equals the defining sum",
  """Transforming one- and two-body integrals with any coefficient matrix, square or rectangular, equals the
  defining multi-index sum, for every padding of input, coefficient and output arrays; nothing outside the
  result block is written. The result may replace the input, as the search relies on.""",
  ["inputs", "configurations"],
  "all original/new dimensions up to 3-4, leading dimensions with padding, basis tensors and basis coefficient matrices (multilinearity makes these decide all inputs)",
  "Identity, permutation and sub-block matrices are tested on one size without padding.",
  ["src/macis/transform.cxx", M+"util/transform.hpp"],
  [("two_index_transform / four_index_transform", "src/macis/transform.cxx")], ["output tensor incl. padding"])

p("Q01", "Determinant bit operations are exact for every width",
  """Splitting, joining, truncating, masking, converting, comparing and scanning the occupation bit strings
  (lowest/highest set bit, list of set bits, occupied and virtual orbital lists, spin halves) gives the
  mathematically exact answer for every bit pattern and every supported width.""",
  ["inputs"],
  "all bit patterns of width 8..16 positions slid over every word boundary of widths 32..256",
  "A few random patterns are tested, in a test that cannot be built here.",
  [M+"bitset_operations.hpp", M+"types.hpp"],
  [("bit-string helpers", M+"bitset_operations.hpp")], ["returned words/lists"])

p("Q02", "Excitation and configuration-space generation is complete and duplicate-free",
  """For every number of orbitals and electrons, generating single and double excitations, the CIS/CISD spaces and
  the full configuration space yields every determinant with the stated excitation level and particle
  numbers exactly once and no other, and the sign and orbital labels of a single or double excitation agree
  with the fermionic operator algebra.""",
  ["inputs", "configurations"],
  "all determinants and all occupations for up to 6 spatial orbitals, several bit widths",
  "One reference determinant per case is tested, in a test that cannot be built here.",
  [M+"sd_operations.hpp"], [("generate_* and *_sign_indices helpers", M+"sd_operations.hpp")], ["lists of determinants, signs and labels"])

p("Q03", "Hamiltonian matrix elements obey the second-quantised definition",
  """For every pair of determinants with equal numbers of electrons of each spin and every set of real integrals with the usual permutational symmetry, the matrix element
  equals the expectation of the second-quantised electronic Hamiltonian, is symmetric in the two
  determinants, vanishes beyond double excitations, and the incremental (fast) diagonal formulas equal the
  directly computed diagonal.""",
  ["inputs"],
  "all pairs of determinants with up to 4 (5) orbitals, all particle numbers; basis integrals, by linearity",
  "Only aggregate energies of one molecule are compared, in tests that cannot be built here.",
  [M+"hamiltonian_generator.hpp", M+"hamiltonian_generator/double_loop.hpp", M+"hamiltonian_generator/matrix_elements.hpp", M+"hamiltonian_generator/fast_diagonals.hpp"],
  [("matrix_element, fast_diag_*", M+"hamiltonian_generator/")], ["matrix elements"])

p("Q04", "Assembled Hamiltonian matrices contain exactly the wanted elements",
  """The sparse Hamiltonian built for any bra and ket determinant lists, any index type or split over
  processes, stores exactly the elements whose magnitude exceeds the threshold, at the right position, in
  sorted order, and equals the dense matrix of elements; the distributed matrix equals the serial one.""",
  ["inputs", "schedules", "configurations"],
  "all sub-lists of determinants of small spaces (bra != ket included), thresholds, 1..4 processes",
  "One CISD space and one split are compared, in a test that cannot be built here and lacks its data.",
  [M+"csr_hamiltonian.hpp", M+"hamiltonian_generator/double_loop.hpp"],
  [("make_csr_hamiltonian_block, make_dist_csr_hamiltonian", M+"csr_hamiltonian.hpp")], ["assembled matrix"])

p("Q05", "Reduced density matrices match the wave function and its energy",
  """For every wave function expanded in any list of determinants, the one- and two-body density matrices
  equal the expectation values of the corresponding operators (the two-body one up to the permutational symmetry
  of the integrals), with or without the two-body matrix requested: particle-number traces, symmetry and the
  energy contraction with the integrals all hold.""",
  ["inputs"],
  "all determinant pairs of spaces with up to 4 orbitals (bilinearity in the coefficients makes pairs decide all wave functions)",
  "Only one molecule's matrices are compared, in a test that cannot be built here.",
  [M+"hamiltonian_generator/rdms.hpp", M+"hamiltonian_generator/double_loop.hpp", M+"util/rdms.hpp"],
  [("form_rdms and rdm_contributions", M+"hamiltonian_generator/")], ["density matrices"])

p("Q06", "Selected- and full-CI solves return the ground state on any process count",
  """For every determinant list, solving for the ground state serially or over any number of processes
  gives the lowest eigenvalue of the Hamiltonian in that list and its coefficients, and the active-space
  driver's density matrices reproduce that energy.
  Every process takes the same collective decisions, so no process waits forever.""",
  ["inputs", "schedules", "configurations"],
  "small Hubbard-like Hamiltonians x determinant lists x 1..3 processes x given/absent starting vectors",
  "Not run: needs a missing dependency.",
  [M+"solvers/selected_ci_diag.hpp", M+"util/cas.hpp"],
  [("serial/parallel_selected_ci_diag, compute_casci_rdms", M+"solvers/selected_ci_diag.hpp")], ["energy, coefficients, density matrices"])

p("A01", "Selection search picks the top-scoring determinants on any process count",
  """One search step over a core wave function scores every determinant reachable by single and double
  excitations with the accumulated perturbative estimate over all core determinants, keeps the core
  and the highest scoring ones up to the requested size with no duplicates, and returns the same list on
  all processes, whatever their number and interleaving (candidates of equal score, or whose matrix elements
  are below the screening threshold, may be chosen freely).""",
  ["inputs", "schedules", "configurations"],
  "small Hamiltonians, core spaces and sizes x 1..3 processes x constraint levels",
  "One molecule's final energy is compared, in a test that cannot be built here.",
  [M+"asci/determinant_search.hpp", M+"asci/determinant_contributions.hpp", M+"asci/determinant_sort.hpp"],
  [("asci_contributions_*, asci_search", M+"asci/")], ["selected determinants"])

p("A02", "Every excitation belongs to exactly one search constraint",
  """The constraints that split the search space over processes are disjoint and complete: each
  determinant with enough electrons satisfies exactly one of them whatever the number of processes and the
  refinement level, and enumerating excitations under a constraint gives exactly the excitations of the
  unconstrained enumeration that satisfy it.""",
  ["inputs", "configurations"],
  "all determinants of up to 6 orbitals x all constraint levels x 1..4 processes",
  "The test checks one space, and cannot be built here.",
  [M+"asci/determinant_contributions.hpp", M+"sd_operations.hpp", M+"asci/mask_constraints.hpp"],
  [("constraint generation and masks", M+"asci/mask_constraints.hpp")], ["constraint sets; generated excitations"])

p("A03", "Contribution accumulation sums each determinant once and prunes only small terms",
  """Sorting and accumulating scored candidates leaves every distinct determinant exactly once with the sum
  of its scores, for every order and multiplicity of candidates; keeping the largest copy leaves each
  determinant once with its largest score; sorting coefficients keeps each with its determinant; pruning
  removes only entries below tolerance.""",
  ["inputs"],
  "all candidate sequences up to length 6 over a small alphabet",
  "Not tested.",
  [M+"asci/determinant_sort.hpp", M+"asci/determinant_contributions.hpp"],
  [("sort_and_accumulate_asci_pairs", M+"asci/determinant_sort.hpp")], ["resulting list"])

p("A04", "Growth and refinement return the lowest eigenpair of the list they return",
  """Each iteration searches from the determinants with the largest coefficients, whatever the order of the
  input, and growing reaches exactly the requested size or reports that it cannot, refining keeps the size
  or reports that it did not converge. The returned energy and coefficients are the ground state of the
  returned list for the Hamiltonian the generator then holds (after natural-orbital rotations: the rotated
  one, an orthogonal transform of the original), the same on every process and for every interleaving.""",
  ["inputs", "schedules", "configurations"],
  "small Hamiltonians x starting lists x size settings x rotations on or off x 1..3 processes",
  "One molecule's final energy is compared, in a test that cannot be built here.",
  [M+"asci/iteration.hpp", M+"asci/grow.hpp", M+"asci/refine.hpp"],
  [("asci_iter, asci_grow, asci_refine", M+"asci/")], ["list, energy, coefficients, rotated integrals"])

p("O01", "Fock matrices and energies match their definitions",
  """Inactive, active and generalised Fock matrices, the active-space Hamiltonian, the inactive energy and
  canonical orbital energies equal their defining sums for every split into inactive, active and virtual
  orbitals and every padding, and the energy they give equals the expectation value of the full
  Hamiltonian for the frozen-core wave function.""",
  ["inputs", "configurations"],
  "all orbital splits up to 4-5 orbitals, padded leading dimensions, basis integrals and density matrices by linearity",
  "One molecule is compared, in a test that cannot be built here.",
  ["src/macis/fock_matrices.cxx", "src/macis/orbital_energies.cxx", M+"util/fock_matrices.hpp"],
  [("inactive/active/generalized Fock builders", "src/macis/fock_matrices.cxx")], ["matrices and energies"])

p("O02", "Orbital gradient, Hessian product and rotation are consistent",
  """The orbital rotation is orthogonal and inverted by the opposite generator; packing and unpacking
  rotation parameters are inverse; the orbital gradient is the first derivative of the rotated energy, the
  one-index transformed Hamiltonian the derivative of the integrals and the Hessian product the second derivative of the
  energy (the numerical derivatives agree); the diagonal approximation and the preconditioned step follow their formulas,
  for every orbital split and padding.""",
  ["inputs", "configurations"],
  "all orbital splits up to 4 orbitals; all elementary rotations",
  "One molecule is compared, in a test that cannot be built here.",
  ["src/macis/orbital_gradient.cxx", "src/macis/orbital_hessian.cxx", "src/macis/orbital_rotation_utilities.cxx", "src/macis/orbital_steps.cxx"],
  [("gradient / rotation / packing helpers", "src/macis/")], ["gradients, rotations, packed parameters"])

p("O03", "Second-order amplitudes and natural orbitals match perturbation theory",
  """The second-order amplitudes, density matrix and natural orbitals equal their defining formulas for
  every split into occupied and virtual orbitals and every padding: occupations descend and sum to the
  electron count, and the orbitals diagonalise the density.""",
  ["inputs", "configurations"],
  "all splits up to 4-5 orbitals, padded arrays, a family of integrals",
  "Not tested.",
  ["src/macis/moller_plesset.cxx", "src/macis/orbital_energies.cxx"],
  [("mp2_t2, mp2_1rdm, mp2_natural_orbitals", "src/macis/moller_plesset.cxx")], ["amplitudes, density, occupations"])

p("O04", "Converged orbital optimisation is variational and self-consistent",
  """The energy returned by orbital optimisation equals the energy of the returned density matrices, and the
  lowest configuration-interaction energy, in the final orbitals, on every process, for every padding and
  limit of iterations. When it reports convergence the orbital gradient is below the tolerance; from a start with
  positive curvature it converges and does not end above the starting configuration-interaction energy; with an
  active space covering all orbitals the energy is the full configuration-interaction energy.""",
  ["inputs", "configurations"],
  "all orbital splits of small model Hamiltonians",
  "One molecule is optimised, in a test that cannot be built here.",
  [M+"util/mcscf_impl.hpp", "src/macis/casscf.cxx", M+"util/mcscf.hpp"],
  [("mcscf_impl", M+"util/mcscf_impl.hpp")], ["energy and density matrices"])

p("O05", "The quasi-Newton minimiser descends to a stationary point or says it failed",
  """The inverse-Hessian object, after any sequence of updates and for every choice of initial approximation, acts as the
  dense BFGS recursion does (so it maps the last change of gradient to the last step). Each line search returns a point on
  the search line with its step, value and gradient, never climbs, refuses directions that climb, meets its decrease
  (and curvature, or best-grid-point) condition, or throws. The driver follows the quasi-Newton direction with a non-increasing
  value, returns only a point the objective reports converged, does so within the iteration limit or throws, and finds
  the minimum of positive definite quadratic functions.""",
  ["inputs", "histories"],
  "all short update sequences over small vectors, line searches on smooth functions from all grid points with steps of all magnitudes, all small positive definite quadratics",
  "No test uses the minimiser.",
  ["src/macis/bfgs/bfgs.hpp", "src/macis/bfgs/bfgs_hessian.hpp", "src/macis/bfgs/line_search.hpp"],
  [("BFGSHessian::update/apply and the initial approximations", "src/macis/bfgs/bfgs_hessian.hpp"), ("backtracking, Nocedal-Wright and discrete line searches", "src/macis/bfgs/line_search.hpp"),
   ("bfgs driver", "src/macis/bfgs/bfgs.hpp")],
  ["result of apply; step, point, value, gradient; exceptions"],
  [("sk, yk, rhok", "steps, gradient changes and inverse products of all updates", "src/macis/bfgs/bfgs_hessian.hpp")])

p("I01", "Integral files are read and written faithfully",
  """Reading an integral file gives exactly the numbers in it, expanded over all permutational symmetries,
  with the core energy, one-body and two-body parts told apart; writing integrals and reading them back
  gives the same integrals, for every orbital count, sparsity and padding, any number of times in one process.""",
  ["inputs", "histories"],
  "all single-entry and small multi-entry files with up to 4 orbitals, all write/read sequences up to length 3",
  "One molecule's file is read, in a test that cannot be built here.",
  ["src/macis/fcidump.cxx", M+"util/fcidump.hpp"],
  [("read_fcidump_*, write_fcidump", "src/macis/fcidump.cxx")], ["arrays, files"])

p("I02", "Saved density matrices and wave functions are restored unchanged",
  """Saving density matrices or a wave function and loading them restores the same numbers,
  determinants and coefficients for every size, padding and content, and loading into arrays of a different
  size is rejected.""",
  ["inputs", "histories"],
  "all sizes up to 4, paddings, determinants lists; sequences of save/load",
  "Loading is tested with one data file, in a test that cannot be built here.",
  [M+"util/binary_rdms.hpp", M+"util/detail/rdm_files.hpp", M+"wavefunction_io.hpp"],
  [("read/write_rdms_binary, read/write_wavefunction", M+"util/detail/rdm_files.hpp")], ["restored arrays; exceptions"])

p("C01", "The reference exact-diagonalisation code obeys the same quantum mechanics",
  """In the legacy exact-diagonalisation library, determinant creation/annihilation signs, excitation
  enumeration, matrix elements, the assembled Hamiltonian, its lowest eigenvalue (within the Krylov space of its
  starting vector), and the density matrices agree with a dense second-quantised reference for every small system;
  integral and density files are read for what they hold.""",
  ["inputs", "configurations"],
  "all determinants, operators and pairs up to 4 orbitals, all particle numbers, sub-lists of determinants, files with every entry",
  "Four programs are run; two energies are compared as printed text, nothing else.",
  ["attic/src/cmz_ed/slaterdet.c++", "attic/inc/cmz_ed/slaterdet.h++", "attic/src/cmz_ed/hamil.c++", "attic/src/cmz_ed/rdms.c++", "attic/inc/cmz_ed/rdms.h++",
   "attic/src/cmz_ed/combins.c++", "attic/src/cmz_ed/ed.c++", "attic/inc/cmz_ed/integrals.h++"],
  [("slater determinant algebra", "attic/src/cmz_ed/slaterdet.c++"), ("Hamiltonian assembly", "attic/src/cmz_ed/hamil.c++"), ("density matrices", "attic/src/cmz_ed/rdms.c++"),
   ("integral storage and files", "attic/inc/cmz_ed/integrals.h++")],
  ["signs, lists, matrices, energies, densities"])

p("C02", "Legacy Lanczos, band Lanczos and resolvents agree with dense spectral results",
  """The legacy dense and banded eigensolvers and orthogonal factorisations return complete, correct decompositions;
  Lanczos recursion coefficients and vectors reproduce the projected matrix and all moments they determine, its lowest
  value is the lowest eigenvalue the starting vector reaches, and the band-Lanczos resolvent of any set of vectors, carried to
  the full space, equals the dense resolvent for particle and hole shifts at every frequency off the real axis.""",
  ["inputs", "configurations"],
  "all symmetric matrices of dimension 1..4 over small alphabets, starting vectors and sets of vectors (dependent ones included), every number of steps",
  "Only the lowest value of two Hamiltonians is printed and compared; the resolvent is not run by any registered test.",
  ["attic/src/cmz_ed/bandlan.c++", "attic/inc/cmz_ed/bandlan.h++", "attic/inc/cmz_ed/lanczos.h++", "attic/src/cmz_ed/eigsolver.c++"],
  [("MyLanczos, GetGS", "attic/inc/cmz_ed/lanczos.h++"), ("MyBandLan, BandResolvent, QRdecomp, GetEigsysBand", "attic/src/cmz_ed/bandlan.c++")],
  ["coefficients, eigenvalues, vectors, resolvent elements"])

AD = "attic/inc/dbwy/"
p("G01", "Legacy determinant, Hamiltonian and density-matrix headers agree with theory",
  """In the legacy selected-CI headers, bit-string operations, occupied/virtual lists, excitation enumeration (also inside an
  active space), reference determinants, matrix elements and their incremental forms, matrices assembled by either method
  (any bra/ket sub-list, row block, column window, threshold and number of processes), density matrices and the rotation to
  natural orbitals agree with a dense second-quantised reference.""",
  ["inputs", "configurations"],
  "all determinants, pairs and active sets up to 4 orbitals in several bit widths, all sub-lists of small spaces, process counts 1..4",
  "No registered test runs these headers.",
  [AD+"sd_operations.hpp", AD+"bitset_operations.hpp", AD+"hamiltonian_generator.hpp", AD+"double_loop.hpp", AD+"sd_build.hpp", AD+"csr_hamiltonian.hpp", AD+"cmz_compat_csr_matrix.hpp"],
  [("excitations and bit strings", AD+"sd_operations.hpp"), ("matrix elements", AD+"hamiltonian_generator.hpp"), ("assembly by pair loop and by excitation", AD+"double_loop.hpp")],
  ["lists, signs, matrix elements, matrices, densities"])

p("G02", "Legacy Green's functions equal the dense resolvent on the determinants they use",
  """The legacy Green's-function code expands an added or removed electron in exactly the determinants its options describe (active
  orbitals, layers of excitations, seed threshold, size limit); builds the vectors with the fermionic sign, dropping those that vanish;
  and by either Lanczos method returns, for every set of same-spin orbitals, particle or hole sector and complex frequency, the
  dense resolvent on that basis, also for dependent or vanishing vectors; the files hold the same numbers.""",
  ["inputs", "configurations"],
  "all electron numbers up to 3 orbitals, states, active sets, layers, thresholds, orbital sets and sectors",
  "The program that runs it is not among the registered tests and compares nothing.",
  [AD+"gf.h++", "attic/src/dbwy/gf.c++", "attic/src/cmz_ed/bandlan.c++", "attic/inc/cmz_ed/bandlan.h++", "attic/inc/cmz_ed/lanczos.h++"],
  [("get_GF_basis_AS_1El, BuildWfn4Lanczos, GF_Diag, RunGFCalc", AD+"gf.h++"), ("write_GF", "attic/src/dbwy/gf.c++")],
  ["determinant lists, vectors, Green's functions, files"])

p("G03", "Legacy input, vector and matrix files are read for what they hold",
  """The legacy readers of parameter files, vectors and matrices deliver exactly the parameters and numbers in the file, whatever comments,
  blank lines, spacing or order it uses; duplicate, missing, ill-typed, cut-off or malformed entries are reported instead of being replaced by
  other data; the elementary inner products, sums and matrix elements equal their definitions for every number of threads.""",
  ["inputs", "schedules"],
  "all short files over a dozen kinds of lines, vector files with every announced and given number of values, all small symmetric patterns",
  "Well-formed input files of four programs are read, nothing about others.",
  ["attic/src/cmz_ed/utils.c++", "attic/inc/cmz_ed/utils.h++"],
  [("ReadInput, ReadVec, ReadMat, ReadMatSize, GetMatrixEl", "attic/src/cmz_ed/utils.c++"), ("getParam, MyInnProd, MyAdd", "attic/inc/cmz_ed/utils.h++")],
  ["parameters, vectors, matrices, errors"])

p("G04", "Legacy selected CI picks the right determinants and yields their eigenpairs",
  """For every core wave function the legacy search returns the determinants of largest first-order estimate (core included once, ties apart),
  never more than asked for or exist, and each exactly once; diagonalisation of any list returns a normalised eigenpair with the coefficients in list
  order; iterations, growth, refinement and orbital rotation are the composition of these steps and obey size limits and tolerances; the
  drivers for full and selected CI and Green's functions deliver energy, density matrices, files and functions of the state found.""",
  ["inputs", "configurations"],
  "all determinants and small cores of spaces up to 5 orbitals, all short candidate lists, all limits and options",
  "No registered test runs these headers.",
  [AD+"asci_util.hpp", AD+"asci_body.hpp", AD+"davidson.hpp"],
  [("asci_contributions, asci_search, keep_only_largest, selected_ci_diag", AD+"asci_util.hpp"), ("asci_iter, asci_grow, asci_refine, run_ed_w_1rdm, run_asci_w_1rdm, run_asci_w_GF", AD+"asci_body.hpp"), ("davidson, p_davidson", AD+"davidson.hpp")],
  ["determinant lists, energies, coefficients, densities, files, Green's functions"])

p("G05", "Legacy threaded loops: no data race, one-thread results under every schedule",
  """The parallel loops of the legacy library (inner products and sums, Hamiltonian assembly from pairs of determinants, Lanczos and
  band-Lanczos resolvents, norms of ladder vectors) have no two threads touching the same memory without order where one of them
  writes, and return on any number of threads and under any schedule what one thread returns (up to the rounding of sums).""",
  ["schedules", "inputs"],
  "all priority orders of 2 and 3 threads with bounded deviations, every access of the regions monitored, over small sizes",
  "No registered test runs these loops on more than one thread in a checked way; a race shows only under a particular interleaving.",
  ["attic/inc/cmz_ed/utils.h++", "attic/inc/cmz_ed/bandlan.h++", "attic/src/cmz_ed/bandlan.c++", "attic/src/cmz_ed/hamil.c++", "attic/inc/dbwy/gf.h++"],
  [("MyInnProd, MyAdd", "attic/inc/cmz_ed/utils.h++"), ("GetHmat, GetHmat_FromPairs", "attic/src/cmz_ed/hamil.c++"), ("MyBandLan, BandResolvent", "attic/src/cmz_ed/bandlan.c++"),
   ("GF_Diag, BuildWfn4Lanczos", "attic/inc/dbwy/gf.h++")],
  ["races found by the monitor; the numbers returned"])

p("H01", "Results depend on the arguments alone, not on earlier calls",
  """A call with given arguments returns the same result whatever the process computed before: with other sizes, other integrals of the same size or in the same
  memory, other electron numbers, other communicators or files of the same name, interleaved in any order. A Hamiltonian generator answers every question from the integrals
  it holds at that time, whatever it was asked or changed before.""",
  ["histories"],
  "all ordered pairs and all short sequences of calls of 35 operations with four inputs each, all short sequences of questions and changes to one generator",
  "Every test calls a routine once or twice with one set of arguments in one fixed order; stale workspaces or remembered results need a second, different call.",
  ["src/macis/transform.cxx", "src/macis/fock_matrices.cxx", "src/macis/orbital_gradient.cxx", "src/macis/orbital_hessian.cxx", "src/macis/orbital_steps.cxx", "src/macis/orbital_rotation_utilities.cxx",
   "src/macis/moller_plesset.cxx", "src/macis/casscf.cxx", "src/macis/fcidump.cxx", M+"util/mcscf_impl.hpp", M+"util/cas.hpp", M+"util/diis.hpp", M+"solvers/davidson.hpp", M+"solvers/selected_ci_diag.hpp",
   M+"hamiltonian_generator/double_loop.hpp", M+"hamiltonian_generator/impl.hpp", M+"hamiltonian_generator/rdms.hpp", M+"asci/determinant_search.hpp", M+"asci/iteration.hpp", M+"asci/grow.hpp", M+"asci/refine.hpp",
   M+"sd_operations.hpp", M+"util/dist_quickselect.hpp", LX+"lobpcg.hpp", SX+"spblas/pspmbv.hpp", SX+"spblas/spmbv.hpp", SX+"util/permute.hpp", SX+"util/submatrix.hpp", SX+"io/read_mm.hpp", SX+"io/write_mm.hpp"],
  [("every public routine", "src/macis/transform.cxx"), ("integral intermediates of the generator", M+"hamiltonian_generator/impl.hpp")],
  ["results of each call, next to those of a fresh process"],
  [("G_pqrs_, G_red_, V_red_", "intermediates that must belong to the present integrals", M+"hamiltonian_generator/impl.hpp")])
