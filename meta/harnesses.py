# How each property's harness is built, and what its cases are.
H = {}
LEVELS = {}
def h(prop, level, src, rule, **kw):
    H[prop] = dict(src=src if isinstance(src, list) else [src], rule=" ".join(rule.split()), **kw)
    LEVELS[prop] = level

h("S02", "exploration", "s02.cpp", """every sparsity pattern of every shape up to 4x4 with at most 9 (12) cells x index base x
  format (CSR; COO in four entry orders) x value and index type; per case every block width, padding and pair of scalars;
  regular patterns of up to 140x140.
  Nontrivial: the matrix stores at least one entry.""",
  assumptions=["entries are small integers, so results are exact in every value type"])
h("S01", "model_checking", "s01.cpp", """state = a matrix object in some format; transitions = conversions, sorts, re-basing; all
  transition sequences up to depth 4 (5) from every sparsity pattern of every shape up to 4x4 with at most 9 (12) cells, both
  bases, six starting formats/orders; plus all storage orders of up to 5 (6) entries and all triangular patterns up to 4x4.
  Each state is compared with the dense meaning. Nontrivial: the pattern stores an entry (the triangle has an off-diagonal one).""",
  assumptions=["no entry is stored twice", "the dense target is zeroed by the caller (csr to dense only writes stored entries)"])
h("S05", "exploration", "s05.cpp", """every sparsity pattern of every shape up to 4x4 with at most 9 (12) cells x base; per case all row and
  column permutations, all row/column ranges; all partitions of up to 5 elements; families of matrices up to 70x90 (windows between
  six bounds each way, three permutations), of up to 600 elements in up to 130 parts; every graph of
  up to 3 vertices x 2..3 parts x every answer of a stand-in partitioner. Nontrivial: at least one (two) stored entries.""",
  repo=["src/sparsexx/src/metis_wrapper.cxx"], flags=["-DSPARSEXX_ENABLE_METIS"],
  assumptions=["columns of each row are stored in ascending order", "METIS itself is replaced by a stand-in (not installed here)"])
h("S04", "model_checking", "s04.cpp", """own OpenMP runtime: one thread runs at a time; for every sparsity pattern of small shapes, base and
  2..3 (4) threads: all thread priority orders plus all schedules with up to 2 (3) deviations at scheduling points (chunk
  requests, locks, barriers); rows of up to 70 entries, and 6, 8 and 16 threads in three orders. Every memory access of the regions is monitored (phase + lock-set race condition, so a race is
  found on any schedule). states = distinct schedules, transitions = scheduling steps. Nontrivial: the matrix stores an entry.""",
  san="monitor",
  assumptions=["accesses inside precompiled library calls other than block copies are not monitored",
               "a race-free region has the same outcome under every interleaving that keeps the order of its synchronisation"])

h("S03", "model_checking", "s03.cpp", """own in-process MPI (every other schedule in a subcommunicator of a larger world, ranks reversed): for all sparsity patterns up to 3x3 on 1..4 processes and 4x4 on 2 (2..4) x all contiguous row partitions (empty
  ranks included) x construction/copy/move/hand-set tiles: both extreme completion policies x 2 process priorities;
  for representative patterns up to 4x4 (5x5): all 8 completion policies x all priorities plus all schedules with up to 1 (3) deviations at
  blocking points; up to 17 processes; four regular patterns of 17, 40 and 150 rows; invalid partitions on up to 9 processes. states = distinct call traces, transitions = MPI calls executed. Nontrivial: an entry is stored and there are two or more processes.""",
  assumptions=["matrices are square and columns ascend within rows", "eager/rendezvous and completion order behave as the MPI standard allows; the runtime explores the extremes per run"])
h("D01", "model_checking", "d01.cpp", """own in-process MPI (every other schedule in a subcommunicator of a larger world, ranks reversed): all sequences of up to 5 (6) elements over three values and all permutations of
  up to 6 (7) distinct elements x all splits (empty processes included) over 1..4 processes x every k x three orderings x two process
  priorities; sequences of 2..3 elements under all priorities and completion policies; deviations up to 2 (3); larger arrays for every k.
  states = distinct call traces, transitions = MPI calls executed. Nontrivial: at least as many elements as processes, and two or more processes.""",
  assumptions=["1 <= k <= total number of elements", "the ordering is a strict weak order and equality is its equivalence"])
h("D02", "model_checking", "d02.cpp", """own in-process MPI (every other schedule in a subcommunicator of a larger world, ranks reversed): every element type (characters: broadcast only) x counts 0..4 and 9 x 1..4 processes x every root x four operations,
  under all process priorities and completion policies (int, double, bit strings) or the extreme ones; oversized counts; managed datatypes moved, stored and dropped.
  states = distinct call traces, transitions = MPI calls executed. Nontrivial: two or more processes and a non-zero count.""")
h("S06", "exploration", "s06.cpp", """every sparsity pattern of every shape up to 4x4 with at most 9 (12) cells x base x forced base x value type,
  written over a longer old file and read back in each format; all patterns up to 3x3 in files as other programs write them (symmetric,
  pattern, comments, blank lines, CRLF, Rutherford-Boeing with wrapped lines); distributed writer: patterns up to 3x3 x all partitions x 1..4 processes under
  the extreme completion policies and priorities (all of them and single deviations for some), up to 40 rows on up to 13; seven extreme values (subnormal, largest, signed zero) at every element. Nontrivial: an entry is stored (and two or more processes).""",
  assumptions=["a triplet file whose entries form one triangle of a square matrix means the symmetric matrix (the format's convention)"])
h("S07", "fault_enumeration", "s07.cpp", """every prefix length (every byte) of every file, and the missing file: text and triplet matrices for all
  patterns of shapes up to 4x4 with at most 6 (9) cells in each target format, Rutherford-Boeing files for all patterns up to 2x3 (3x3), density
  matrices of 1..3 (4) orbitals, wave functions of several widths; then the complete file again. Nontrivial: the file stores an entry.""",
  macis=["fcidump"],
  assumptions=["a text file cut inside its last number is a complete file with another last number and is not counted"])
h("S08", "fault_enumeration", "s08.cpp", """every storage size (0 bytes up to the whole file, byte by byte; files of more than 4096 bytes: both ends, the surroundings of 512-byte boundaries and every 29th size, all of them in the thorough run), every write call x {interrupted, one byte
  taken, no space once, no space from then on, input/output error, closing fails}, and five unusable paths, over no file and over an older longer one: text and triplet matrices
  for all patterns of shapes up to 3x3 with at most 6 (9) cells, matrices of 576 and 1089 entries (several buffers), density matrices of 1..5 (6) and integrals of 1..3 (4) orbitals,
  wave functions of two widths with up to 150 (300) determinants, the collective writer on 1..3 processes. Nontrivial: every case (collective: two or more processes).""",
  macis=["fcidump"],
  assumptions=["the processes of a collective write see the same storage", "faults of creating a file are those of an unusable path"])
h("E01", "exploration", "e01.cpp", """all symmetric matrices of dimension 1..4 over small alphabets x 4 + n starting vectors (unit, uneven,
  not normalised) x every subspace limit up to n+2; dense generic families up to 5 (6) and families of up to 130 (200) rows where the solver has to succeed; starts at exact
  eigenvectors; Gram-Schmidt and starting guess on their own. Nontrivial: some off-diagonal entry is non-zero / the case does not degenerate.""",
  assumptions=["tolerances between 1e-6 and 1e-9"])
h("E02", "model_checking", "e02.cpp", """own in-process MPI (every other schedule in a subcommunicator of a larger world, ranks reversed): all symmetric matrices of dimension 1..3 over small alphabets x all row partitions over 1..4 processes (empty ones
  included) x subspace limits up to n+2 x starting vectors and operators; generic dense families up to dimension 5 (6) and some of up to 230, where the solver has to succeed, and
  exact starts: two process priorities; n = 2..4 under all priorities and completion policies and with single (double) deviations; orthogonalisation,
  projection and starting guess on their own. states = distinct call traces, transitions = MPI calls executed. Nontrivial: two or more processes.""",
  assumptions=["tolerances between 1e-6 and 1e-9"])
h("E03", "exploration", "e03.cpp", """all symmetric matrices of dimension 1..4 over small alphabets and generic families of dimension 3..10 (14), clustered and slowly
  converging spectra (up to 48 rows, seven columns) included x every block size K <= N/3 x every number of wanted pairs x starting blocks x paddings, preconditioner, all call forms, both precisions (varied
  with the case); iteration limits 0..3, every kind of too small workspace; orthogonalisation, projection, rotation and residuals on their own.
  The columns beyond the wanted ones are checked too (orthonormal, decoupled, with the energies recorded). Nontrivial: some off-diagonal entry is non-zero.""",
  assumptions=["the starting block is orthonormal (as the solver's example prepares it)", "tolerances 1e-4 and 1e-6 (single precision 1e-3)", "orthonormality is judged to 1e-7, to 1e-2 where the block is cramped (N < 5K) or has more than three columns (the Cholesky orthogonalisation loses as much)"])
h("E04", "model_checking", "e04.cpp", """all sequences of 1..5 (7) additions with error vectors of dimension 1..3 (4) over an alphabet of 2..4 values, every choice of
  extrapolation points (every sixth for the longest), every capacity up to length + 1, three scales; long sequences up to 24 with capacities up to 12 and up to 500 elements, some of up to 39 with capacities up to 33. The reference model
  holds the newest vectors; unit vectors are added, so a result is its coefficients. states = extrapolations compared, transitions = the same. Nontrivial: two or more additions.""",
  assumptions=["capacity of at least one", "error norms within 1e-3..1e2: minimality is judged to 1e-6 absolute"])
h("T01", "exploration", "t01.cpp", """all coefficient matrices over two- and three-value alphabets from 1x1 to 3x3 (4x3) x paddings 0..2 of input and output and 0..1 of the
  coefficients, in place and out of place; all unit tensors of 1..4 orbitals transformed to 1..4; larger shapes up to 6x6 (8x8), 33 orbitals; small integers, compared element by element,
  padding included, with the defining sum. Nontrivial: a coefficient is non-zero.""", macis=["transform"],
  assumptions=["multi-index arrays are padded in every index, as in the reference loop nest beside the optimised code"])
h("I02", "exploration", "i02.cpp", """density matrices of 0..4 orbitals x all paddings 0..2 of the four arrays x two contents (infinities, denormal numbers, both zeros) x three states of
  the file before, all single-element contents up to 4 (5) orbitals, matrices of up to 20; wave functions in bit strings of width 64 and 128: all single determinants up to 5 (6) orbitals, all pairs of
  orbital positions in the full width, all lists of up to 5 (6) determinants in one and 2 (3) in two orbitals, lists up to 1000; compared bit by bit. Nontrivial: there is an orbital.""",
  macis=["fcidump"], assumptions=["coefficients are finite", "a wave function has at least one determinant"])
h("I01", "exploration", "i01.cpp", """every single line (core, orbital energy, one- and two-body) over up to 3 orbitals in 24 file styles (column order, separators, line ends, headers, number
  formats, blank lines, signs and leading zeros of indices); a negative orbital index at every position; all files of two (three) lines over up to 2 (3) orbitals; complete files up to 5 and of 11 and 18 orbitals, files with scattered elements of up to 33, one-body files of up to 300; all sequences of up to 3 (4) writes into two files, both read
  after each; paddings 0..2, span and raw interfaces, wrong extents, log levels, missing file. Nontrivial: all.""",
  macis=["fcidump"], assumptions=["entries absent from the file leave the (zeroed) arrays as they are", "integrals are finite and written with a point or exponent"])
h("C01", "exploration", "c01.cpp", """all determinants of up to 5 (6) orbitals and 64-pattern windows sliding over 8..32 orbitals: every single excitation, list, comparison; all pairs up to
  4 orbitals; all particle sectors: combinations, spaces, excitation lists; matrix elements of all pairs of determinants up to 4 (5) orbitals for integral sets that decide every linear
  form; assembled matrices and pair lists for every single integral up to 3 (4) orbitals, all sub-lists of spaces of up to 9 (12) determinants, several thread counts, spaces of up to 400 determinants and 32 orbitals; combinations of up to 64 bits; density
  matrices of all pairs up to 4 orbitals; density files cut at every byte; integral files with every entry in every index order; full runs on 8 Hamiltonians in all sectors up to
  4 (5) orbitals. Nontrivial: there is an electron (for matrices: two determinants).""",
  attic=["eigsolver", "combins", "bandlan", "slaterdet", "hamil", "ed", "rdms", "utils"],
  assumptions=["at most 32 orbitals", "the solver starts from the vector of ones: the lowest eigenvalue is meant within its Krylov space", "integrals below 1e-10 are not written to files"])
h("C02", "exploration", "c02.cpp", """all symmetric matrices of dimension 1..4 over small alphabets and generic ones up to 9 (14), large ones up to 90: dense, banded (every width) and tridiagonal eigensolvers, all
  orthogonal factorisations of 3-valued matrices up to 3x3 (4x2); Lanczos with every number of steps from n + 3 starting vectors (moments, basis, projected matrix), ground state by every
  call form; resolvents of 1..4 vectors (all or every k-th 3-valued set) x two shifts x particle/hole x four frequencies against Gaussian elimination. Nontrivial: dimension above one.""",
  attic=["bandlan", "eigsolver", "utils"],
  assumptions=["one process", "the band recursion is carried over vectors x dimension steps, enough to exhaust the space"])
h("G01", "exploration", [f"g01.cpp@PART={i}" for i in range(2)], """all determinants of 1..4 (5) orbitals in 64 and 128 bits: their excitations inside every set of active orbitals, spaces, residues, text forms, reference determinants for
  every order of orbital energies; every matrix element and incremental diagonal against second quantisation for integral sets that decide every linear form; matrices assembled by both
  methods from all sub-lists of spaces of up to 9 (12) determinants and lists of up to 441, row blocks and left-out columns, three thresholds, on 1..4 processes; density matrices of all pairs of determinants;
  rotation to natural orbitals, up to 9 of them; 3 neighbouring orbitals anywhere among 32 and 40 (64); excitations, signs, order, text forms and spaces of up to 128 orbitals (128-, 64- and
  32-bit strings of 0..all electrons); rows of 63504 columns. Nontrivial: there is an electron (for matrices: two determinants).""",
  attic=["combins", "slaterdet", "utils"], flags=["-UNDEBUG"],
  assumptions=["the residue-array generator, unfinished, is left out", "the excitation method assembles matrices of distinct determinants"])
h("G02", "exploration", [f"g02.cpp@PART={i}" for i in range(2)], """all electron numbers of 1..3 (4) orbitals x states (ground states, generic and single-determinant ones, partial lists) x one added or removed electron in every
  spin orbital: bases for every active set, 0..3 layers, four seed thresholds, six size limits; vectors for every set of spin orbitals and two lists of determinants; functions at four
  frequencies for single orbitals, pairs and all of one spin, from equal and different bases, of four Hamiltonians, by both Lanczos forms, with the files; lists over up to 31 orbitals. Nontrivial: all.""",
  attic=["bandlan", "eigsolver", "utils", "slaterdet", "combins"], flags=["-UNDEBUG"],
  assumptions=["one process", "the orbitals of one call are of one spin (the Hamiltonian generator takes determinants of one sector)", "the recursion is carried as far as the basis allows, or one or two steps (overlaps only)"])
h("G03", "exploration", "g03.cpp", """all input files of up to 3 (4) lines over 12 kinds of lines, with and without final newline and parameters set before; all lists of up to 4 (6) words; vector files with every number of
  announced up to 4 (5) and given values in three layouts; matrix files for every symmetric pattern of dimension 1..3 in 16 layouts, from either triangle, in two orders, malformed lines at every
  place; inner products and sums of up to 6 (9) elements on 1..3 threads, all chunk assignments and one preemption; 1000 values, dimension 64, 7 threads. Nontrivial: there is something to read.""",
  attic=["utils"], flags=["-UNDEBUG"])
h("G04", "exploration", "g04.cpp", """full spaces of up to 6 orbitals; contributions of every determinant of 1..4 (5) orbitals against second quantisation (with and without denominators, three thresholds);
  candidate lists: all sequences of up to 5 (6) over few determinants, lists of up to 4000; coefficient ordering; search in 13 sectors x 5 integral sets from every core of one or two determinants and
  larger ones, every limit, with and without double excitations, every number of impurity orbitals; both Davidson solvers on every sub-list; iterations, growth and refinement against single steps; rotations; full-CI, selected-CI and Green's
  function drivers from integral files, with the files they write. Nontrivial: there is an electron and more than one determinant.""",
  attic=["bandlan", "eigsolver", "utils", "slaterdet", "combins", "hamil", "rdms"], flags=["-UNDEBUG", "-D_GLIBCXX_DEBUG"],
  assumptions=["one process", "where couplings are 1e-9, any eigenpair counts", "Krylov space of at most 100 vectors", "wave functions are computed, not read (that path is unfinished)"])
h("G05", "model_checking", "g05.cpp", """own OpenMP runtime: for products and sums of 0..7 elements, assembled Hamiltonians of all sectors of 1..3 orbitals (both forms), continued fractions and band resolvents
  of matrices of dimension 1..5 with 1..3 vectors, and ladder vectors between all sectors: all thread priority orders on 2 and 3 threads with up to 1 (2) deviations at scheduling points, more threads in
  priority orders alone; every access of the regions is monitored (phase + lock-set race condition). states = distinct schedules. Nontrivial: more than one element.""",
  attic=["bandlan", "eigsolver", "utils", "slaterdet", "combins", "hamil", "rdms"], san="monitor",
  assumptions=["accesses inside precompiled library calls other than block copies are not monitored", "one process"])
h("Q01", "exploration", [f"q01.cpp@PART={i}" for i in range(4)], """every pattern of 8 (12) neighbouring positions at every place of widths 8..256 (15 widths, word boundaries and odd ones), complements and
  distant bits added; all sets of up to three positions; all pairs of patterns of 5 (6) positions at every place for the ordering; occupied/virtual lists for every number of
  orbitals; all masks; all texts of four neighbouring orbitals. Nontrivial: all.""", opt="-O2",
  assumptions=["first/last set bit of an empty string is undefined (zero, up to 64 bits, for the first)", "built with -O2 as the library is"])
h("Q02", "exploration", [f"q02.cpp@PART={i}" for i in range(4)], """all determinants of up to 5 (6) spatial orbitals (alpha x beta strings) in 64 and 128 bits, all strings of up to 7 (9) spin orbitals in
  widths 8..256, few electrons or holes at the upper end of the widths, all active-orbital subsets of 4..6 orbitals; all full spaces up to 6 (7) orbitals; signs and labels of all single and
  double excitations of all patterns of 8 (10) positions at every place and of far positions; reference determinants for all energy orders over three values. Nontrivial: all.""",
  opt="-O2", flags=["-UNDEBUG"], assumptions=["a list of active orbitals ascends", "assertions are on"])
h("Q03", "exploration", [f"q03.cpp@PART={i}" for i in range(2)], """all pairs of determinants with equal particle numbers of up to 5 (6) orbitals in 64 bits and 4 (5) in 128 bits, for integral sets that decide every linear form
  in the distinct integrals (exact arithmetic); every orbital energy and every incremental diagonal of every single and double excitation of every determinant; windows of four
  orbitals placed over 32 (64) orbitals; integrals replaced in place, wrong extents. Nontrivial: there is an electron, or a pair of determinants.""",
  opt="-O2", assumptions=["both determinants hold the same number of electrons of each spin", "integrals are contiguous"])
h("Q04", "model_checking", "q04.cpp", """every sub-list (two orders) of ten spaces of up to 9 determinants x three integral sets of small whole numbers (ties and zeros) x thresholds at, just below and
  between the magnitudes that occur x index and bit widths; all pairs of sub-lists of 5 (6) determinants; complete spaces up to 4 (5) orbitals; lists of more than 200 determinants; the distributed matrix of every
  sub-list on 1..4 (5) processes (empty ones included) under two process priorities. states = distinct call traces, transitions = MPI calls executed. Nontrivial: two
  determinants (distributed: one, on two or more processes).""",
  opt="-O2", assumptions=["a list holds no determinant twice and one particle sector", "threshold of at least zero"])
h("Q05", "exploration", [f"q05.cpp@PART={i}" for i in range(2)], """all pairs of determinants of every particle sector of up to 4 (5) orbitals in 64 and 128 bits, with and without the two-body matrix (the matrices are quadratic in the
  coefficients, so pairs decide all wave functions); complete spaces with four coefficient sets: traces and energy; 512 sub-lists of each of four spaces; rotation into natural orbitals of the
  ground states of six Hamiltonians in all sectors of up to 3 (4) orbitals. Nontrivial: there is an electron (for lists: two determinants).""",
  opt="-O2", assumptions=["bra and ket lists are the same list", "the arrays are zeroed by the caller and contiguous", "products of coefficients below 1e-16 do not contribute"])
h("Q06", "model_checking", [f"q06.cpp@PART={i}" for i in range(2)], """every sub-list of five spaces of up to 9 determinants x four Hamiltonians x 1..3 (4) processes (more processes than determinants included), serially, two
  widths, index types, subspace limits, starting vectors (absent, weak, confined to one process; varied with the case); every start on 1..4 (5) processes under all priorities; all
  orderings on four small spaces; 5..17 processes; lists up to a few hundred; active-space driver in all sectors of up to 4 orbitals for five Hamiltonians. states = distinct call traces, transitions = MPI calls executed. Nontrivial: two
  processes (lists: two determinants).""", opt="-O2",
  assumptions=["at least one determinant", "the lowest eigenvalue is due when the subspace may span the list and the starting vector overlaps the ground space; otherwise an eigenpair",
               "the driver's arrays are zeroed by the caller"])
h("A03", "exploration", [f"a03.cpp@PART={i}" for i in range(2)], """all candidate sequences up to length 5 (6) over three determinants x three scores in 64, 128 and 256 bits, pairs of bits in which three determinants differ, structured lists up to 4500 in five orders; coefficient
  sequences up to length 6 (7); contributions of 5 sectors x core spaces x size limits from one candidate up x four pruning tolerances, serial and by constraints on 1, 2 and 6 (1, 2, 3 and 6) processes, compared
  with exact sums. Nontrivial: two or more candidates.""", opt="-O2",
  assumptions=["each contribution may be dropped by pruning, alone or in a partial sum, when it is at most the tolerance"])
h("A02", "model_checking", [f"a02.cpp@PART={i}" for i in range(3)], """the split over 1..4 (5) processes at refinement levels 0..4 for all electron numbers of up to 6 (7) orbitals: every single string, many pairs and larger sets of strings; every string
  of the sector judged; larger orbital numbers up to the full width with up to six electrons (up to 16 processes); all triplets and quadruplets x all strings of 7 (8) orbitals; triplets at all heights of
  the widths 64, 128, 256: enumerated excitations, counts, work estimates against the definition. Nontrivial: a partly filled shell.""", opt="-O2",
  assumptions=["all strings hold the same number of electrons", "a string out of reach of single and double excitations needs no constraint"])
h("A01", "model_checking", [f"a01.cpp@PART={i}" for i in range(2)], """the estimates of all determinants (serial, and by constraints over 1..3 (4) processes x levels 0..3, with and without doubles, three
  screenings) and the search result (1..4 and 7 processes, limits from the size of the core to beyond the reachable space, with and without doubles, screening, pruning) for 30 sectors of 1..7
  orbitals x generic and lattice integrals x many cores (all up to three determinants for up to nine determinants; two of more than a hundred) in 64 and 128 bits; all completion modes and priorities of 2..3 (4)
  processes for small sectors; 32 orbitals; 5, 8 and 13 processes. Nontrivial: determinants outside the core.""", opt="-O2",
  assumptions=["no vanishing energy denominators", "elements below the screening threshold, by themselves or times the coefficient, may be left out", "equal estimates may be chosen freely"])
h("A04", "model_checking", [f"a04.cpp@PART={i}" for i in range(2)], """one iteration for 10 sectors of 2..6 orbitals x three sets of integrals x lists of 1..8 determinants in three orders x sizes of the
  core x 1..3 and 7 processes; growth from 1..4 determinants for all combinations of growth factor, least size and core size to seven sizes up to beyond the sector; growth with natural-orbital
  rotations starting at four sizes, some on 6 and 9 processes; growth and refinement against the same iterations one by one on one process; refinement of lists of 1..13 determinants with 0..8 iterations; all completion modes and priorities of 2..3 (4) processes for some. Nontrivial: all.""",
  opt="-O2", macis=["transform"],
  assumptions=["no vanishing energy denominators", "the lowest eigenvalue is due when the determinant of lowest energy overlaps the ground state; otherwise an eigenpair"])
h("O01", "exploration", ["o01.cpp"], """all splits of 1..4 (5) orbitals x all basis integrals (several per run at different scales, compared exactly) x all symmetric one-body and two-body
  density elements x four paddings; all splits of 1..5 (6) orbitals x all active electron numbers with a generic wave function: energies and every element of the active Hamiltonian
  against the full Hamiltonian; sixteen splits of 7..36 orbitals. Nontrivial: there are active orbitals.""", opt="-O2", macis=["fock_matrices", "orbital_energies"],
  assumptions=["density matrices have the symmetry of a real wave function", "the two-body density carries the factor one half"])
h("O02", "exploration", ["o02.cpp"], """all generators over three values for 1..4 orbitals x three scales, generic ones to 30 orbitals x eight scales; packing of every unit matrix for all splits of 1..6 (8)
  orbitals; one-index transformation of every unit array by every unit matrix for 1..3 orbitals, generic ones to 18; some splits to 40 orbitals; all splits of 1..4 (5) orbitals x all active electron numbers x two sets of integrals:
  gradients and Hessian products along every rotation against exact derivatives of the rotated energy; nine splits of 6..10 orbitals; four paddings. Nontrivial: there are rotations.""", opt="-O2",
  macis=["fock_matrices", "orbital_gradient", "orbital_hessian", "orbital_rotation_utilities", "orbital_steps", "transform"],
  assumptions=["density matrices have the symmetry of a real wave function", "the gradient handed to the Hessian product has the packed rotations only; it is the Hessian where the others vanish"])
h("O03", "exploration", ["o03.cpp"], """all splits of 1..4 (5) orbitals into occupied and virtual ones x every distinct integral x four paddings (amplitudes); every pair of occupied-virtual integrals (they
  decide the density matrix, which is quadratic in the amplitudes); generic integrals for all splits of 1..6 (7) orbitals x three strengths: density matrix against the first-order wave function in
  determinants, energy, natural orbitals; thirteen splits of 8..31 orbitals. Nontrivial: occupied and virtual orbitals.""", opt="-O2", macis=["moller_plesset", "orbital_energies"],
  assumptions=["no vanishing energy denominators", "all orbitals are occupied or virtual"])
h("O04", "model_checking", ["o04.cpp"], """all splits of 1..4 (5) orbitals x all active electron numbers x five model Hamiltonians x four sources of the first density matrices x extrapolation on/off x two step limits
  x paddings; every number of iterations 0..8 for up to 3 (4) orbitals; 1..3 (4) processes; all completion modes and priorities for 24 runs; ten splits of 5..9 orbitals. Final orbitals are observed at the integral transformation.
  states = distinct call traces, transitions = MPI calls executed. Nontrivial: there are rotations.""", opt="-O2",
  macis=["fock_matrices", "orbital_gradient", "orbital_hessian", "orbital_rotation_utilities", "orbital_steps", "transform", "casscf", "fcidump"],
  libs=["-Wl,--wrap=_ZN5macis19two_index_transformEmmPKdmS1_mPdm"], assumptions=["energies at or below the start, and convergence, are due for generic gapped Hamiltonians whose approximate curvature is positive at the start (the method is a quasi-Newton search without a line search)", "the lowest state in the final orbitals is due where no symmetry hides it from the solver"])

h("O05", "model_checking", "o05.cpp", """all sequences of one and two (three over two, thorough three, values; four over two values) updates with vectors over 2..5 values in 1..3 dimensions and all periodic histories of 130 (300) updates in up to 8 dimensions x five initial approximations,
  every element of the approximated inverse compared with the dense recursion; three line searches on eleven functions x all starting points of a grid x up to five directions x eight lengths x first steps;
  the driver on these functions and on all positive definite quadratics over small alphabets in 1..3 dimensions, further functions of 4..8 (12) dimensions, watched update by update, every iteration limit up to the one needed. states = approximations
  compared, transitions = updates. Nontrivial: a step is taken.""",
  assumptions=["a backtracking or Wolfe search has to succeed where the slope is not vanishing against the curvature (backtracking: a factor of 1e5, Wolfe: 200)", "success is due on positive definite quadratics"])
h("H01", "model_checking", [f"h01.cpp@PART={i}" for i in range(3)], """35 operations over the whole library x four inputs each (three with arrays of equal sizes, one larger and padded). A reference answer comes from
  a process that made this call only. All ordered pairs of calls, in blocks that repeat one call around every input of another operation; all sequences of 4 (5) calls of each operation; rounds over all operations in both
  directions from every starting point; all sequences of 4 (5) out of ten questions and changes to one Hamiltonian generator against a fresh generator over the present integrals. transitions = calls made. Nontrivial: all.""", opt="-O1",
  macis=["fock_matrices", "moller_plesset", "orbital_energies", "orbital_gradient", "orbital_hessian", "orbital_rotation_utilities", "orbital_steps", "transform", "casscf", "fcidump"],
  assumptions=["answers are compared up to 1e-12 for moved data to 1e-5 for iterative searches"])
