# what each check generates and what decides; the bounds are the vf:assume lines of the harnesses
ORACLE = {
"C01": "Random and special products (1-3 arithmetic indices, real, complex, integer prefactors, list/deque containers, non-empty output, lengths 0-6, coinciding indices). Oracle: both sides as matrices on the Fock space of all modes that occur (Jordan-Wigner, `fock.hpp`); old entries and inputs compared before and after.",
"C02": "The same with string indices, alone and mixed with arithmetic ones. Every produced delta list is evaluated under assignments of modes to the symbols (all of them for few symbols) and the sum compared with the Fock-space commutator of the assigned operators.",
"C03": "Runs both programs, parses every line back into prefactor, deltas, operators, and compares each announced commutator with the Fock-space commutator of the parsed Hamiltonian terms under index assignments.",
"C04": "Structural adjoint written independently, Fock-space matrix adjoint for short products, involution, anti-homomorphism, is_conjugate against equality with the structural adjoint on near misses; conjugates and copies of all bases.",
"C05": "Histories of `*`, `*=`, self-multiplication, chains with mixed types against a list model; operands compared bit by bit.",
"C06": "Operators of 1-5 indices of many types made by all constructors and factories; accessors, writes through get_index, comparisons on pairs that differ in exactly one component.",
"C07": "Trichotomy, irreflexivity, transitivity on all triples of small domains (exhaustive for two-index operators) and on sampled long terms; sorting with the comparators terminates and gives one order.",
"C08": "Term lists with many equal products; the sum of prefactors per product before and after, uniqueness, no vanishing terms, swapped lists against a map model.",
"C09": "All permutations and orientations of short delta lists, sampled long ones, must reach one canonical list; equality is symmetric under exchange of the indices.",
"C10": "Prints objects with stress on stream state, parses the text with an independent grammar and compares with the object; different objects print differently.",
"C11": "Conservation counters (spin, momentum) in any index position against a direct count over the operators, total momentum modulo the lattice.",
"C12": "Every pair of sites on small chains, sampled pairs on chains of up to 2^50 sites, several index types: symmetry, degree, ring closure, breadth-first distances.",
"C13": "Round trips position -> index -> position, periods away from the cell, values between sites decided by exact rational arithmetic in extended precision.",
"C14": "As C12 on square lattices of any aspect ratio, against an explicit torus graph.",
"C15": "As C13 in two dimensions with different spacings and sizes.",
"C16": "Model-based histories of all random-access operations, const and writable, against a plain integer; ranges with standard algorithms, reverse order, swap.",
"C17": "Closed forms of the band in extended precision, minima/maxima, access by index, position and operator; Fermi momentum against the filling it has to produce.",
"C18": "Momentum conservation of every element, completeness and uniqueness against the enumerated set of momenta, element 0, index formulas; complete for all small sizes.",
"C19": "Bijection between index and monomial, lookup of every element and of operators that are none, on all small lattices and sampled large ones.",
"C20": "Histories of creation and annihilation against an explicit occupation set; Pauli violations, restored seas, excited particles and holes.",
"C21": "Wick oracle over the explicit sea (`sea.hpp`): every pair of basis elements either reported with its value or vanishing.",
"C22": "Double sum over the basis with sea expectation values in extended precision, several vectors interleaved.",
"C23": "Direct sums over the occupied momenta in extended precision, every distance, both dimensions, all fillings.",
"C24": "Quasi-free (Wick) evaluation of <O^dagger n O>, closed forms at large size, Slater determinants on small chains, histories with changing coefficients on one evaluator.",
"C25": "The defining Fourier sum, site by site, over histories of vectors; much larger lattices with sparse coefficients.",
"C26": "The same for the normal-ordered basis.",
"C27": "Matrix entries from traces over the Fock space (exact) on lattices up to five sites, an independent closed form, validated by the traces, beyond; every entry compared.",
"C28": "Free-fermion propagator from a dense eigen-decomposition; norm and number conserved over many steps; hubbard_real_1d_kinetic_theory's output against a direct evaluation.",
"C29": "As C27 in momentum space, for the Hubbard band and for arbitrary dispersions.",
"C30": "Normal-ordered commutators from a generated Wick oracle (contractions with arbitrary correlation functions, and the real ground states), every entry.",
"C31": "The matrix stand-in checks every reserve/append/finalize call; triplet lists against a map model, order, merging, cancellation; assembled matrices against dense sums.",
"C32": "Each step against the fourth-order Taylor polynomial in extended precision, with several systems interleaved through the same integrator types.",
"C33": "Function matrices against the dense matrices they describe; predicates against entry-wise definitions with differences near the tolerance; the inner product in extended precision.",
"C34": "Real/imaginary part, conjugate, predicates against definitions; equality at, above and below tolerances for all value types.",
"C35": "ThreadSanitizer over every parallel region and all programs, with an OpenMP runtime stand-in that adds delays, reorders chunks and offers 1-8+ threads; results of all thread counts compared; concurrent read-only callers.",
"C36": "Own workload plus the workloads of the other monitors under (a) gcc ASan+UBSan with libstdc++ debug mode, (b) clang ASan+UBSan (gcc's does not instrument std::complex accesses through memcpy-like moves), (c) memcheck for uninitialised reads, also over the programs; assertions, hangs and leaks of file handles count.",
"C37": "Output files of all time-evolution programs, for sampled command lines, thread counts and left-over files, against a reference simulator that shares no code with the library; the matrix file of the momentum program; hubbard_trivial's 2001 lines.",
"C38": "Schedule oracle in exact rational arithmetic over the recorded times; header lines parsed.",
"C39": "Groups of equivalent invocations must give identical outputs, faulty ones an error and no output file.",
"C40": "Character-level parser; streams of random bytes; interrupted output files of all shapes cleaned and compared line by line.",
"C41": "All 1024 lines against the closed form, several thread counts, old files of several lengths.",
"C42": "Facts from the compilers, headers and operating system (in an own UTS namespace where possible, so that the host name varies); the directory before and after each invocation.",
"C43": "A child is killed with ptrace at every (or a sampled) file operation, also with a torn write; the left-over files are checked offline. Time-evolution programs are treated the same way. 300-1500 (thorough: 66000) checkpoints in a row.",
"C44": "Tables of the traits of every listed type, run-time dimensions of objects, inserted elements against a map, messages and strings of random bytes against concatenation.",
}
