# id, title, statement, over, quantifier text, why tests can't, files, mechanism, observe_at, technique, note
MON = "runtime monitoring: "
SAN = " under ASan+UBSan"

# ------------------------------------------------------------------ algebra
P("C01", "Commutators of concrete operator products are exact",
  "For any two terms of fermionic creators and annihilators with concrete (arithmetic) indices, of which at least one has an even number of operators, commutate appends to the output container a list of terms whose sum equals the operator commutator [A,B] = AB - BA, for every choice of operators, repeated indices, number of indices per operator, prefactor type and prefactor value, including empty operator lists. Entries already in the container and both inputs are left untouched.",
  ["inputs"], "every pair of terms (lengths 0..6, 1, 2 or 3 arithmetic indices, real or complex prefactors) with an even product of lengths",
  "No existing test calls commutate at all; a wrong sign or a swapped operator appears only for particular lengths, positions and coincidences of indices.",
  [I + "algebra/commutator.hpp", I + "algebra/anticommutator.hpp"],
  [("commutate", I + "algebra/commutator.hpp"), ("anticommutates", I + "algebra/anticommutator.hpp")],
  ["output container of commutate"],
  MON + "brute-force Fock-space (Jordan-Wigner) oracle over generated commutators" + SAN,
  "Every evaluated commutator is compared with the exact matrix commutator on a Fock space holding all its modes; covers the generated cases only.")

P("C02", "Symbolic commutators are exact under every index assignment",
  "For terms whose operators carry symbolic (string) indices, alone or mixed with arithmetic ones such as spins, the terms produced by commutate, with every Kronecker delta in a prefactor read as equality of the two named indices, sum to [A,B] for every assignment of values to the symbols. A delta never appears between two indices that are spelled the same, and operators whose arithmetic indices differ contribute no term.",
  ["inputs"], "every pair of symbolic terms with an even product of lengths and every assignment of the symbols to modes",
  "No test exercises the symbolic path; the identity quantifies over all assignments of the symbols.",
  [I + "algebra/commutator.hpp", I + "algebra/anticommutator.hpp", I + "algebra/kronecker.hpp", I + "symbolic/prefactor.hpp"],
  [("anticommutator", I + "algebra/anticommutator.hpp"), ("make_kronecker", I + "algebra/kronecker.hpp")],
  ["prefactor.kroneckers and operators of the produced terms"],
  MON + "every produced delta list evaluated on index assignments against a Fock-space oracle" + SAN,
  "Assignments are enumerated completely for small symbol sets and sampled beyond that.")

P("C03", "The commutator programs print the Liouvillian's action correctly",
  "The programs hubbard_commutators_real_space and hubbard_commutators_momentum_space print, for each basis operator they announce, commutators of the Hubbard Hamiltonian's terms with that operator whose sum is the true commutator, for every assignment of site or momentum values to the printed index names. The printed text is well formed: every line parses back to a prefactor, Kronecker deltas and operators.",
  ["inputs", "programs"], "every line printed by the two programs and every assignment of the printed symbols to modes",
  "The programs are built but never run by the test suite.",
  ["src/hubbard/hubbard_commutators_real_space.cpp", "src/hubbard/hubbard_commutators_momentum_space.cpp", I + "algebra/commutator.hpp", I + "algebra/term/io.hpp"],
  [("main", "src/hubbard/hubbard_commutators_real_space.cpp"), ("main", "src/hubbard/hubbard_commutators_momentum_space.cpp")],
  ["standard output of the programs"],
  MON + "the programs' output is parsed and evaluated on a Fock space",
  "Decides the fixed output of the two argument-less programs; assignments enumerated over small mode sets.")

P("C04", "Conjugation is the Hermitian adjoint and an involution",
  "For every operator, monomial, term and basis, conjugation (in place and by copy) yields the Hermitian adjoint: creators and annihilators swap, the order of a product reverses, indices stay and prefactors are complex-conjugated; applying it twice restores the original and (AB)^dagger = B^dagger A^dagger. is_conjugate(x, y) holds exactly when y equals the adjoint of x.",
  ["inputs"], "every operator, monomial and term of any length (including empty), any index types and any real or complex prefactor, and the momentum- and real-space bases",
  "Tests check a handful of fixed operators and one monomial; Term conjugation and bases are never conjugated by a test.",
  [I + "algebra/operator/operator.hpp", I + "algebra/monomial/monomial.hpp", I + "algebra/term/term.hpp", I + "types/number/complex.hpp", I + "models/hubbard_real_space/basis.hpp", I + "models/hubbard_momentum_space/basis.hpp"],
  [("conjugate/get_conjugate/is_conjugate", I + "algebra/monomial/monomial.hpp"), ("Term::conjugate", I + "algebra/term/term.hpp")],
  ["return values of conjugate, get_conjugate, is_conjugate"],
  MON + "adjoint oracle (structural and Fock-space matrix adjoint)" + SAN,
  "Compares with an independent structural adjoint and, for short products, with the conjugate-transposed Fock-space matrix.")

P("C05", "Products concatenate operators and multiply prefactors",
  "Multiplying monomials or terms, in place or by value, produces exactly the left operand's operators followed by the right operand's, with prefactors multiplied (symbolic prefactors multiply their values and collect both lists of Kronecker deltas), for every length. The operands of the by-value product are unchanged, the right operand of the in-place product is unchanged, and multiplying an object by itself behaves as multiplying by a copy; products are associative.",
  ["inputs", "histories"], "every pair and chain of monomials, terms and symbolic prefactors, including empty ones and self-multiplication",
  "The test multiplies one pair of fixed monomials once and never aliases.",
  [I + "algebra/monomial/monomial.hpp", I + "algebra/term/term.hpp", I + "symbolic/prefactor.hpp"],
  [("operator*=", I + "algebra/monomial/monomial.hpp"), ("operator*=", I + "algebra/term/term.hpp"), ("operator*=", I + "symbolic/prefactor.hpp")],
  ["operands and results of * and *="],
  MON + "reference-model comparison over random product histories" + SAN,
  "Sampled histories; exact comparison.")

P("C06", "Operator identity and index access agree for every index count",
  "An operator made by any constructor or factory (make_creator/make_annihilator free or static, from lvalues or rvalues) carries exactly the given indices and kind, and get_index, get_indices and index_tuple return them in order, for one, two, three or more indices of any types; writes through get_index are seen by all accessors. Two operators compare equal exactly when kind and all indices are equal, same_indices ignores the kind only, and != is the negation of ==. Two products (monomials) compare equal exactly when they have equal operators in the same order.",
  ["inputs"], "every number and type of indices and every pair of operators, including pairs differing in exactly one component",
  "Tests sample a few pairs; an accessor or comparison dropping one index of one specialisation shows only on pairs differing in that index.",
  [I + "algebra/operator/operator.hpp", I + "algebra/operator/get_index.hpp", I + "algebra/operator/make.hpp", I + "algebra/operator/is_symbolic.hpp", I + "algebra/operator.hpp"],
  [("Operator", I + "algebra/operator/operator.hpp"), ("get_index", I + "algebra/operator/get_index.hpp")],
  ["comparison results and accessor values"],
  MON + "tuple reference model" + SAN, "Sampled plus exhaustive small index domains.")

P("C07", "Operator and term orders are strict total orders consistent with equality",
  "OperatorSmaller and TermSmaller are strict total orders: irreflexive, asymmetric, transitive, and exactly one of a<b, b<a, a equals b holds (for terms: equality of the operator lists); OperatorGreater and TermGreater are their exact reverses. Creators sort before annihilators and then indices lexicographically; terms sort by length and then lexicographically by operator.",
  ["inputs"], "all pairs and triples of operators with 1, 2, 3 or more indices and of terms of any length",
  "No test uses the orders; transitivity quantifies over triples.",
  [I + "algebra/operator/order.hpp", I + "algebra/term/order.hpp"],
  [("OperatorSmaller/OperatorGreater", I + "algebra/operator/order.hpp"), ("TermSmaller/TermGreater", I + "algebra/term/order.hpp")],
  ["comparator results, result of std::sort with them"],
  MON + "order-axiom monitor over exhaustive small domains and random triples" + SAN,
  "Exhaustive over small index domains, sampled for larger ones.")

P("C08", "Collecting terms preserves the sum and leaves no duplicates",
  "copy_as_unique_terms appends to the result the sorted list of distinct operator products occurring in the input, each exactly once, with the prefactor equal to the sum of the prefactors of its occurrences, for every input order, multiplicity and container type. Content already in the result container and the input are untouched.",
  ["inputs"], "every list of terms, including empty lists, all-equal lists and empty operator products",
  "The function is not called (and originally not instantiable) in any test.",
  [I + "algebra/term/list.hpp", I + "algebra/term/order.hpp"],
  [("copy_as_unique_terms", I + "algebra/term/list.hpp")],
  ["result container"],
  MON + "map-based reference model" + SAN, "Sampled inputs; exact (integer-valued prefactors) comparison.")

P("C09", "Kronecker deltas are symmetric and reach one canonical order",
  "Kronecker deltas compare equal regardless of argument order, and order() puts the smaller name first. order_kroneckers brings the deltas of a prefactor into one canonical sequence (each pair ascending, the list sorted) that depends only on the multiset of deltas, never on the order or orientation they were multiplied in, keeps that multiset and the value, and is idempotent.",
  ["inputs", "histories"], "every multiset of deltas in every permutation and orientation",
  "No test touches Kronecker deltas or symbolic prefactors.",
  [I + "algebra/kronecker.hpp", I + "symbolic/prefactor.hpp"],
  [("order_kroneckers", I + "symbolic/prefactor.hpp"), ("Kronecker::order", I + "algebra/kronecker.hpp")],
  ["prefactor.kroneckers after order_kroneckers"],
  MON + "canonical-form oracle over permutations/orientations" + SAN, "Sampled and small exhaustive permutations.")

P("C10", "Printed algebra objects determine the object",
  "Printing an operator, monomial, term, symbolic prefactor, Kronecker delta, symbolic index or tuple writes exactly its components in order and nothing else: daggers exactly on creators, spin indices as arrows, all indices separated by commas, operators separated by single blanks, empty products printing no operator, unit prefactors in front of deltas suppressed or reduced to a sign. compose() concatenates the printed forms of its arguments; printing never changes the object or the stream's format.",
  ["inputs"], "every object of every length and index arity, including empty monomials and terms",
  "No test prints anything; wrong component order shows only for 3 or more indices.",
  [I + "algebra/operator/io.hpp", I + "algebra/monomial/io.hpp", I + "algebra/term/io.hpp", I + "algebra/kronecker.hpp", I + "symbolic/prefactor.hpp", I + "symbolic/index.hpp", I + "tuple.hpp", I + "string.hpp"],
  [("operator<<", I + "algebra/operator/io.hpp"), ("print_tuple", I + "tuple.hpp")],
  ["text written to the stream"],
  MON + "independent renderer oracle" + SAN, "Sampled objects; exact text comparison.")

P("C11", "Conserved quantities of a term are counted correctly",
  "total_creations, total_spin and total_momentum of a term equal the sum over its operators of +x for creators and -x for annihilators, with x being 1, +1/-1 for spin up/down and the operator's lattice momentum. They change sign under conjugation and add under products, and every term produced by commutating with the number-, spin- and momentum-conserving Hubbard Hamiltonian keeps them (momentum modulo a reciprocal lattice vector).",
  ["inputs"], "every term of any length, and every commutator of a conserving Hamiltonian term with a basis element",
  "The functions are never instantiated by a test.",
  [I + "algebra/term/checks.hpp"], [("total_momentum/total_spin/total_creations", I + "algebra/term/checks.hpp")],
  ["return values"],
  MON + "direct-sum oracle and conservation monitor over commutators" + SAN, "Sampled terms and lattices.")

# ------------------------------------------------------------------ lattices
P("C12", "The periodic chain's neighbour relations form a ring",
  "For every chain length N >= 1 and site i, neighbors(i) are the two sites i-1 and i+1 modulo N, unique_neighbors lists each bond of the ring once, neighboring(a,b) holds for distinct sites exactly when they are joined by a bond and is symmetric, and lattice_distance is the length of the shortest path on the ring. Iterating the chain visits 0..N-1 in order exactly once, and first/last/size agree with it.",
  ["inputs"], "every chain length and every pair of sites, for every index type",
  "Tests use one chain of fixed size; wrap-around behaviour for N=1,2, odd and even N is not sampled.",
  [I + "lattices/periodic_chain.hpp"], [("neighbors/neighboring/lattice_distance", I + "lattices/periodic_chain.hpp")],
  ["return values of the lattice queries"],
  MON + "graph (BFS) reference model, exhaustive per size" + SAN, "Exhaustive over all pairs for the sizes run.")

P("C13", "Chain site positions and position lookup are inverse",
  "On a momentum chain of N sites (covering one period of 2*pi from -pi) and on a real-space chain with any spacing, operator() maps the position of site i, shifted by any number of periods and by any rounding-size error, back to i, and always returns a valid site whose position is nearest to the argument modulo the period. closest() returns a site of minimal periodic distance to any position; x_min, x_length, dx and the lattice vector describe that same grid.",
  ["inputs"], "every chain length, spacing, site and finite real-valued position within a moderate number of periods, including positions on and next to the period boundary",
  "Tests look up a few exact grid points; boundary positions and values between the last site and the period end are not sampled.",
  [I + "lattices/periodic_chain.hpp", I + "constants.hpp"], [("operator()/operator[]/closest", I + "lattices/periodic_chain.hpp")],
  ["return values"],
  MON + "exact periodic-distance oracle on boundary-biased positions" + SAN, "Sampled sizes/spacings/positions.")

P("C14", "The square lattice's neighbour relations form a torus, square or not",
  "For every Nx x Ny lattice, index(x,y) numbers the sites bijectively 0..Nx*Ny-1 with x_index and y_index as inverse; neighbors are the four sites (x-1,y),(x,y-1),(x+1,y),(x,y+1) modulo the edge lengths, unique_neighbors covers each bond once, neighboring(a,b) holds for distinct sites exactly when b is a neighbour of a, and the axis distances are the shortest path lengths along the axis. Iteration visits every site exactly once and first/last/size are consistent.",
  ["inputs"], "every pair of edge lengths (equal or not) and every pair of sites",
  "The only 2D lattice test needs Blaze and is not built here; it uses one fixed lattice.",
  [I + "lattices/periodic_square_lattice.hpp"], [("index/x_index/y_index/neighbors", I + "lattices/periodic_square_lattice.hpp")],
  ["return values"],
  MON + "graph reference model, exhaustive per size" + SAN, "Exhaustive over all pairs for the sizes run; Blaze's StaticVector is a stand-in.")

P("C15", "Square-lattice positions and position lookup are inverse",
  "On square lattices of any edge lengths, in momentum space or real space with any spacings, operator() maps the position of every site, shifted by any periods along each axis and by rounding-size errors, back to that site, and always returns a valid site nearest to the argument modulo the periods. closest() returns a site of minimal periodic distance; the lattice vectors, spacings and extents describe that same grid.",
  ["inputs"], "every pair of edge lengths and spacings, site and finite position within a moderate number of periods, including positions on and next to the period boundary",
  "Not built here; upstream samples one square lattice.",
  [I + "lattices/periodic_square_lattice.hpp"], [("operator()/operator[]/closest", I + "lattices/periodic_square_lattice.hpp")],
  ["return values"],
  MON + "exact periodic-distance oracle on boundary-biased positions" + SAN, "Sampled; Blaze's StaticVector is a stand-in.")

P("C16", "Integer iterators obey the random-access iterator laws",
  "An integer iterator over any integer type behaves as a position on the number line: increments and decrements (prefix and postfix), +=, -=, +, -, indexing, differences, comparisons, swap, copy and assignment all agree with integer arithmetic on the value it dereferences to, in any sequence of operations. Lattice ranges can therefore be walked forwards, backwards and with jumps, and used with standard algorithms.",
  ["inputs", "histories"], "every sequence of iterator operations on every value and integer type",
  "No test uses the iterator beyond range-for.",
  [I + "iterators/integer_iterator.hpp"], [("IntegerIterator", I + "iterators/integer_iterator.hpp")],
  ["dereferenced values after each operation"],
  MON + "integer reference model over random operation histories" + SAN, "Sampled histories.")

# ------------------------------------------------------------------ models
P("C17", "The dispersion is the tight-binding band on every lattice",
  "For every lattice, hopping J and momentum k of the momentum grid, the dispersion evaluates to -2J times the sum over lattice vectors a of cos(k.a), in one and two dimensions, for any lattice spacing and any number of threads. It is bounded by 2|J| times the number of lattice vectors, even under k -> -k, linear in J, and calculate_fermi_momentum_1d(n) is n*pi.",
  ["inputs", "configurations", "schedules"], "every lattice size and spacing, hopping value, momentum index and thread count",
  "Tests evaluate one size with J=1; two-dimensional dispersion is not built here.",
  [I + "models/hubbard/dispersion.hpp"], [("Dispersion", I + "models/hubbard/dispersion.hpp")],
  ["values of the dispersion"],
  MON + "closed-form oracle across sizes, J and thread counts" + SAN, "Sampled; tolerance 1e-12 relative.")

P("C18", "The momentum-space basis conserves momentum and is complete",
  "The momentum-space basis for momentum q on a chain or square lattice of N momenta consists of c^dagger_{q,up} followed by N^2 three-operator products c^dagger_{k1,up} c^dagger_{k2,down} c_{k3,down}, one for each (k1,k2), with k3 = k1+k2-q modulo 2*pi in every direction, so each element carries total momentum q, spin +1 and one net creation. The three-operator index lookup is the bijection onto the positions of these elements. get_conjugate() holds the conjugate of every element, in the same order.",
  ["inputs"], "every chain length, square lattice shape and momentum index q",
  "No test builds the basis for more than one size, or checks conservation.",
  [I + "models/hubbard_momentum_space/basis.hpp", I + "lattices/periodic_chain.hpp"],
  [("Basis3Operator", I + "models/hubbard_momentum_space/basis.hpp")],
  ["basis elements"],
  MON + "integer modular-arithmetic oracle, exhaustive per (N,q)" + SAN, "Exhaustive per size for the sizes run (N up to 40).")

P("C19", "The real-space bases are complete and indexed bijectively",
  "On every lattice (chain or square), the one-operator basis lists c^dagger_{i,up} for every site in site order, and the three-operator basis lists these N elements followed by all N^3 products c^dagger_{i,up} c^dagger_{j,down} c_{k,down} in lexicographic order, each exactly once. get_3op_index(i,j,k) is the position of that product. Copies and get_conjugate() keep that numbering, the latter with the conjugate of every element the basis has at that moment, for a basis that is itself a conjugate or was changed, too.",
  ["inputs"], "every lattice kind and size",
  "Tests check one small chain.",
  [I + "models/hubbard_real_space/basis.hpp"], [("Basis1Operator/Basis3Operator", I + "models/hubbard_real_space/basis.hpp")],
  ["basis elements and index lookups"],
  MON + "enumeration oracle, exhaustive per size" + SAN, "Exhaustive per size.")

P("C20", "Excited Fermi seas track occupations exactly over any history",
  "After any sequence of creations, annihilations, single-operator and whole-product applications (rightmost factor first) on a filled Fermi sea, the state vanishes exactly when some step created an occupied or annihilated an empty mode, and otherwise its lists of created and annihilated particles are exactly the modes whose occupation differs from the initial one, each once. is_initial_fermi_sea holds exactly when the state is non-vanishing and equal to the initial sea, modes are initially filled exactly when their energy lies below the Fermi energy, and a vanished state stays vanished.",
  ["histories", "inputs"], "every history of operations, every dispersion and Fermi energy, every index arity",
  "Tests apply a few operators to one sea; cancellations and re-creations over long histories are not covered.",
  [I + "models/hubbard_momentum_space/excited_fermi_sea.hpp"], [("ExcitedFermiSea", I + "models/hubbard_momentum_space/excited_fermi_sea.hpp")],
  ["vanishes, created_particles, annihilated_particles after each step"],
  MON + "occupation-number reference model checked after every step of random histories" + SAN, "Sampled histories, exact comparison.")

P("C21", "Non-vanishing expectation values are complete and correct",
  "For every chain length or square lattice shape, momentum, dispersion and Fermi energy, the table of non-vanishing expectation values lists exactly the pairs (i,j) of basis elements with a non-zero ground-state expectation value <FS| L_i L_j^dagger |FS>, once each and with that value, where L_0 = c^dagger_{q} and L_i = 2 c^dagger c^dagger c + delta_{k2,k3} c^dagger for three-operator elements. The table is symmetric in value under exchanging i and j, and sort() orders it lexicographically without changing its content.",
  ["inputs"], "every N, q, filling (Fermi energy) and dispersion",
  "One test compares one N=3 table.",
  [I + "models/hubbard_momentum_space/non_vanishing_expectation_values.hpp", I + "models/hubbard_momentum_space/excited_fermi_sea.hpp"],
  [("NonVanishingExpectationValues", I + "models/hubbard_momentum_space/non_vanishing_expectation_values.hpp")],
  ["the table"],
  MON + "occupation-number/Fock-space oracle over N, q and Fermi energies" + SAN, "All (i,j) pairs checked per configuration; configurations sampled.")

P("C22", "The momentum-space particle number is the ground-state expectation value",
  "For every coefficient vector h, the particle number functional equals sum_ij h_i conj(h_j) <FS| L_i L_j^dagger |FS>, which is real and non-negative, at any scale of h. Right after start (h = first unit vector) it equals 1 for an initially filled momentum and 0 otherwise; scaling h by a complex factor z scales it by |z|^2.",
  ["inputs"], "every chain or square lattice, q, Fermi energy and complex coefficient vector, including very large and very small ones",
  "The test evaluates fixed tiny vectors.",
  [I + "models/hubbard_momentum_space/particle_number.hpp", I + "types/number/complex.hpp", I + "types/number/is_zero.hpp"],
  [("ParticleNumber", I + "models/hubbard_momentum_space/particle_number.hpp")],
  ["value returned for a coefficient vector"],
  MON + "quadratic-form oracle built from Fock-space expectation values" + SAN, "Sampled vectors.")

P("C23", "Real-space ground-state expectation values match the Fermi sea",
  "For every lattice and pair of sites, the 1D ground-state expectation value is the filling factor on-site and sin(k_F d)/(pi d) at separation d = lattice distance times spacing, and the 2D half-filled one equals the infinite-lattice half-filled Fermi-sea value 1/2 on-site and 2/pi^2 * sin(pi s/2)/s * sin(pi t/2)/t with s = dx+dy, t = |dx-dy| (the t -> 0 limit on the diagonal). Both are symmetric, depend only on the lattice distance, and do not depend on the number of threads.",
  ["inputs", "configurations", "schedules"], "every lattice size, spacing, filling, k_F and pair of sites; all thread counts",
  "Tests compare one chain; the 2D function is not built here.",
  [I + "models/hubbard_real_space/expectation_value.hpp", I + "models/hubbard/dispersion.hpp"],
  [("ExpectationValue1DHalfFilled/ExpectationValue2DHalfFilled", I + "models/hubbard_real_space/expectation_value.hpp")],
  ["returned expectation values"],
  MON + "closed-form and numerical-integral oracle" + SAN, "Sampled; all pairs per lattice.")

P("C24", "Site occupation equals the quasi-free ground-state expectation value",
  "For every coefficient vector h and ground-state correlation function, the site occupation equals one half of the Wick-factorised expectation value of h's operator times its adjoint, sum_ij h_i conj(h_j) <B_i B_j^dagger>/2, with the normal-ordered three-operator elements 2 c^dagger(2 c^dagger c - delta)-style normalisation, for one- and three-operator bases. Exploiting inversion symmetry gives the same value as the full sum whenever the correlation function is symmetric, the value does not depend on the number of threads, and evaluation never fails for large or small h.",
  ["inputs", "schedules", "configurations"], "every lattice size, correlation function, coefficient vector, symmetry mode and thread count",
  "The test evaluates a few matrix elements for N=4.",
  [I + "models/hubbard_real_space/site_occupation.hpp", I + "types/number/complex.hpp"],
  [("SiteOccupation", I + "models/hubbard_real_space/site_occupation.hpp")],
  ["returned occupation, expectation_value(a,b)"],
  MON + "quasi-free-state (Wick/Fock-space density matrix) oracle" + SAN, "Sampled vectors and correlations; thread counts 1..8.")

P("C25", "The Fermi jump equals its defining Fourier sum",
  "For every lattice, Fermi momentum k_F, correlation function and coefficient vector h, the Fermi jump (1D and 2D) equals |sum_i e^{i k_F r_i} h_i^NO|^2 with h_i^NO = h_i + sum_jk (2<c_j^dagger c_k> - delta_jk) h_ijk (just h_i for the one-operator basis). Every evaluator object gives this result independently of other evaluators used before, after or interleaved with it, of the number of threads and of how often it is called, and does not modify h.",
  ["inputs", "histories", "schedules"], "every lattice, k_F, correlation, vector, thread count and interleaving of evaluators of different sizes",
  "The test evaluates one object of one size; state leaking between evaluators of different sizes cannot show.",
  [I + "models/hubbard_real_space/fermi_jump/1d.hpp", I + "models/hubbard_real_space/fermi_jump/2d.hpp"],
  [("FermiJump1D::operator()", I + "models/hubbard_real_space/fermi_jump/1d.hpp"), ("FermiJump2D::operator()", I + "models/hubbard_real_space/fermi_jump/2d.hpp")],
  ["returned value"],
  MON + "direct-sum oracle over interleaved evaluator histories" + SAN, "Sampled; thread counts 1..8.")

P("C26", "The normal-ordered Fermi jump equals its defining Fourier sum",
  "For every lattice and coefficient vector h of a one- or three-operator basis, the normal-ordered Fermi jump equals |sum_i e^{i pi/2 r_i} h_i|^2 over the one-operator coefficients only; its Fourier coefficients are exactly these phases and its expectation-value accessor returns the supplied function's value. The result does not depend on the number of threads or on other evaluators.",
  ["inputs", "schedules"], "every lattice size and spacing, coefficient vector and thread count",
  "No test includes the header.",
  [I + "models/hubbard_real_space/fermi_jump_no.hpp"], [("FermiJump1D_NO", I + "models/hubbard_real_space/fermi_jump_no.hpp")],
  ["returned value, fourier_coefficient"],
  MON + "direct-sum oracle" + SAN, "Sampled; thread counts 1..8.")

P("C27", "The real-space Liouvillian matrix is the exact projected commutator",
  "For every lattice, hopping J and interaction U, the real-space matrix is the commutator of the Hubbard Hamiltonian with the (orthonormalised) one- and three-operator basis, projected onto that basis: every entry equals the infinite-temperature scalar product of a basis element with [H, basis element], and no other entry is stored. It is real symmetric, linear in (J,U), invariant under lattice translations, and the kinetic matrix is its U=0 one-operator block. Couplings not given are 1.",
  ["inputs"], "every lattice (1D, 2D, any size down to one site), J and U",
  "The matrix builders need Blaze and are not even compiled by the build.",
  [I + "models/hubbard_real_space/blaze_sparse.hpp", I + "types/triplet.hpp"],
  [("init_matrix/init_kinetic_matrix", I + "models/hubbard_real_space/blaze_sparse.hpp")],
  ["entries of the assembled sparse matrix"],
  MON + "exact many-body projection (Fock space) for small lattices and a structural oracle for larger ones" + SAN,
  "Fock oracle for N<=3 (thorough: 4) sites; independent entry-wise oracle for larger lattices, itself validated against the Fock oracle. Blaze replaced by a contract-monitoring stand-in.")

P("C28", "Kinetic evolution conserves and follows the free-fermion solution",
  "Evolving the one-operator basis with the kinetic matrix conserves the norm of the coefficients up to the integrator's order and matches the exact free-fermion propagator of the ring. The series written by hubbard_real_1d_kinetic_theory is, at every printed time t, the site occupation of the half-filled ground state under the infinite-chain free evolution h_r(t) = (-i)^|r| J_|r|(2t) on its lattice (128 sites; t=0, 0.01, ..., 99.99); it starts at 1/2 with vanishing imaginary part and does not depend on the number of threads.",
  ["inputs", "configurations"], "every chain length, hopping and time step, and the theory program's full output",
  "Nothing runs the kinetic programs or compares them with theory.",
  ["src/hubbard/hubbard_real_1d_kinetic_theory.cpp", I + "models/hubbard_real_space/blaze_sparse.hpp", I + "ode/rk4.hpp", I + "models/hubbard_real_space/expectation_value.hpp"],
  [("main", "src/hubbard/hubbard_real_1d_kinetic_theory.cpp"), ("init_kinetic_matrix", I + "models/hubbard_real_space/blaze_sparse.hpp")],
  ["theory.txt, evolved vectors"],
  MON + "closed-form free-fermion oracle over the program's output file and evolved vectors", "Full output of the program compared; evolutions sampled.")

P("C29", "The momentum-space Liouvillian matrix is the exact projected commutator",
  "For every chain length or square lattice shape, momentum q, dispersion and U, the momentum-space matrix equals the commutator of the Hubbard Hamiltonian with the orthonormalised momentum-space basis projected onto it: eps(q)+U/2 and eps(k1)+eps(k2)-eps(k3)+U/2 on the diagonal, U/(2N) between the one-operator element and every three-operator element, nothing else. It is real symmetric and linear in U and J. Couplings not given are 1.",
  ["inputs"], "every N, q, J and U",
  "The builder needs Blaze and is not compiled by the build.",
  [I + "models/hubbard_momentum_space/blaze_sparse.hpp", I + "models/hubbard_momentum_space/liouvillian.hpp"],
  [("init_matrix", I + "models/hubbard_momentum_space/blaze_sparse.hpp")],
  ["entries of the assembled sparse matrix"],
  MON + "exact many-body projection for small N, entry oracle for larger N" + SAN, "Fock-space oracle validates the entry oracle for small N; Blaze replaced by a contract-monitoring stand-in.")

P("C30", "The normal-ordered real-space matrix is the exact normal-ordered commutator",
  "For every lattice, J, U and translation-invariant ground-state correlation function, the normal-ordered matrix gives the coefficients of the basis' one- and three-operator normal-ordered products in the commutator of the Hubbard Hamiltonian with each normal-ordered basis element, dropping only products that are not in the basis (normal-ordered products of five operators or of three operators of equal spin). Its one-operator block is the mean-field hopping plus U times the density, and the kinetic-only builder equals its U=0 one-operator block.",
  ["inputs"], "every lattice, J, U, filling and real, symmetric, translation-invariant correlation function",
  "The builder needs Blaze and is not compiled by the build.",
  [I + "models/hubbard_real_space/blaze_sparse_no.hpp"], [("init_matrix_no/init_kinetic_matrix_no", I + "models/hubbard_real_space/blaze_sparse_no.hpp")],
  ["entries of the assembled sparse matrix"],
  MON + "independent Wick-contraction oracle" + SAN, "Oracle derived by symbolic Wick expansion over generated lattices and correlations.")

P("C31", "Sparse assembly honours the matrix contract and merges duplicates",
  "Every matrix builder appends entries to each row in strictly ascending column order with no column repeated, finalises every row exactly once in order, stays within the capacity it reserved, and leaves no stale entries when a matrix is reused. Sorting and merging triplet lists keeps the sum of values per position, merges repeated columns into one, drops sums that vanish to machine precision and works for lists of any length including empty ones.",
  ["inputs", "histories"], "every lattice (including those small enough that neighbours coincide), every basis and every triplet list",
  "None of this code is compiled by the build; contract violations silently corrupt a CRS matrix.",
  [I + "types/triplet.hpp", I + "models/hubbard_real_space/blaze_sparse.hpp", I + "models/hubbard_real_space/blaze_sparse_no.hpp", I + "models/hubbard_momentum_space/blaze_sparse.hpp"],
  [("TripletList", I + "types/triplet.hpp"), ("number_of_*_elements", I + "models/hubbard_real_space/blaze_sparse.hpp")],
  ["append/finalize/reserve calls recorded by the matrix stand-in; triplet lists"],
  MON + "trace monitor on the recorded append/finalize/reserve protocol" + SAN, "All builders on all lattice kinds/sizes run; protocol as documented by Blaze.")

# ------------------------------------------------------------------ numerics
P("C32", "RK4 steps are the fourth-order Taylor propagator",
  "For every square matrix M (dense, sparse, or given as a function), vector u and step size h, one step replaces u by (1 + hM + (hM)^2/2 + (hM)^3/6 + (hM)^4/24) u to rounding accuracy, leaving M unchanged. Steps are linear in u, repeated steps compose, integrators of different dimensions and element types used alternately do not influence each other, and step_size and dimension report the constructor's values.",
  ["inputs", "histories"], "every matrix kind, dimension, vector, step size (also negative and zero) and interleaving of integrators",
  "No test includes the integrator.",
  [I + "ode/rk4.hpp", I + "types/multiply_assign.hpp", I + "types/blaze/multiply_assign.hpp"],
  [("RK4::step", I + "ode/rk4.hpp")], ["vector after step"],
  MON + "Taylor-polynomial oracle in long double over interleaved integrators" + SAN, "Sampled; tolerance scaled by |hM|^k|u|.")

P("C33", "Function matrices and matrix predicates tell the truth",
  "A function matrix reports exactly its function's entries and size, and multiplying it (multiply_assign) and inspecting it agrees with the dense matrix of these entries. The predicates for quadratic, symmetric, Hermitian and zero matrices answer true exactly when the corresponding entry-wise definition holds within the tolerance, for real and complex, dense and sparse matrices; the dot product of two vectors is the plain sum of products.",
  ["inputs"], "every matrix, including non-square, complex Hermitian-but-not-symmetric and nearly symmetric ones",
  "None of these headers is included by a test.",
  [I + "types/function_matrix.hpp", I + "types/matrix_check.hpp", I + "types/matrix.hpp", I + "types/blaze/multiply_assign.hpp", I + "types/eigen/traits.hpp"],
  [("FunctionMatrix", I + "types/function_matrix.hpp"), ("is_hermitian/is_quadratic/IsZero", I + "types/matrix_check.hpp")],
  ["predicate results, products"],
  MON + "entry-wise definition oracle" + SAN, "Sampled matrices.")

P("C34", "Complex-number helpers are exact",
  "conjugate (of real and complex numbers) is the complex conjugate, and multiply_with_conjugate(a,b) = a*conj(b) and add_conjugate_products(a,b) = a*conj(b)+conj(a)*b hold for complex arguments of every precision. IsEqual and IsZero accept exactly the arguments whose difference (component-wise for complex numbers) is within the tolerance, symmetrically, and never accept NaN.",
  ["inputs"], "all finite, infinite, zero, denormal and NaN arguments in float, double, long double and their complex types, and integers",
  "No test includes the headers directly.",
  [I + "types/number/complex.hpp", I + "types/number/is_equal.hpp", I + "types/number/is_zero.hpp"],
  [("helpers", I + "types/number/complex.hpp")], ["return values"],
  MON + "definition oracle over special-value-biased inputs" + SAN, "Sampled plus special-value cross product.")

# ------------------------------------------------------------------ system
P("C35", "Parallel loops are race-free and thread-count independent",
  "No parallel region of the library - dispersions, bases and their conjugates, expectation values, site occupations, Fermi jumps, particle numbers, function-matrix products - contains a data race, under any thread count, loop schedule and interleaving. Results agree for all thread counts up to floating-point rounding of the final reduction, and evaluators may be shared read-only by concurrent callers where they keep no state.",
  ["schedules", "configurations"], "every parallel region, 1..8+ threads, static and dynamic schedules and perturbed interleavings",
  "Tests run with default threads and no race detector; a race is a property of schedules.",
  [I + "models/hubbard/dispersion.hpp", I + "models/hubbard_real_space/site_occupation.hpp", I + "models/hubbard_real_space/fermi_jump/1d.hpp", I + "models/hubbard_real_space/fermi_jump/2d.hpp", I + "models/hubbard_real_space/expectation_value.hpp", I + "models/hubbard_momentum_space/basis.hpp", I + "types/function_matrix.hpp", I + "openmp.hpp"],
  [("#pragma omp parallel for", I + "models/hubbard_real_space/site_occupation.hpp")],
  ["memory accesses of worker threads (TSan), results per thread count"],
  "ThreadSanitizer over an instrumented OpenMP runtime stand-in with schedule perturbation, plus differential thread-count monitor",
  "TSan sees all synchronisation because the OpenMP runtime is replaced by an instrumented one; races only on schedules/paths exercised.")

P("C36", "The library is free of memory errors and undefined behaviour on valid input",
  "Using the library's public operations on any valid input - any lattice size from one site up, empty products, self-assignment and self-multiplication, objects of different sizes used one after another, tables and files of any size - never reads or writes outside an object, never uses a dead object, never overflows a conversion or hits another undefined operation, and never fails an internal assertion or fails to terminate.",
  ["inputs", "histories"], "every public operation on every valid input and object lifetime history",
  "Tests run without sanitizers on a few sizes; out-of-bounds accesses within allocated capacity pass silently.",
  [I + "models/hubbard_real_space/fermi_jump/1d.hpp", I + "models/hubbard_real_space/fermi_jump_no.hpp", I + "lattices/periodic_square_lattice.hpp", I + "types/triplet.hpp", I + "algebra/monomial/monomial.hpp", I + "io/line.hpp", I + "platform.hpp"],
  [("containers and iterators", I + "algebra/monomial/monomial.hpp")],
  ["sanitizer reports, debug-mode container checks, assertion failures, hangs"],
  "ASan+UBSan+libstdc++ debug mode over the combined workloads of all other monitors", "Red-zone detection on the executed workload only.")

P("C37", "Simulation programs compute the trajectory of the projected dynamics",
  "For any command line, each time-evolution program writes, at every measurement, the observable that results from evolving the initial operator under the projected Heisenberg equation with the requested lattice, J, U, filling and step size: the numbers in its output file equal those of an independent implementation of basis, matrix, RK4 and observable. The observable is the occupation of site 0 (C24), the squared Fermi jump (C25) or the coefficients themselves; hubbard_momentum_1d_rk4 prints the particle number (C22) at t=0 and after eight steps for the momentum in the middle of the zone, hubbard_trivial writes coefficients and (real) occupation of its fixed four-operator model after each of 2000 steps. hubbard_momentum_1d_rk4 also writes the matrix (C29) of its dynamics to a matrix file next to its output. Results do not depend on the number of threads beyond rounding, nor on what an existing output file contains.",
  ["inputs", "configurations"], "all programs and option values: sizes, J, U, filling, dt, t_end, measurement interval",
  "The programs need Blaze and are not built, let alone run, by the tests.",
  ["src/hubbard/hubbard_real_1d_rk4.cpp", "src/hubbard/hubbard_real_1d_rk4_jump.cpp", "src/hubbard/hubbard_real_2d_rk4_jump.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp", "src/hubbard/hubbard_real_1d_rk4_coefficients.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp", "src/hubbard/hubbard_momentum_1d_rk4.cpp", "src/hubbard/hubbard_trivial.cpp"],
  [("main", "src/hubbard/hubbard_real_1d_rk4.cpp"), ("compute_matrix", "src/hubbard/real_space/matrix.hpp")],
  ["output files of the programs"],
  MON + "output files compared with an independent reference simulator" + SAN, "Sampled command lines at small sizes; Blaze and spdlog replaced by stand-ins.")

P("C38", "Measurements are taken exactly on schedule and recorded once",
  "Every time-evolution program writes exactly one measurement at t=0 and one after each whole measurement interval (an interval of 0 counts as 1) until the integration first reaches t_end, in increasing time order, at times that are multiples of the step size, each as one complete line, independently of rounding in dt (if t_end is a multiple of dt up to rounding, one step more is allowed). The header identifies the run: every commented line precedes all data, and together they name the program and record exactly once the value of every option that was used, whether given or default.",
  ["inputs", "configurations"], "all combinations of dt, t_end and measurement interval, including ones not representable in binary",
  "No program is run by the tests.",
  ["src/hubbard/include/application.hpp", "src/hubbard/include/cli.hpp", "src/hubbard/include/common.hpp"],
  [("has_time_interval_passed", "src/hubbard/include/common.hpp")],
  ["lines of the output file"],
  MON + "schedule oracle over the recorded output lines", "Sampled command lines.")

P("C39", "Runs are reproducible from command line and response file",
  "Giving options on the command line, in a response file, or split between both yields the same run: command-line values take precedence over the response file, response-file values over defaults, independently of option order, blank lines and '#' comments, and of whether the response file gives --key=value on a line or key and value on consecutive lines. The response file a run writes next to its output reproduces that run. Unknown options, options given twice on the command line and malformed values end the program with an error before any output file is written.",
  ["inputs", "configurations"], "all splits of an option set between command line and response file",
  "No program is run by the tests.",
  ["src/hubbard/include/cli.hpp", "src/hubbard/include/application.hpp"],
  [("read_response_file", "src/hubbard/include/cli.hpp")],
  ["output files of equivalent invocations"],
  MON + "differential oracle over equivalent invocations", "Sampled splits.")

P("C40", "Text input skips exactly blanks and comments and checkpoints clean up exactly",
  "is_skippable_line holds exactly for lines that are empty, whitespace-only or whose first non-blank character is '#', for lines of any length; next_line returns the content lines of a stream in order, skipping exactly those lines, and terminates at the end of input. clean_output_file, used to restore from a checkpoint, keeps the leading header and exactly the given number n >= 1 of first measurement lines (all of them if there are fewer), unchanged and each on its own line, and drops everything after them, wherever the interrupted run was cut off.",
  ["inputs", "crash_points"], "every text, line length and end-of-input position; every output file, cut-off position and number of checkpointed measurements",
  "No test includes these headers.",
  [I + "io/line.hpp", "src/hubbard/include/checkpoint.hpp"], [("next_line/is_skippable_line", I + "io/line.hpp"), ("clean_output_file", "src/hubbard/include/checkpoint.hpp")],
  ["returned lines, cleaned files"],
  MON + "character-level reference parser on generated texts" + SAN, "Sampled texts; truncated-file crash points enumerated.")

P("C41", "hubbard_dispersion_1d writes the band on the whole momentum grid",
  "hubbard_dispersion_1d writes to dispersion.txt one line per momentum of its grid, in ascending order over one full Brillouin zone, each holding the momentum and its tight-binding energy -2J cos(k) to the printed precision. Repeated runs and any thread count produce identical files, replacing any previous content.",
  ["configurations", "schedules"], "every run, thread count and pre-existing file",
  "The program is built but never run by the tests.",
  ["src/hubbard/hubbard_dispersion_1d.cpp", I + "models/hubbard/dispersion.hpp"], [("main", "src/hubbard/hubbard_dispersion_1d.cpp")],
  ["dispersion.txt"], MON + "closed-form oracle over the program's output file", "The program takes no arguments; complete output compared.")

P("C42", "What a run records about itself is true and complete",
  "The header of every output file, the log and --version state the true program name, ieompp, Boost and Blaze versions, architecture, operating system, compiler, standard library, user and host, byte order and maximal number of threads, each exactly once. The log also records the options that were used, the number of lattice sites, the share of non-zero matrix elements in percent and, as execution time, the seconds the run took by the clock. --help lists exactly the options the program accepts, each with its default; --help and --version start no simulation and create or change no file. A run creates exactly its output file, its response file (unless it was started from one) and its log, the momentum program also its matrix file, and touches no other file.",
  ["inputs", "configurations"], "every program, build (compiler, with and without OpenMP), command line and set of files that exist before the run",
  "No program is run by the tests; a wrong fact in a header is wrong in every run and never noticed.",
  ["src/hubbard/include/application.hpp", "src/hubbard/include/cli.hpp", "src/hubbard/include/common.hpp", "src/hubbard/include/logging.hpp", I + "platform.hpp", I + "version.hpp", "src/hubbard/real_space/matrix.hpp", "src/hubbard/real_space/periodic_chain.hpp", "src/hubbard/real_space/periodic_square_lattice.hpp", "src/hubbard/momentum_space/momentum_space.hpp"],
  [("write_platform_info and write_platform_header", I + "platform.hpp"), ("Application", "src/hubbard/include/application.hpp"), ("DefaultCLI", "src/hubbard/include/cli.hpp")],
  ["header lines, log lines, standard output, files of the working directory before and after"],
  MON + "facts in headers, logs, --version and --help against the compilers', headers' and system's own answers, file-set monitor",
  "Sampled invocations; built with g++ and clang++. Blaze and spdlog replaced by stand-ins; the execution time is compared under a recording clock that runs a million times too fast, so that runs of months are seen.")

P("C43", "Checkpoints and crashes never lose or falsify what was recorded",
  "A checkpoint restores the vector that was checkpointed bit by bit, its .info file the time (six digits), and checkpoints of one program are numbered consecutively. If the process is killed at any file operation while it writes checkpoints, every earlier checkpoint stays intact, a checkpoint whose .info is complete is complete itself (also where an earlier run left checkpoints of the same names), and none appears or changes that was not yet begun; reading a missing or damaged checkpoint raises an exception instead of returning a wrong vector. A kill while an output file is cleaned never loses a recorded line: the file or its backup holds all of them, and the file never holds a line that was not recorded. A time-evolution program killed at any file operation leaves a prefix of the output of the complete run, nothing of an earlier run mixed in, and the complete response file once any measurement is recorded; every measurement reaches the file before the next one does, so that at most the last one taken can be lost.",
  ["crash_points", "inputs"], "every crash point (file operation, also after part of the data is written) of sequences of checkpoints, cleanups and of the programs",
  "No test includes checkpoint.hpp or runs a program, none simulates a crash.",
  ["src/hubbard/include/checkpoint.hpp", "src/hubbard/include/application.hpp", "src/hubbard/include/cli.hpp"],
  [("write_checkpoint and clean_output_file", "src/hubbard/include/checkpoint.hpp"), ("Application", "src/hubbard/include/application.hpp")],
  ["files left behind by the killed process"],
  MON + "crash injection at every file operation (system-call tracing of own children) with an offline checker of the files left behind",
  "A crash ends the process; data accepted by the kernel is kept. Blaze's archive replaced by a stand-in.")

P("C44", "Type-level descriptions, exceptions and composed strings tell the truth",
  "For every scalar, container, vector and matrix type the traits say what it is: the type names of the numbers; is-vector, is-matrix, is-dense, is-sparse of Blaze, Eigen and standard types; index and element types; and matrix dimensions as the run-time rows and columns of the object, row vectors having one row. Inserting an element into a matrix stores it at its row and column and nowhere else. The Hubbard operator traits accept exactly the index layouts they document (one or two spatial indices and a bool spin) and name their spatial index type. An exception's message is exactly file, line and text for every text, survives copying and throwing, and it is caught as its own type; compose gives the concatenation of its arguments in order.",
  ["inputs", "configurations"], "every supported type, matrix size, operator layout, message and argument list",
  "Tests name a handful of types; a wrong trait silently selects another code path.",
  [I + "types/blaze/traits.hpp", I + "types/eigen/traits.hpp", I + "types/names.hpp", I + "types/number.hpp", I + "types/matrix_check.hpp", I + "models/hubbard/operator_traits.hpp", I + "exception.hpp", I + "string.hpp"],
  [("IsBlazeVector, MatrixDimensionInfo", I + "types/blaze/traits.hpp"), ("OperatorTraits", I + "models/hubbard/operator_traits.hpp"), ("THROW", I + "exception.hpp")],
  ["values of the traits, what(), composed strings"],
  MON + "type tables and element-wise reference models compared at run time" + SAN,
  "Listed types only; Blaze replaced by a stand-in, Eigen is the real one.")
