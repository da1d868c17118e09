#!/usr/bin/env python3
"""Writes properties.jsonl (the source text of the properties lives here)."""
import json, os
E = "include/libcommute/expression/"
L = "include/libcommute/loperator/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Expression arithmetic is exact operator algebra",
 "The result of every sum, difference, product, power and scalar multiple of expressions represents exactly the operator obtained by the same arithmetic on the operators themselves: acting on any Fock/spin basis state, the resulting normal-ordered expression gives the same vector as applying the original (unordered) factors one after another. This covers the canonical (anti)commutation relations, generators of different algebras commuting, su(2) relations for every spin and the vanishing and reduction of powers.",
 ["inputs", "programs"],
 "every finite program of arithmetic operations over any mix of fermionic, bosonic and spin-S generators with any indices and exact coefficients",
 "Tests compare a few dozen hand-written products of 2-4 generators with hand-written results; normal ordering of longer mixed words (repeated, interleaved, different multiplicities at the same index) is combinatorial.",
 [E+"expression.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", E+"generator.hpp", E+"monomial.hpp"],
 [("normal ordering by adjacent swaps with structure-constant contributions", "expression.hpp normalize_and_store"),
  ("power reduction", "expression.hpp reduce_powers_and_store; generator_spin.hpp reduce_power"),
  ("commutation relations", "generator_*.hpp swap_with / simplify_prod")],
 [("monomials map", "canonical linear combination", "expression.hpp monomials_")],
 ["terms visited when iterating over an expression"])

prop("C02", "Canonical form is unique: equal operators compare equal",
 "Every expression produced by exact arithmetic stores each monomial once, in canonical generator order with no further applicable relation, with non-zero coefficient and in a strictly increasing sequence. Two expressions denoting the same operator therefore compare equal whatever sequence of operations, association or order of operands produced them (for a spin S above 1/2: as long as no more than 2S raising and 2S lowering operators of it are multiplied), and expressions denoting different operators compare different.",
 ["inputs", "programs", "histories"],
 "every pair of construction histories over all algebras, indices and exact coefficients; equality against an independent faithful representation in both directions",
 "A test can only compare two concrete histories; confluence of the rewriting (same result for every evaluation order) quantifies over all of them.",
 [E+"expression.hpp", E+"monomial.hpp", E+"generator_spin.hpp"],
 [("normalisation on every product", "expression.hpp normalize_and_store/store_monomial"),
  ("cancellation removes terms", "expression.hpp operator+=/-=, add_impl, sub_impl")],
 [("monomials map", "must never hold a zero coefficient or unordered monomial", "expression.hpp monomials_")])

prop("C03", "Hermitian conjugation is the operator adjoint",
 "Conjugating an expression yields its adjoint: conjugation is antilinear, reverses products, is its own inverse, and the matrix elements of the conjugate are the complex-conjugated transposed matrix elements of the original. Adding or subtracting the `hc` placeholder adds or subtracts exactly this adjoint once, independently of the magnitude of the coefficients.",
 ["inputs", "programs"],
 "every expression over all algebras with real, complex or exact scalars, including coefficients near the floating-point zero threshold",
 "Existing tests conjugate a handful of monomials; antilinearity and product reversal quantify over all pairs of expressions.",
 [E+"expression.hpp", E+"hc.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", "include/libcommute/scalar_traits.hpp"],
 [("termwise conjugation of reversed words", "expression.hpp conj"), ("generator conjugates", "generator_*.hpp conj"), ("hc placeholder", "hc.hpp")])

prop("C04", "All arithmetic forms agree and respect value semantics",
 "For any operands, the binary, compound-assignment, scalar-on-the-left and scalar-on-the-right forms of an operation and mixed scalar-type forms all give the same expression, and operands other than the assignment target are left unchanged. This includes an expression combined with itself or with its own coefficient, and copies, moves and conversions, which never share later modifications.",
 ["inputs", "programs", "histories"],
 "every operation form and aliasing pattern over random expressions with int, double, complex, rational and GMP scalars",
 "Each form has a separate implementation path (same-type, mixed-type, const prefix/postfix); tests exercise each on one or two fixed expressions and never alias operands.",
 [E+"expression.hpp", E+"monomial.hpp", "include/libcommute/scalar_traits.hpp"],
 [("separate implementations of each form", "expression.hpp add_impl/sub_impl/mul_const_*_impl/operator+=,-=,*=")])

prop("C05", "Generators, monomials and indices are strictly totally ordered",
 "Comparison of index sequences, generators and monomials is a strict total order consistent with equality: exactly one of <, ==, > holds for any pair, it is transitive, and it follows the documented canonical order (algebra, then creation before annihilation with reversed annihilation order, spin multiplicity, index and component; monomials by length, then lexicographically). Traversal, indexing, concatenation, appending and exchange of generators in monomials behave as for the plain sequence of generators.",
 ["inputs"],
 "all pairs and triples of generators/monomials over mixed static and dynamic (int/string) index sequences of any length",
 "Tests check one fixed sorted list; totality and transitivity quantify over all pairs and triples.",
 [E+"generator.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", E+"monomial.hpp", E+"dyn_indices.hpp"],
 [("generator comparison", "generator.hpp operator<, generator_*.hpp less/greater/equal"), ("monomial comparison", "monomial.hpp operator<"), ("dynamic index comparison", "dyn_indices.hpp operator<")])

prop("C06", "Results do not depend on the scalar type; inexact constants are refused",
 "The same computation carried out with any supported scalar type (integral, floating-point, complex, Boost rational, GMP integer/rational/float) gives numerically the same expression whenever all values are representable in that type. When an algebra relation needs a constant that the scalar type cannot represent, an exception is thrown instead of a silently wrong result, and the target expression stays usable.",
 ["inputs", "configurations"],
 "random arithmetic programs replayed in every scalar type, including structure constants 1/2 and 1/4 and coefficients of any magnitude",
 "Tests fix one scalar type per case; agreement across types quantifies over programs.",
 ["include/libcommute/scalar_traits.hpp", "include/libcommute/scalars/boost_rational.hpp", "include/libcommute/scalars/gmpxx.hpp", "include/libcommute/utility.hpp", E+"factories.hpp"],
 [("constant conversion and zero tests per type", "scalar_traits.hpp make_const/is_zero"), ("result types", "scalar_traits.hpp sum_res/mul_res; gmpxx.hpp")])

prop("C07", "User-defined algebras: declared relations are applied to completion",
 "For any algebra a user defines through its generator interface (exchange relation, product simplification, power reduction, conjugation), products are rewritten with the declared relations until none applies, so that a consistent set of relations reproduces the algebra exactly and generators of different algebras commute. This holds for exchange constants of any value including zero, constant and multi-term linear contributions, and relations of all kinds combined.",
 ["inputs", "programs"],
 "words over several user-defined algebras (Clifford, quaternion, Lie, cyclic, projector algebras), judged by exact matrix representations",
 "The tests define three algebras and check short words; completion of rewriting depends on the order of letters in longer words and on combinations of relation kinds not present there.",
 [E+"generator.hpp", E+"expression.hpp", "include/libcommute/utility.hpp"],
 [("rewriting loop", "expression.hpp normalize_and_store/reduce_powers_and_store"), ("extension points", "generator.hpp swap_with/simplify_prod/reduce_power/conj"), ("structure constants", "utility.hpp linear_function/var_number")])

prop("C08", "Hilbert space layout is a gap-free ordered bit allocation",
 "A Hilbert space built from any elementary spaces in any order assigns consecutive, disjoint, minimal bit ranges in canonical order, whose union per algebra is the reported algebra range, and reports matching index, dimension, sparsity and vector size. Copies and assigned objects are indistinguishable from the original, equality holds exactly for identical content, and a rejected addition leaves the space unchanged.",
 ["inputs", "histories"],
 "all sequences of additions (including duplicates and oversized spaces), copies, assignments and moves; boson dimensions up to 2^63 and any half-integer spin",
 "Tests use one fixed composition with small dimensions and never compare a copy's full interface; histories of additions, failures and copies are unbounded.",
 [L+"hilbert_space.hpp", L+"elementary_space.hpp", L+"elementary_space_fermion.hpp", L+"elementary_space_boson.hpp", L+"elementary_space_spin.hpp"],
 [("bit allocation", "hilbert_space.hpp recompute_bit_ranges"), ("copy", "hilbert_space.hpp copy constructor/assignment"), ("bit width", "elementary_space_*.hpp n_bits")],
 [("elementary spaces and ranges", "ordered product", "hilbert_space.hpp elementary_spaces_, algebra_bit_ranges_, dim_")])

prop("C09", "Basis enumeration visits every physical state exactly once",
 "Enumerating a Hilbert space calls the functor exactly once for each physical basis state, in increasing order, and never for an index with an out-of-range component, however many power-of-two and non-power-of-two components it has and however large it is. The enumeration of a constant space is unaffected by nested or repeated enumerations and by early exits, and single-component basis state indices are mutually consistent with it.",
 ["inputs", "histories"],
 "all products of elementary spaces of any dimensions, nested/aborted/copied traversals, spaces with more than 2^32 states (observed prefix)",
 "Tests enumerate a few small products; the merged-stride arithmetic depends on the arrangement of dimensions, and large spaces are out of reach of exhaustive tests.",
 [L+"hilbert_space.hpp", L+"bit_ops.hpp"],
 [("sparse state enumeration with merged strides", "hilbert_space.hpp sparse_foreach_basis_state, init_foreach_alg")])

prop("C10", "Automatic Hilbert spaces contain exactly what an operator needs",
 "A Hilbert space deduced from an expression contains exactly one elementary space for each distinct mode or spin that occurs in it, of the right kind, indices and dimension (fermions 2, bosons as requested, spin S 2S+1), independent of term order. Expressions with generators that have no elementary space constructor are rejected naming the generator, and operators built on a space lacking one of their modes are rejected naming that generator.",
 ["inputs"],
 "all expressions over all algebras, static and dynamic indices, all constructor combinations, and all Hilbert spaces missing a mode",
 "Tests cover three fixed expressions; the guarantee quantifies over expressions and over which mode is missing where.",
 [L+"hilbert_space.hpp", L+"es_constructor.hpp", L+"monomial_action.hpp", L+"monomial_action_fermion.hpp", L+"monomial_action_boson.hpp", L+"monomial_action_spin.hpp"],
 [("collection of elementary spaces", "hilbert_space.hpp constructor from expression"), ("constructors per algebra", "es_constructor.hpp"), ("rejection", "monomial_action_*.hpp unknown_generator")])

prop("C11", "Operators act on state vectors as their matrix representation",
 "Applying an operator made from an expression to any state vector gives the product of its exact matrix (fermionic signs in canonical mode order, bosonic square roots, spin ladder factors, truncation at the bosonic cutoff, zero on unreachable states) with that vector. This holds for every placement of modes in the Hilbert space, including unused modes, high occupation numbers and the largest supported spaces, and for every scalar type combination.",
 ["inputs", "configurations"],
 "all expressions and Hilbert spaces: dense matrices in small spaces and single basis states in spaces of up to 63 bits",
 "Tests apply about a hundred hand-picked operators in one or two spaces; sign masks, bit offsets and truncations depend on mode positions and words.",
 [L+"loperator.hpp", L+"monomial_action.hpp", L+"monomial_action_fermion.hpp", L+"monomial_action_boson.hpp", L+"monomial_action_spin.hpp", L+"bit_ops.hpp", L+"state_vector.hpp"],
 [("per-algebra monomial actions", "monomial_action_*.hpp act"), ("sum over monomials", "loperator.hpp act_impl")])

prop("C12", "Operator action is a representation of the algebra",
 "Operators made from expressions compose as the expressions do: the operator of a sum, scalar multiple or product of expressions acts as the sum, multiple or successive application of the operators, and the operator of the conjugate expression is the adjoint. With bosons this holds on all states from which the truncation cannot be reached.",
 ["inputs", "programs"],
 "pairs of expressions over all algebras and arbitrary state vectors, including bosonic occupations in the thousands and Hilbert spaces too large for matrices",
 "The tests compare individual operators; the homomorphism quantifies over all pairs and states and ties together two independent halves of the library.",
 [L+"loperator.hpp", L+"monomial_action_fermion.hpp", L+"monomial_action_boson.hpp", L+"monomial_action_spin.hpp", E+"expression.hpp"],
 [("normal ordering and action must agree", "expression.hpp normalize_and_store; monomial_action_*.hpp act")])

prop("C13", "Every state vector type gives the same amplitudes",
 "Applying an operator by returning a new vector, by writing into a destination or through the multiplication sign gives the same amplitudes for every supported container (standard vectors, sparse vectors, Eigen vectors, segments and maps, and views) and scalar type, leaves the source unchanged and overwrites the destination completely. Sparse vectors never report explicit zeros for vanishing amplitudes and iterate exactly over the stored elements.",
 ["inputs", "configurations", "histories"],
 "all container pairs, prior destination contents and operators (including ones that annihilate the state)",
 "Tests use each container with one operator and fresh destinations; stale contents, reuse and mixed containers are combinations they do not reach.",
 [L+"state_vector.hpp", L+"sparse_state_vector.hpp", L+"state_vector_eigen3.hpp", L+"loperator.hpp"],
 [("container adaptation", "state_vector.hpp get_element/update_add_element/set_zeros/foreach"), ("sparse container", "sparse_state_vector.hpp")])

prop("C14", "Parameter-dependent operators equal their evaluation",
 "An operator whose coefficients are functions of parameters acts, for any parameter values, exactly like the constant operator obtained by evaluating every coefficient at those values first. All its application forms and its evaluation at a point agree, each coefficient function receives the same arguments, and no call leaves state behind that affects a later call.",
 ["inputs", "histories"],
 "all expressions with function-valued coefficients, argument counts, lvalue/rvalue/movable arguments, and call sequences with reused or fresh scratch storage",
 "Tests use a polynomial coefficient with copied scalar arguments and one call per operator.",
 [L+"loperator.hpp"],
 [("coefficient evaluation", "loperator.hpp parametric_loperator act_impl/act_and_store_coeffs/at")])

prop("C15", "Compressed state views renumber physical states bijectively",
 "A compressed view of a vector makes operators act on a vector whose length is the exact number of physical states: basis states are renumbered consecutively without gaps or collisions, in increasing order, for any arrangement of elementary space dimensions. Acting through views gives the same amplitudes as acting on full-length vectors, and traversal visits every non-zero physical amplitude once with its full index.",
 ["inputs"],
 "all Hilbert spaces (any mix of power-of-two and other dimensions, trivial ones included), operators and amplitudes; nested and repeated traversals",
 "Tests use two spaces; the stride arithmetic is specific to the arrangement of dimensions.",
 [L+"compressed_state_view.hpp", L+"hilbert_space.hpp"],
 [("index compression", "compressed_state_view.hpp map_index"), ("traversal", "compressed_state_view.hpp foreach")])

prop("C16", "Mapped basis views restrict operators to a chosen subspace",
 "A basis mapper built from a list of states, from operators applied to the vacuum, or from all products of a given total order of some operators contains exactly the documented set of basis states, numbered one-to-one, and its inverse map is the exact inverse. Operators acting through its views produce the same amplitudes as in the full space for every invariant subspace, with reads and writes landing on the mapped elements only.",
 ["inputs"],
 "all Hilbert spaces, operator lists (non-commuting and multi-term included), orders N, permutations of the state list and invariant subspaces",
 "Tests cover bosonic/fermionic creation operators for N<=3; non-commuting operators and general lists are not compared with a reference.",
 [L+"mapped_basis_view.hpp"],
 [("state collection and numbering", "mapped_basis_view.hpp basis_mapper constructors"), ("element access", "mapped_basis_view.hpp get_element/update_add_element/foreach")])

prop("C17", "N-fermion sector views enumerate fixed-particle-number states",
 "For every Hilbert space with fermions and every N, the N-fermion sector has the exact combinatorial size, its list of basis states contains each physical state with N fermions once, and the view's index map is the bijection onto 0..size-1 matching that list, for every available ranking algorithm and with or without hardware bit instructions. Particle-conserving operators acting through views agree with the full space, and traversal visits each non-zero amplitude once with its full index, nested or after copying the view.",
 ["inputs", "configurations", "histories"],
 "all numbers of modes up to 63, all N, all ranking algorithms and their parameters, all placements of other degrees of freedom, both bit-instruction build variants",
 "Tests exhaust up to about 5-10 modes with two staggering parameters in one build configuration and never copy a view or nest traversals.",
 [L+"n_fermion_sector_view.hpp", L+"bit_ops.hpp"],
 [("ranking", "n_fermion_sector_view.hpp combination_ranking/staggered_ranking/trie_ranking"), ("unranking", "n_fermion_sector_view.hpp unranking_generator"), ("binomials", "n_fermion_sector_view.hpp binomial"), ("bit deposit/extract", "bit_ops.hpp")])

prop("C18", "N-fermion multisector views handle several sectors at once",
 "For any disjoint sets of fermionic modes with their particle numbers, the multisector has the exact size, lists each matching physical state once, and its views number those states one-to-one consistently with that list, wherever the modes lie in the Hilbert space and whatever the other degrees of freedom. Operators conserving all sector particle numbers act through the views exactly as in the full space.",
 ["inputs", "configurations", "histories"],
 "all numbers, sizes, interleavings and fillings of sectors (including empty and full ones, and modes above bit 32), all ranking algorithms, both bit-instruction variants, copied/moved views",
 "Tests use small fixed index sets in the low bits in one configuration.",
 [L+"n_fermion_sector_view.hpp", L+"bit_ops.hpp"],
 [("sector masks and strides", "n_fermion_sector_view.hpp n_fermion_multisector_view, init_mask"), ("enumeration", "n_fermion_sector_view.hpp multisector_unranking_generator"), ("argument validation", "n_fermion_sector_view.hpp validate_sectors")])

prop("C19", "Space partitions are the finest invariant decomposition",
 "Partitioning a space with respect to an operator assigns every physical basis state to exactly one subspace, numbered consecutively, such that two states share a subspace exactly when they are connected by a chain of non-zero matrix elements. The reported matrix elements and connections, subspace bases and traversal all describe the same partition and the operator's true matrix.",
 ["inputs"],
 "all operators and Hilbert spaces (sparse ones included), in dense and compressed numbering, compared with an independent connected-component computation",
 "Tests compare one Hubbard-Kanamori style model; connectivity structure quantifies over operators.",
 [L+"space_partition.hpp", L+"disjoint_sets.hpp"],
 [("connected components", "space_partition.hpp constructor; disjoint_sets.hpp"), ("subspace numbering", "space_partition.hpp representative_to_index_")])

prop("C20", "Subspace merging makes operators one-to-one between subspaces",
 "After merging subspaces with respect to an operator and its Hermitian conjugate - or to several such pairs, one after another - each of these operators maps every subspace into at most one subspace and never maps two different subspaces into the same one, the Hamiltonian's subspaces are only merged and never split, and no merge happens that this condition does not force. The outcome does not depend on the order of basis states, of the pairs or on repeated merging, and reported matrix elements are complete.",
 ["inputs", "histories"],
 "all partitions, operator pairs and sequences of merges, compared with an independent fixed-point computation",
 "Tests merge with fermionic operators of one model where a single pass suffices; the fixed point for general operators needs many interacting merges.",
 [L+"space_partition.hpp", L+"disjoint_sets.hpp"],
 [("fixed-point merging", "space_partition.hpp merge_subspaces")])

prop("C21", "Disjoint sets represent the equivalence closure of all unions",
 "After any sequence of unions, set creations, compressions and normalisations, two elements have the same representative exactly when they are connected by the unions performed, and the number of sets is the number of such classes. Compression followed by normalisation makes the representative of each set its smallest element, and maintenance operations never change which elements belong together.",
 ["inputs", "histories"],
 "all interleavings of operations over any number of elements, compared step by step with a naive partition",
 "One fixed sequence of unions is tested; path compression, ranking and normalisation interact over histories.",
 [L+"disjoint_sets.hpp"],
 [("union by rank with path compression", "disjoint_sets.hpp find_root/root_union/compress_sets/normalize_sets")])

prop("C22", "Invalid requests are rejected without corrupting state",
 "Every documented misuse that the API promises to reject - duplicate, missing or oversized elementary spaces, missing algebra ranges, modes absent from a Hilbert space, oversized particle numbers, overlapping or unknown sector modes, sparse spaces in fermion-sector views, states outside a mapped basis or a partition, fractional constants for integer scalar types - raises the documented exception on every such input and on no valid input. After any rejected request all pre-existing objects are unchanged and fully usable.",
 ["inputs", "fault_sequences"],
 "random sequences mixing valid and invalid requests, each classified by an independent model, with full state comparison around rejected ones",
 "Tests trigger each exception once on a fresh object and stop there.",
 [L+"hilbert_space.hpp", L+"es_constructor.hpp", L+"n_fermion_sector_view.hpp", L+"monomial_action.hpp", "include/libcommute/scalar_traits.hpp"],
 [("validation", "hilbert_space.hpp exceptions; n_fermion_sector_view.hpp validate_*; monomial_action.hpp unknown_generator; scalar_traits.hpp make_const")])

prop("C23", "Constant objects can be shared between threads",
 "Using the same constant expressions, Hilbert spaces, operators, partitions, mappers and views of distinct or read-only data from several threads at once involves no data race and every thread obtains the same results as a single-threaded run.",
 ["schedules", "inputs"],
 "all interleavings of const operations on shared objects in several threads (observed under a race detector)",
 "The test suite is single-threaded.",
 [L+"hilbert_space.hpp", L+"n_fermion_sector_view.hpp", L+"disjoint_sets.hpp", L+"space_partition.hpp", L+"loperator.hpp", L+"compressed_state_view.hpp", E+"expression.hpp"],
 [("const methods without hidden mutable state", "hilbert_space.hpp foreach; n_fermion_sector_view.hpp foreach; disjoint_sets.hpp find_root; loperator.hpp operator()")])

prop("C24", "No memory errors or undefined behaviour, any object lifetime order",
 "No valid use of the library reads or writes outside live objects, reads uninitialised values, leaks, or performs undefined arithmetic, including when temporaries, expressions, Hilbert spaces, mappers or views used to build another object are copied from, moved from, reassigned or destroyed first, for every object documented to own its data.",
 ["inputs", "histories", "programs"],
 "random lifetimes (copy, move, swap, assign, destroy in any order) of all value types with uses interleaved, under address/undefined-behaviour/leak sanitizers and memcheck",
 "Tests run without sanitizers and keep all objects alive until the end of a scope.",
 [E+"expression.hpp", E+"monomial.hpp", L+"loperator.hpp", L+"hilbert_space.hpp", L+"n_fermion_sector_view.hpp", L+"mapped_basis_view.hpp", L+"compressed_state_view.hpp", L+"space_partition.hpp"],
 [("value semantics of owning types", "expression.hpp, hilbert_space.hpp, loperator.hpp, n_fermion_sector_view.hpp")])

prop("C25", "Printed expressions are a faithful record of their content",
 "The textual form of an expression lists every term once in canonical order with its coefficient, generators, indices and powers, so that parsing it back reproduces an equal expression; equal expressions print identically and printing changes nothing. Index sequences, generators and the empty expression print in the documented notation.",
 ["inputs"],
 "all expressions over all algebras with static and dynamic indices (integers of both signs, strings) and exact scalars; round trip through an independent parser",
 "Tests compare about fifty fixed strings; power collection and separators depend on neighbouring generators.",
 [E+"expression.hpp", E+"monomial.hpp", E+"generator.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", E+"dyn_indices.hpp", "include/libcommute/utility.hpp"],
 [("stream output", "expression.hpp operator<<; monomial.hpp operator<<; generator_*.hpp to_string; utility.hpp tuple_to_string")])

prop("C26", "Index types and labels carry no hidden meaning",
 "Relabelling modes injectively - other integers, strings, longer index sequences, static or dynamic index types - turns the result of any computation into the correspondingly relabelled result: expressions denote the relabelled operators, and for order-preserving relabellings they agree term by term and so do Hilbert space layouts, operator actions and partitions. Mode sequences that differ in length, type or value are always different modes.",
 ["inputs", "configurations"],
 "random programs replayed under random injective relabellings and index types",
 "Tests use one fixed set of labels per case; invariance quantifies over relabellings.",
 [E+"dyn_indices.hpp", E+"factories.hpp", E+"factories_dyn.hpp", E+"generator.hpp", L+"elementary_space.hpp", L+"hilbert_space.hpp"],
 [("index tuples", "generator.hpp indices; dyn_indices.hpp"), ("ordering of modes", "elementary_space.hpp less")])

prop("C27", "Results are identical in every supported build configuration",
 "The same program gives bit-for-bit the same exact results (expressions, layouts, enumerations, rankings, partitions, amplitudes of exact arithmetic) whatever the supported language standard, compiler, optimisation level, assertion setting or availability of hardware bit-manipulation instructions.",
 ["configurations", "inputs"],
 "a recorded event log of random programs compared across C++11/14/17/20, GCC/Clang, -O0/-O3, NDEBUG on/off, BMI2 on/off",
 "The test suite is built in a single configuration; code paths selected by the preprocessor are not compared with each other.",
 [L+"bit_ops.hpp", "include/libcommute/utility.hpp", "include/libcommute/metafunctions.hpp", L+"n_fermion_sector_view.hpp", L+"hilbert_space.hpp", E+"expression.hpp"],
 [("configuration-dependent code", "bit_ops.hpp; utility.hpp; metafunctions.hpp")])

prop("C28", "User-defined algebras act on states as declared",
 "An operator whose expression contains generators of user-defined algebras acts exactly as the composition of the actions the user declared for them, alone or mixed with fermions, bosons, spins and other user algebras, in every elementary space arrangement and through every kind of view, partition and parametric form; its conjugate acts as the adjoint. The user's code is consulted only about generators of its own algebra and about indices of the space, operators accept an expression exactly when all its algebras are listed, and elementary space constructors keep their settings when copied, moved or assigned.",
 ["inputs", "programs"],
 "random expressions over two user-defined algebras (multilevel matrix units of any dimension, Clifford generators sharing one space) and all built-in ones, for several index and scalar types and lists of algebras",
 "The test suite contains no user-defined action; the documentation has one example with a single algebra and a single space.",
 [L+"monomial_action.hpp", L+"es_constructor.hpp", L+"elementary_space.hpp", L+"hilbert_space.hpp", L+"loperator.hpp"],
 [("dispatch of generators to actions", "monomial_action.hpp monomial_action_impl"), ("dispatch of generators to constructors", "es_constructor.hpp es_constructor_impl"), ("bit ranges of user spaces", "hilbert_space.hpp bit_range, algebra_bit_range")])
prop("C29", "Exactly solvable models come out as theory predicts",
 "A Hamiltonian whose spectrum is known exactly - independent and paired fermions, spin chains equivalent to them, coupled angular momenta, spins coupled to an oscillator, oscillators below their truncation, the Hubbard dimer, Kanamori atoms, and sums of such subsystems - has exactly these levels with their degeneracies, whatever labels, scalar type, rotation of modes or way of writing it is used, and by every route: vectors of the whole space, compressed vectors, the invariant subspaces of a partition (also after merging), N-fermion sectors and multisectors, lists of states; every such matrix is Hermitian. Operator identities of many-body theory (angular momenta made of bosons, fermions or spins, symmetries of the Hubbard and Kanamori models, canonical transformations, exchange operators, powers of ladder operators) hold exactly as equality of expressions over the rational numbers.",
 ["inputs", "programs"],
 "random couplings, modes and rotations, random sums of subsystems up to 256 states; identities over unbounded rationals",
 "The tests compare a few matrix elements of single operators; no test follows a model from expressions through spaces, operators and sectors to a quantity known independently.",
 ["include/libcommute/expression/expression.hpp", L+"loperator.hpp", L+"space_partition.hpp", L+"n_fermion_sector_view.hpp", L+"mapped_basis_view.hpp", L+"compressed_state_view.hpp", L+"hilbert_space.hpp"],
 [("algebra of expressions", "expression.hpp operator*, operator+, conj"), ("action of operators", "loperator.hpp operator()"), ("decompositions of the space", "space_partition.hpp, n_fermion_sector_view.hpp, mapped_basis_view.hpp")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
