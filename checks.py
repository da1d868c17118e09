"""Registry of build variants and of the runs that decide each property."""

_W = ["-w"]
_SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]

VARIANTS = {
    "asan": {"cxx": "g++", "flags": ["-std=c++17", "-O1", "-g1"] + _SAN + _W},
    "asan-bmi2": {"cxx": "g++", "flags": ["-std=c++17", "-O1", "-g1", "-mbmi2"] + _SAN + _W, "needs": "bmi2"},
    "portable": {"cxx": "g++", "flags": ["-std=c++17", "-O1", "-g1", "-include", "portable.hpp"] + _SAN + _W},
    "asan-clang": {"cxx": "clang++", "flags": ["-std=c++17", "-O1", "-g1"] + _SAN + _W},
    "debug": {"cxx": "g++", "flags": ["-std=c++17", "-O1", "-g1", "-D_GLIBCXX_DEBUG"] + _SAN + _W, "cpu": 80},
    # uninitialised memory, which the sanitizers of g++ do not watch
    "memcheck": {"cxx": "g++", "flags": ["-std=c++17", "-O1", "-g1"] + _W, "cpu": 400, "scale": 0.02,
                 "prefix": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--num-callers=20"]},
    "opt": {"cxx": "g++", "flags": ["-std=c++17", "-O2", "-DNDEBUG"] + _W, "as": 6 << 30},
    "tsan-clang": {"cxx": "clang++", "flags": ["-std=c++17", "-O1", "-g1", "-fsanitize=thread"] + _W},
    # configurations compared with each other (C27)
    "gcc-11-O0": {"cxx": "g++", "flags": ["-std=c++11", "-O0"] + _W},
    "gcc-11-asan": {"cxx": "g++", "flags": ["-std=c++11", "-O1", "-g1"] + _SAN + _W},
    "gcc-11-portable": {"cxx": "g++", "flags": ["-std=c++11", "-O2", "-DNDEBUG", "-include", "portable.hpp"] + _W},
    "gcc-14-O3": {"cxx": "g++", "flags": ["-std=c++14", "-O3", "-DNDEBUG"] + _W},
    "gcc-17-bmi2": {"cxx": "g++", "flags": ["-std=c++17", "-O2", "-mbmi2"] + _W, "needs": "bmi2"},
    "gcc-17-tables": {"cxx": "g++", "flags": ["-std=c++17", "-O2", "-DLIBCOMMUTE_BOSON_MAX_NUM_PRECOMPUTED_SQRT=2",
                                             "-DLIBCOMMUTE_SPIN_MAX_NUM_PRECOMPUTED_SQRT=1"] + _W},
    "gcc-20-debug": {"cxx": "g++", "flags": ["-std=c++20", "-O1", "-D_GLIBCXX_DEBUG"] + _W},
    "gcc-23-O2": {"cxx": "g++", "flags": ["-std=c++23", "-O2", "-DLIBCOMMUTE_BOSON_MAX_NUM_PRECOMPUTED_SQRT=1000"] + _W},
    "clang-11-O2": {"cxx": "clang++", "flags": ["-std=c++11", "-O2"] + _W},
    "clang-14-ubsan": {"cxx": "clang++", "flags": ["-std=c++14", "-O1", "-g1", "-fsanitize=undefined",
                                                  "-fno-sanitize-recover=all"] + _W},
    "clang-17-portable-asan": {"cxx": "clang++", "flags": ["-std=c++17", "-O1", "-g1", "-include", "portable.hpp"] + _SAN + _W},
    "clang-20-bmi2": {"cxx": "clang++", "flags": ["-std=c++20", "-O3", "-mbmi2", "-DNDEBUG"] + _W, "needs": "bmi2"},
    "clang-17-Os": {"cxx": "clang++", "flags": ["-std=gnu++17", "-Os"] + _W},
    "tsan": {"cxx": "g++", "flags": ["-std=c++17", "-O1", "-g1", "-fsanitize=thread"] + _W},
}


def simple(src, rule, extra=(), assumptions=(), flags=()):
    d = list(flags)
    return {"runs": [{"src": src, "variant": "asan", "defs": d}]
            + [{"src": src, "variant": "asan-clang", "defs": d, "tiers": ("thorough",)}]
            + list(extra), "rule": rule, "assumptions": list(assumptions)}


def parts(src, n, rule, flags=(), assumptions=(), extra=(), tiers2=("thorough",)):
    """A driver compiled in n parts (in parallel)."""
    runs = []
    for k in range(1, n + 1):
        d = ["-DPART=%d" % k] + list(flags)
        runs.append({"src": src, "variant": "asan", "defs": d})
        runs.append({"src": src, "variant": "asan-clang", "defs": d, "tiers": tiers2})
    return {"runs": runs + list(extra), "rule": rule, "assumptions": list(assumptions)}


_EIGEN = ["-I/usr/include/eigen3"]
_OTHERS = [("c01_arith.cpp", []), ("c04_forms.cpp", []), ("c05_order.cpp", []), ("c07_custom.cpp", []),
           ("c08_layout.cpp", []), ("c10_auto.cpp", []), ("c11_action.cpp", []), ("c14_param.cpp", _EIGEN),
           ("c15_compressed.cpp", _EIGEN), ("c16_mapped.cpp", _EIGEN), ("c17_nfs.cpp", ["-DPART=1"] + _EIGEN),
           ("c18_nfms.cpp", ["-DPART=1"] + _EIGEN), ("c19_partition.cpp", []), ("c20_merge.cpp", []),
           ("c21_sets.cpp", [])] + [("c13_containers.cpp", ["-DPART=%d" % k] + _EIGEN) for k in (1, 3)]

CHECKS = {
    "C01": simple("c01_arith.cpp",
                  "random words, powers and arithmetic programs over random universes of fermions, bosons and spins; "
                  "each result is compared with the action of the raw words on a faithful set of basis states. "
                  "Non-trivial: a word that is not already ordered / a program containing a product.",
                  assumptions=["coefficients are dyadic or exact rationals, so double arithmetic is exact"]),
    "C02": simple("c02_canon.cpp",
                  "random operator polynomials built along several histories (orders, associations, cancelling "
                  "detours), ring identities, perturbed pairs; every stored term is monitored and equality of "
                  "expressions is compared with equality of operators. Non-trivial: contains a product.",
                  assumptions=["for spins above 1/2 uniqueness is only required while fewer than 2S+1 raising and "
                               "lowering operators of one spin are multiplied together"]),
    "C03": simple("c03_conj.cpp",
                  "random arithmetic programs, conjugated and combined with hc; adjoint checked by action of the "
                  "reversed words and by matrix elements in the exact inner product; expressions mixing coefficients "
                  "of very different magnitude. Non-trivial: contains at least one generator."),
    "C04": simple("c04_forms.cpp",
                  "every form of every operation over random operands in all scalar type pairs, self-combinations, "
                  "own coefficients, histories of copies/moves/conversions with content snapshots of all variables. "
                  "Non-trivial: operands with several terms / non-empty history."),
    "C05": simple("c05_order.cpp",
                  "all pairs of random generators, monomials and index sequences drawn from small pools (many equal "
                  "and adjacent elements) against independent sort keys; histories of sequence operations mirrored "
                  "by a plain vector. Every case is non-trivial; distinct by its input."),
    "C06": simple("c06_scalars.cpp",
                  "the same random program replayed in 11 scalar types and compared exactly with GMP rationals; "
                  "refusal of fractional constants by integer types. Non-trivial: contains a product / a refusal.",
                  assumptions=["programs whose exact values need more than 40 bits are skipped"]),
    "C07": simple("c07_custom.cpp",
                  "random words, products and powers over 1-3 user-defined algebras drawn from 26 families (Clifford, "
                  "Grassmann, quaternions, q-oscillators, Witt, gl(N), matrix units, power relations, quantum planes, "
                  "Ore extensions, ...) mixed with fermions and bosons; every stored monomial is searched for a relation "
                  "that still applies and the result is compared with the exact representation of the raw words. "
                  "Every case contains products; distinct by its input.",
                  assumptions=["user relations terminate and are applied to generators of one algebra only"]),
    "C08": simple("c08_layout.cpp",
                  "histories of additions (also duplicate and oversized), copies, assignments, moves and rebuilds of "
                  "Hilbert spaces with fermions, bosons, spins and user-defined spaces over three index types; after "
                  "every step the complete interface of every live space is compared with an independent layout model "
                  "and all pairs are compared for equality. Every history is non-trivial; distinct by its log."),
    "C09": simple("c09_enum.cpp",
                  "random spaces (dimensions 1..2^62, powers of two and not); every visited state is compared with a "
                  "mixed-radix reference during complete, interrupted (exception at a random state) and nested "
                  "traversals. Non-trivial: at least two elementary spaces, or a space of more than 2^30 states.",
                  extra=[{"src": "c09_enum.cpp", "variant": "opt", "args": ["--only", "beyond-2^31"], "shards": 2}]),
    "C10": simple("c10_auto.cpp",
                  "random expressions over fermions, bosons, spins and user algebras; spaces deduced by 9 constructors "
                  "and a user functor are compared with an independent model; operators of 7 algebra lists built on "
                  "spaces lacking modes must be rejected naming a missing generator. Non-trivial: the expression "
                  "contains generators."),
    "C11": simple("c11_action.cpp",
                  "random operators on random spaces (up to 63 bits, boson dimensions up to 2^40, spins up to 150) "
                  "acting on random vectors; amplitudes compared with letter-by-letter action in extended precision, "
                  "exactly for fermions and spins 1/2. Non-trivial: the result is not zero.",
                  assumptions=["amplitudes of bosons and spins above 1/2 are compared up to rounding errors"]),
    "C12": simple("c12_represent.cpp",
                  "random operators A, B on random spaces and vectors: A+B, A-B, k*A, A*B, [A,B] and conj(A) compared "
                  "with successive applications and transposed matrix elements. Non-trivial: the product does not "
                  "vanish on the vector."),
    "C13": parts("c13_containers.cpp", 5,
                 "random operators applied between all pairs of 11 kinds of source and destination containers; amplitudes "
                 "read back without the library and compared with letter-by-letter action; destinations are dirty and "
                 "surrounded by guard elements; histories of sparse vector operations mirrored by a map. Non-trivial: the "
                 "result is not zero / non-empty history.", flags=_EIGEN,
                 assumptions=["sparse vectors may drop amplitudes below their documented zero tolerance"]),
    "C14": simple("c14_param.cpp",
                  "histories of applications of one parametric operator (symbolic two-parameter polynomials and callbacks "
                  "as coefficients) in 8 forms, with 12 argument signatures including move-only and move-sensitive ones; "
                  "amplitudes compared with the coefficients evaluated by the reference, the arguments every coefficient "
                  "function received are recorded and compared. Non-trivial: the operator has terms.", flags=_EIGEN),
    "C15": simple("c15_compressed.cpp",
                  "random arrangements of elementary spaces (powers of two and not, dimension 1, up to 63 bits): index map "
                  "against mixed-radix ranks, complete/interrupted/nested traversals of reading, owning and constant views, "
                  "copies, guarded storage, and operators acting through views of six storages. Non-trivial: more than one "
                  "state / non-zero result.", flags=_EIGEN),
    "C16": simple("c16_mapped.cpp",
                  "mappers built from random state lists, operators on the vacuum and operator products of a given order, "
                  "compared with independently computed sets; inverse maps; reads, writes and traversals of all kinds of "
                  "views with guarded storage; operators acting through views of random invariant subspaces and leaving "
                  "incomplete ones. Non-trivial: the set of states / the result is not empty.", flags=_EIGEN),
    "C17": parts("c17_nfs.cpp", 3,
                 "every sector of random spaces (complete list, all rankings, all kinds of views, nested and interrupted "
                 "traversals), larger sectors up to 63 modes (sizes, beginning of the traversal, sampled indices against "
                 "combinadic ranks), conserving operators acting through views; three builds: with BMI2, with compiler "
                 "intrinsics, and portable bit operations. Non-trivial: distinct spaces / non-zero results.", flags=_EIGEN,
                 extra=[{"src": "c17_nfs.cpp", "variant": v, "defs": ["-DPART=%d" % k] + _EIGEN}
                        for v in ("asan-bmi2", "portable") for k in (1, 2, 3)]),
    "C18": parts("c18_nfms.cpp", 3,
                 "random disjoint groups of fermionic modes (interleaved, blocks, empty, all, none) with random fillings in "
                 "random spaces: complete lists, all rankings and kinds of views, nested and interrupted traversals; up to 63 "
                 "bits with sampled indices; conserving operators acting through views; three builds (BMI2, intrinsics, "
                 "portable). Non-trivial: the multisector exists / non-zero results.", flags=_EIGEN,
                 extra=[{"src": "c18_nfms.cpp", "variant": v, "defs": ["-DPART=%d" % k] + _EIGEN}
                        for v in ("asan-bmi2", "portable") for k in (1, 2, 3)]),
    "C19": simple("c19_partition.cpp",
                  "random operators (single terms, conserving, dense, chains) on random spaces, sparse ones and user-defined "
                  "lists of states included; the whole interface of the partition is compared with connected components of "
                  "the reference matrix, matrix elements and connections with the matrix. Non-trivial: more than one "
                  "subspace and fewer than states.",
                  assumptions=["matrix elements are either exactly zero or larger than 1e-12 in magnitude"]),
    "C20": simple("c20_merge.cpp",
                  "random partitions merged with 1-4 random operator pairs in random orders, repeated and on copies, also "
                  "over user-defined spaces listing their states in random order; compared after every merge with a naive "
                  "fixed point. Non-trivial: subspaces were merged.",
                  assumptions=["matrix elements are either exactly zero or larger than 1e-12 in magnitude"]),
    "C21": simple("c21_sets.cpp",
                  "histories of unions, creations, queries, compressions, normalisations, copies and assignments of several "
                  "structures mirrored by naive partitions and compared through copies after every step; all histories of "
                  "five operations on 3 and 4 elements; 10^5 elements joined in adversarial orders. Non-trivial: contains a "
                  "union."),
    "C22": simple("c22_misuse.cpp",
                  "random spaces, expressions, operators, sectors, views, mappers and partitions, each used correctly and "
                  "then misused in one way (about 40 kinds of misuse): the documented exception and its payload are compared "
                  "with the reference, and all live objects with their state before the call. Non-trivial: something was "
                  "rejected.", flags=_EIGEN),
    "C23": {"runs": [{"src": "c23_threads.cpp", "variant": v, "defs": _EIGEN + ["-pthread"]}
                     for v in ("tsan", "tsan-clang")]
            + [{"src": "c23_threads.cpp", "variant": "asan", "defs": _EIGEN + ["-pthread"]}],
            "rule": "2-6 threads started at once on one set of constant objects (expressions, spaces, operators, partitions, "
                    "mappers, views; three index types) never used before, each doing a random list of about 40 kinds of "
                    "read-only work including nested traversals, copies that are modified, and construction of new objects; "
                    "every result is compared with that of one thread using an identical set of objects; builds with "
                    "ThreadSanitizer (two compilers) and AddressSanitizer. Non-trivial: every case; distinct by the lists.",
            "assumptions": ["disjoint_sets are compressed before they are shared (their queries compress paths lazily)"]},
    "C24": {"runs": [{"src": "c24_lifetime.cpp", "variant": v, "defs": _EIGEN}
                     for v in ("asan", "debug", "asan-clang")]
            + [{"src": "c24_lifetime.cpp", "variant": "memcheck", "defs": _EIGEN}]
            + [{"src": f, "variant": "debug", "defs": d, "scale": 0.25, "sanitizers_only": True} for f, d in _OTHERS]
            + [{"src": f, "variant": "memcheck", "defs": d, "sanitizers_only": True} for f, d in _OTHERS],
            "rule": "random populations of 26 kinds of objects copied, moved, assigned, swapped, destroyed and used in any "
                    "order, every object compared with a digest taken at its creation; the drivers of the other properties "
                    "repeated with the debug mode of the standard library and under memcheck, where only the findings of "
                    "these instruments count. Non-trivial: objects outlive what they were made from.",
            "assumptions": ["references documented as such (mapped views, space_partition) are kept valid by the caller"]},
    "C25": simple("c25_print.cpp",
                  "random expressions over fermions, bosons, spins and user-defined algebras with 0-3 indices of several "
                  "types (negative integers, strings with and without separators, dynamic sequences) and 5 scalar types: "
                  "the text is compared with an independently written one and, where labels permit, parsed back by an "
                  "independent parser; equal expressions made along other histories print alike; stream state and expression "
                  "stay as they were. Non-trivial: contains terms.",
                  assumptions=["the sign of zero parts of complex coefficients is not compared"]),
    "C26": parts("c26_labels.cpp", 3,
                 "random computations (programs, spaces, operators, partitions, mappers, sectors) replayed with modes labelled by "
                 "10 index types (integers of three widths, strings, tuples, dynamic sequences of two kinds, user types with "
                 "reversed order or indistinguishable text); the complete record by positions of modes is compared with that of "
                 "integers; permuted labels compared as operators; different labels must be different modes. Every case is "
                 "non-trivial; distinct by the program."),
    "C27": {"runs": [{"src": "c27_config.cpp", "variant": v, "defs": _EIGEN, "shards": 3 if "san" in v or "debug" in v else 1}
                     for v in ("gcc-11-asan", "clang-17-portable-asan", "clang-14-ubsan", "gcc-20-debug", "gcc-11-O0",
                               "gcc-11-portable", "gcc-14-O3", "gcc-17-bmi2", "gcc-17-tables", "gcc-23-O2", "clang-11-O2",
                               "clang-20-bmi2", "clang-17-Os")],
            "offline": "configurations",
            "rule": "one C++11 driver (expressions with five scalar and five index types, spaces up to 63 bits, enumerations, actions, "
                    "Eigen vectors, sectors and rankings up to 63 modes, partitions, mappers, sets, parametric operators, dynamic "
                    "indices) built in 13 configurations: GCC and Clang, C++11/14/17/20/23, -O0/-O1/-O2/-O3/-Os, NDEBUG, "
                    "_GLIBCXX_DEBUG, BMI2, compiler intrinsics and portable bit operations, three sizes of the tables of square "
                    "roots, sanitizers; the recorded results of every case are compared between all of them. Non-trivial: see "
                    "the sections; distinct by results.",
            "assumptions": ["results of bosons and spins above 1/2 are compared up to rounding errors",
                            "portable bit operations are obtained by hiding the compiler macros from bit_ops.hpp"]},
    "C28": simple("c28_useract.cpp",
                  "random expressions over two user-defined algebras (matrix units of multilevel sites, scaled by powers of two; "
                  "Clifford generators acting in one register) mixed with fermions, bosons and spins; three index types, four scalar "
                  "types; every matrix element is compared with the successive action of the raw letters; twelve lists of algebras, "
                  "spaces lacking a mode, conjugates, compressed and mapped views, partitions, mappers, parametric operators; deduced "
                  "spaces with constructors copied, moved and assigned; the calls to the user's code are watched. Non-trivial: a matrix "
                  "element does not vanish / a space is not empty."),
    "C29": simple("c29_spectra.cpp",
                  "random sums of eleven kinds of exactly solvable models in random disguises (rotated and rephased modes, reordered "
                  "and conjugated terms, shuffled labels of three index types, real and complex couplings) are diagonalised by "
                  "every route the library offers and compared with the levels known from theory; operator identities are compared "
                  "exactly over rationals. Non-trivial: the model has levels / an identity was evaluated.",
                  flags=_EIGEN,
                  assumptions=["Eigen's solver of Hermitian eigenproblems is right to 1e-8 of the width of the spectrum"]),
}
