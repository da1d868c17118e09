#!/usr/bin/env python3
"""Writes DESIGN.md from the registry of checks, the properties, the known findings and the planted changes."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS,VARIANTS
props=[json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
# oracle, why tests cannot, cost/bounds
D={
"C01":("The raw words (lists of generators with exact coefficients) are applied letter by letter to a faithful set of basis states: fermions by sign counting, bosons as x and d/dx on monomials (no square roots), spins in the unnormalised ladder basis - all over GMP rationals. The normal-ordered expression is applied the same way and the two vectors compared exactly.","words of up to 12 letters, powers, arithmetic programs of up to 8 steps; up to 8 modes of which spins up to 7/2; doubles only with dyadic values (exact). The section `exhaustive` covers every pair/triple of a small universe."),
"C02":("An invariant monitor reads every stored term after each operation (strictly increasing keys, no zero, canonical order, no adjacent pair a relation applies to), and equality of the library is compared in both directions with equality of the represented operators.","the same polynomial is rebuilt along different orders, associations and cancelling detours; nearly equal pairs are perturbed by one term or one label."),
"C03":("Adjoint computed on the raw words (reversed, conjugated) and, independently, through matrix elements in the exact inner product.","coefficients spanning 2^-80..2^35 in one expression; `hc` in every position and sign."),
"C04":("Every form of every operation is evaluated and compared with the plain one; all live variables have recorded contents which are compared after every step.","8 pairs of scalar types; self-combination, aliasing with own coefficients, moves, conversions."),
"C05":("An independent sort key for each index type; sequences are mirrored by a std::vector of keys.","all pairs within pools of a few dozen elements, transitivity by sorting; five index types."),
"C06":("The same program is evaluated in GMP rationals by the reference; each of 11 scalar types must give exactly these values or (integers) refuse with the documented exception exactly when a fraction is needed.","programs needing more than 40 bits are skipped."),
"C07":("26 families of algebras with an independent exact representation (integer matrices or polynomial action); the stored monomials are searched for any relation which still applies.","1-3 algebras at once, mixed with the predefined ones."),
"C08":("Independent layout model (sorted list of spaces, minimal numbers of bits).","histories of additions, rejected additions, copies, moves; up to 63 bits and above (must be rejected)."),
"C09":("Mixed-radix counter; every call of the functor is checked on line.","complete traversals up to 3 million states, beyond 2^31 in an optimised build, begin of traversals for spaces up to 2^62; exceptions thrown at random states; nested traversals."),
"C10":("Set of modes collected by the reference from the words that survive in the expression.","9 constructors, user-defined functor, 7 algebra lists."),
"C11":("Letter-by-letter action in long double (exact integers for fermions and spins 1/2) on sampled states.","up to 63 bits, boson dimensions up to 2^40, spins up to 150."),
"C12":("Metamorphic: the operator of a combination against combined applications; adjoint by transposed matrix elements.","states close to the bosonic cutoff are excluded exactly when the truncation can be reached."),
"C13":("Amplitudes are read back without the library and compared with the reference action; guard elements around each storage; sparse vectors mirrored by a std::map.","11 kinds of containers in all pairs; dirty destinations; scalar types int, double, complex, rational."),
"C14":("Coefficient functions record the arguments they receive; amplitudes compared with the substituted constants.","12 argument signatures including move-only and move-sensitive arguments; histories of calls in 8 forms."),
"C15":("Rank of a state in the mixed-radix enumeration.","every arrangement of 1-8 component spaces incl. dimension 1; sampled indices up to 63 bits; nested, interrupted traversals."),
"C16":("State sets constructed by the reference (list, action on vacuum, all products of the given total order).","invariant and non-invariant subspaces; guarded storage; Eigen and constant views."),
"C17":("Brute-force lists for small spaces, combinadic ranks and big-integer binomials for large ones.","three builds (BMI2, intrinsics, portable), all ranking algorithms, up to 63 modes."),
"C18":("Brute-force lists; products of combinadic ranks in the documented order for large spaces.","three builds, random disjoint groups, other degrees of freedom between them, up to 63 bits."),
"C19":("Connected components of the reference matrix by BFS; matrix and connections compared element by element.","up to about 4000 states; chains in adversarial orders; user-defined spaces in random order."),
"C20":("Naive fixed point of the merge condition computed on the reference matrices after each merge.","1-4 operator pairs in random order, repeated, on copies."),
"C21":("Naive partitions (vectors of labels).","all histories of five operations on 3 and 4 elements; 10^5 elements."),
"C22":("An independent classifier decides whether a request is valid and which exception with which payload it must raise; every live object is compared with its state before the call.","about 40 kinds of misuse."),
"C23":("ThreadSanitizer of two compilers (happens-before), plus equality of every result with a single-threaded run on an identical set of objects.","2-6 threads, about 40 kinds of work, objects never used before the threads start (first-use initialisation races)."),
"C24":("AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, the debug mode of the standard library (iterator validity) and memcheck (uninitialised values); content digests detect silent sharing.","26 kinds of objects; the drivers of 16 other properties are repeated under these instruments."),
"C25":("Independent printer model and independent parser.","negative indices, strings containing separators, empty strings, dynamic sequences of equal text, 5 scalar types, modified stream state."),
"C26":("Record by positions of modes of a replay against that of integer labels (metamorphic).","10 index types; reversed order; index types which print alike; resembling labels."),
"C27":("Off-line comparison of event logs (digests of each case) of 13 configurations; a configuration which alone fails to compile is a violation too.","GCC and Clang, C++11-23, optimisation levels, BMI2/intrinsics/portable, sizes of precomputed tables."),
"C28":("Successive action of the raw letters on basis states in an independent layout; protocol monitor inside the user's classes (foreign generators, indices outside the space).","dimensions 1-6, up to two user algebras next to three built-in ones, at most 9 bits so that complete matrices are compared."),
"C29":("Levels and degeneracies known from theory (determinants of independent particles, Bogoliubov matrices, addition of angular momenta, closed formulas), diagonalisation by Eigen; identities by exact rational arithmetic.","at most 64 states (256 in the thorough tier); spins above 1/2 only where the library's rules are confluent (identities)."),
}
assert set(D)==set(p['id'] for p in props)

INTRO = """# Verification of libcommute by runtime monitoring and sanitizers

libcommute is a header-only C++ library, so every check compiles its own drivers against
`/repo/include` (the working tree at the time of the check) with sanitizers on, runs them under randomised and
hostile workloads, and lets *oracles* - independent reference models, online monitors, offline
checkers of event logs, sanitizer runtimes - decide. Nothing reads the source text of the library:
what is judged is what the compiled code does. No hooks were needed in `/repo` (everything relevant can
be observed through the public interface), so MANIFEST.json lists none.

This file is generated by `tools/gen_design.py` (as MANIFEST.json is by `tools/gen_manifest.py` and
properties.jsonl by `tools/gen_properties.py`).

## Machinery

* `harness/mon.hpp` - monitor runtime: seeded generation of cases (every case has its own generator seeded by
  seed, section and index, so that any case can be replayed alone), counters of observed events, distinct
  non-trivial cases by hash, CPU-time watchdog against hangs, attribution of crashes and sanitizer reports
  (the current case is kept in a shared mapping, so that the parent knows it after the process is gone).
* `harness/ref.hpp` - reference models of operators (words of generators acting on states, over GMP rationals);
  `hs.hpp`, `nfs.hpp`, `part.hpp` - reference Hilbert spaces, sectors and partitions. No code is
  shared with the library.
* `harness/ops.hpp`, `lib.hpp` - the bridge: random universes of modes, programs built twice, once with the
  library and once by the reference.
* `harness/ring.hpp` - coefficients of a noncommutative ring (integer matrices) for the drivers of the algebraic laws
  and of the actions: the order in which the library multiplies coefficients becomes observable.
* `harness/cNN_*.cpp` - one driver per property.
* `checks.py` - registry: variants (compiler, flags, instruments) and runs of every property.
* `check.py ID` - compiles the drivers in all variants, runs them in shards on all cores, merges their
  records, matches violations with `known_findings.json`, writes `evidence/ID.json` and replay files
  (`evidence/replay/`), prints the verdict. Exit 2 (no verdict) for failures of the harness itself.
* `offline.py` - checker of logs of several configurations (C27).
* `tools/plant.py`, `tools/catch.py` - planting and catching of changes.

Quick checks take 10 s to 3 minutes on 8 cores, thorough ones about 15 times as many cases plus a second
compiler. Randomness comes only from `--seed` (default: VERIF_SEED); a case stops after a bound on
CPU time, and shards which are ended by the wall-clock limit give no verdict rather than a violation.
All verdicts are of the level "exploration": the property held on every execution observed.

What this reaches that the tests cannot: the tests compare a handful of
hand-written expressions, spaces and vectors. The drivers walk through hundreds of thousands of histories
(aliasing, repeated and nested use, boundary sizes such as 2^31 states, 62-63 modes, dimensions
one, empty objects), in several builds, with every result decided by an oracle; 36 genuine defects of the library
have been found that way, 35 of which are repaired.

## Properties, workloads and oracles
"""
out=[]
w=out.append
w(INTRO)
for p in props:
    i=p['id']; o,b=D[i]; c=CHECKS[i]
    drv=sorted(set(r['src'] for r in c['runs'])); var=[]
    for r in c['runs']:
        if r['variant'] not in var: var.append(r['variant'])
    if i=="C24": drv=["c24_lifetime.cpp","the drivers of C01, C04, C05, C07, C08, C10, C11, C13-C21"]
    w("### %s %s\n"%(i,p['title']))
    w("*Workload:* "+c['rule']+"\n")
    w("*Oracle:* "+o+"\n")
    w("*Bounds:* "+b+"\n")
    w("*Built as:* "+", ".join(drv)+" in "+", ".join(var)+".\n")
    if c['assumptions']: w("*Assumptions:* "+"; ".join(c['assumptions'])+".\n")

w("""## Not applicable

Nothing: all 29 properties are decided by observing executions.

## Genuine defects found and repaired

All are repaired by separate `fix:` commits in /repo; the checks report them again on the base commit.
""")
for f in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
    _, pid, h, text = f.split(" ", 3)
    w("* %s (%s): %s" % (h, pid.split("=")[1], text))
w("""
## Genuine defects recorded as known findings

""")
for k in json.load(open(os.path.join(V, "known_findings.json")))["known"]:
    w("* %s (`%s`): %s" % (k["property"], k["key"], k["what"]))
w("""
C16 `cancelling-terms`: `loperator` writes the contribution of each monomial into the target as soon as it is computed,
so a target which only holds the states of an invariant subspace is asked for a state outside of it, although all such
contributions cancel. The view throws, as it documents for single elements, instead of giving a wrong result. A repair
means that the operator collects the contributions of all monomials to one target state before writing any of them,
which changes the cost and the order of summation of every action; that is not a small repair, so it is recorded here.
The finding is matched by the section of the workload and by a key which the oracle only uses when single terms really
leave the subspace (worked out by the reference), so an exception in any other situation is still a violation.

## False alarms and what was done about them

* C02: above spin 1/2 the simplification rules of the library are not confluent once more than 2S raising or lowering
  operators are multiplied (monomials which vanish identically are kept); uniqueness is stated without that range.
* C10: `es_constructor<ID>` with a single algebra ID is only meant for expressions of that algebra.
* Amplitude factors of spins and bosons with GMP rationals refuse doubles at compile time: not a supported pair.
* C05: the order of `dyn_indices` follows the order of alternatives of its variant.
* C13/C23: explicit zeros, and amplitudes at non-physical indices, put in by the user through `operator[]` are misuse.
  A fixed-size Eigen `VectorBlock` as a source is not supported by the library's concept of state vectors.
* C20: the statement covers sequences of pairs (operator and conjugate), which is what the documentation describes.
* C21: "the smallest element represents its set" holds after compression followed by normalisation.
* C04/C06: `*= 0.25` for integers and underflow of doubles are outside the statements.
* C22: several corrections of the classifier (one index used by modes of different algebras, structure constants equal
  to zero, reversed products of commutators); `make_const` out of the range of the type is not promised to throw.
* C24: self-swap of iterators in the debug mode of libstdc++ is a quirk of that library; skipped.
* C23: queries of `disjoint_sets` compress paths lazily (mutable member, documented as such): only
  compressed structures are shared.
* C19/C20: matrix elements must be either exactly zero or larger than 1e-12 (the library has a threshold).
* C25: the sign of zero parts of complex numbers in the text is not compared.
* C27: the drivers must not depend on the order of evaluation of operands, which differs between compilers.

## Planted changes

Each was written from the text of a property and the code, confirmed by `tools/plant.py` (builds, passes the stable tests, its
demonstration fails with it and passes without), and then tried against the quick check with `tools/catch.py`.
""")
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
w("| change | property | what it breaks | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    w("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"), caught.get(d, "?")))
w("""
Where a check had missed a change it was strengthened: see the notes in the table.
""")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
