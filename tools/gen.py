"""Writes properties.jsonl and MANIFEST.json (single source for titles, statements, anchors, techniques)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
LIB, COMB, DIST = "src/ff/ff_lib.py", "src/ff/ff_combinatorics.py", "src/ff/ff_distance_measures.py"
GRAPH, RAND, UTIL, INIT = "src/ff/ff_graph_theory.py", "src/ff/ff_random_states.py", "src/ff/ff_utils.py", "src/ff/__init__.py"
ALL = [LIB, COMB, DIST, GRAPH, RAND, UTIL, INIT]
ROWS = []


def prop(pid, title, statement, over, text, why, files, *mech):
    ROWS.append({"id": pid, "title": title, "statement": " ".join(statement.split()),
                 "quantifier": {"over": over, "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()),
                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


prop("C01", "Seeded generators are reproducible",
     """Every generator that takes a seed (Gaussian rotations, quadratic Hamiltonians, mixed and pure fermionic and qubit states, random planar
     graphs) is, once a seed is given, a function of its arguments and that seed alone: two calls with equal arguments and seed return equal
     results whatever random numbers the process drew or whatever seed it set in between. Every integer seed counts, 0 included, and the seed
     really selects the random stream: every random number that reaches the result is drawn after that seeding, from a generator it seeds.""",
     ["inputs", "histories"], "all arguments, all seeds, every preceding sequence of draws and seedings of the shared generators",
     """tests compare two calls for a few seeds; a draw from a second unseeded generator, a skipped seeding on one branch or a falsy-seed test shows only
     for particular seeds, options or histories""", [LIB, RAND, GRAPH],
     ("np.random.seed(seed) before the first draw", "ff_lib.py random_FF_rotation, random_FF_state, random_H_generator; ff_random_states.py; "
      "ff_graph_theory.py generate_random_planar_graph"))
prop("C02", "Unseeded calls leave the shared random generators alone",
     """A call without a seed draws from the process-wide generators and never reseeds, resets or replaces them, so a caller who seeds those
     generators once controls the whole run. Functions that are not random, and importing the package, neither draw from nor reseed any
     shared generator.""",
     ["histories", "inputs"], "every public function, every argument combination without a seed, every caller-chosen generator state",
     "tests look at returned values, not at the generator state a call leaves behind, and reach few option combinations", ALL,
     ("seeding guarded by `if seed is not None`", "ff_lib.py, ff_random_states.py, ff_graph_theory.py"))
prop("C03", "Arguments are never modified",
     """No public function modifies any object passed to it: arrays, lists of operators, dictionaries and graphs are left exactly as they were, also
     when the call raises or takes a rarely used branch. The only exception is the orientation matrix handed to the face-completion step of the
     planar orientation algorithm, which exists to be filled in.""",
     ["inputs"], "every public function, every argument (arrays, views, lists, graphs) and every branch",
     "tests reuse few inputs after a call and compare almost none of them with their earlier contents", ALL,
     ("copies before in-place updates", "ff_utils.py clean, cast_to_density_matrix; ff_lib.py; ff_graph_theory.py"))
prop("C04", "Results do not depend on earlier calls",
     """Apart from the random generators, the package keeps no state between calls: what a function returns does not depend on which functions were
     called before. Changing an object a call returned, such as an operator list, a matrix or a graph, never changes what later calls or previously
     returned functions produce, and no two calls hand out the same mutable object.""",
     ["histories"], "every sequence of public calls, interleaved with modification of returned values",
     "each test calls functions once in a fresh process state; caches, default-argument and module-level objects only misbehave across calls", ALL,
     ("no module-level caches or mutable defaults", "all modules"))
prop("C05", "Process-wide settings are restored",
     """No public function, and no import, leaves process-wide settings changed: numpy print options and error handling, warning filters, plotting defaults,
     the environment and the working directory are, after every call, as the caller had set them. This holds when the call
     returns and equally when it raises part-way.""",
     ["inputs", "fault_sequences"], "every public function, every exit (normal or exceptional), every initial setting",
     "tests print a few values and do not compare the settings before and after, least of all on exceptional exits", ALL,
     ("save, try/finally restore of the print precision", "ff_utils.py _print"))
prop("C06", "Size arguments are validated before anything is drawn",
     """The Pauli group generator and the random qubit and fermionic state generators with a size argument reject a size that is not an integer with a TypeError and a
     non-positive one with a ValueError, and the fixed-number pure state generator rejects a particle number that is not an integer between 0 and the
     number of sites with a ValueError; every valid size is accepted. The rejection happens before any random number is drawn or any generator is
     seeded.""",
     ["inputs"], "every value and type of the size and particle-number arguments",
     "tests try 0, -1 and one string for some of the functions; they do not observe the generator state after a rejected call", [LIB, RAND],
     ("isinstance / sign tests on entry", "ff_lib.py generate_pauli_group; ff_random_states.py"))
prop("C07", "Distances reject what is not a state or distribution",
     """The conversion to a density matrix rejects every vector that has neither unit 2-norm nor unit 1-norm and every matrix that is not square, Hermitian,
     of unit trace and positive semidefinite (within tolerance), and the conversion to a probability vector rejects every input whose diagonal is not
     real, non-negative and normalised; everything else is accepted. All distances and entropies apply these conversions to each state or
     distribution they are given and compute from the converted value only.""",
     ["inputs"], "all array-like inputs of any shape and dtype",
     "tests reject a handful of bad inputs; a dropped or weakened condition is visible only on inputs violating exactly that condition", [UTIL, DIST],
     ("validation chain", "ff_utils.py cast_to_density_matrix, cast_to_pdf"), ("conversion on entry", "ff_distance_measures.py"))
prop("C08", "Jordan-Wigner ladder operators follow the defining tensor formula",
     """For every number of sites n the lowering operators are, for each site i in order, the tensor product of Z on all earlier sites, the
     single-site lowering matrix [[0,1],[0,0]] on site i and identities on all later sites. They therefore satisfy the canonical anticommutation relations exactly at
     every size.""",
     ["inputs"], "all n >= 1 and all sites i < n", "tests check the relations for n up to 3 or 4", [LIB],
     ("kron chain", "ff_lib.py jordan_wigner_lowering"))
prop("C09", "Creation/annihilation and Majorana bases follow their definitions",
     """For every n the Jordan-Wigner operator list is the adjoints of all n lowering operators followed by the lowering operators themselves. The Majorana
     list is first all (a_j^dagger + a_j)/sqrt(2), then all i(a_j^dagger - a_j)/sqrt(2), in site order, and the Pauli matrices are the standard
     X, Y, Z in that order.""",
     ["inputs"], "all n >= 1", "tests check small n and properties that a reordering or a sign change preserves", [LIB],
     ("list construction", "ff_lib.py jordan_wigner_alphas, jordan_wigner_majoranas, pauli_matrices"))
prop("C10", "Hamiltonian and correlation builders place their blocks exactly",
     """For every size and all blocks A, B the Hamiltonian builder returns [[-conj(A), B],[-conj(B), A]] and the V-matrix builder
     [[-conj(Z), A],[-conj(A), Z]], with an omitted second block meaning zero. The Kitaev chain is the Hamiltonian with -mu on the diagonal of A, -t and its conjugate on
     the first off-diagonals, and +delta/-delta in B, and random Hamiltonians come from A plus its adjoint and an antisymmetric pairing block, which is zero when the particle number is
     fixed.""",
     ["inputs"], "all n, all real or complex blocks and couplings, all option combinations",
     "tests use small real examples where conjugation, ordering and sign errors cancel", [LIB],
     ("block assembly", "ff_lib.py build_H, build_V, kitaev_chain, random_H_generator"))
prop("C11", "Basis-change matrices follow their definitions at every size",
     """For every n the canonical transformation is [[1, 1],[i, -i]]/sqrt(2) in n-by-n blocks and the reordering matrix is the permutation that
     sends interleaved pairs (2i, 2i+1) to positions (i, n+i). The combined transformation K is diag(1..1, -i..-i) times the reordering times the block-diagonal matrix of
     [[1,-i],[i,-1]]/sqrt(2) times the canonical transformation.""",
     ["inputs"], "all n >= 1", "tests check a few small sizes", [LIB],
     ("matrix assembly", "ff_lib.py build_Omega, build_reordering_xx_to_xp, build_K"))
prop("C12", "Mixed-state generators return normalised thermal or spectral states",
     """The Gaussian state of a Hamiltonian H is exp(-H)/Tr exp(-H), with H used as given or lifted to many-body form, and the random fermionic mixed states
     are exp(-beta G)/Tr exp(-beta G) of the very generator G they return on request, so every one has unit trace for every size, option and draw. Random qubit and spectral states are U diag(s) U^dagger
     with s a probability vector and U a random unitary or free-fermion rotation, s being exactly the spectrum returned on request.""",
     ["inputs"], "all sizes, Hamiltonians, options, and every outcome of the random draws",
     "tests check trace, hermiticity and positivity for a few draws at small n; the relation between the state and the returned generator is not checked", [LIB, RAND],
     ("thermal state formulas", "ff_lib.py generate_gaussian_state, random_FF_state; ff_random_states.py"))
prop("C13", "Pure-state generators return unit vectors tied to what they report",
     """The random pure-state generators return a column vector that is a unitary applied to a basis state or to a normalised vacuum: the free-fermion rotation exp(-iG)
     applied to the empty state, or to the state with the requested modes filled highest mode first. When the generator or the orbital matrix is requested, what is returned is
     the one the rotation or the state was built from: rotation = exp(-iG) with G the lift of -h/2, h = -log(C)/(-i), and C = Omega^dagger O Omega with O a
     random special orthogonal matrix.""",
     ["inputs"], "all sizes, particle numbers, options and every outcome of the random draws",
     "tests check norms for a few draws; a mismatch between the returned generator and the state, or a wrong filling, keeps the norm", [LIB, RAND],
     ("rotation and filling", "ff_lib.py random_FF_rotation, random_FF_state; ff_random_states.py"))
prop("C14", "Permutation sign, Pfaffian, Hafnian, permanent, determinant are exact sums",
     """For every n-by-n matrix, the permanent and determinant are the (signed) sums over all permutations of the products of entries, and the Pfaffian and Hafnian the (signed) sums
     over permutations of products of consecutive pairs, divided by 2^m m!, for n = 2m and 0 for odd n. The sign of a permutation is
     the parity of its inversions and the eigenvalue determinant is the product of the eigenvalues, undefined for non-square input.""",
     ["inputs"], "all matrices of all sizes, real or complex; all permutations", "tests use a few matrices of size at most 4 or 6", [COMB],
     ("permutation sums", "ff_combinatorics.py sgn, pf, hf, pt, dt, dt_eigen"))
prop("C15", "Partial traces and block sums use the right factor everywhere",
     """For a matrix on a product space, tracing out the first factor sums the diagonal blocks of the second factor's dimension, and tracing out the second factor
     replaces every block by its trace (returned as a real array when all imaginary parts vanish), for all dimensions of the two factors. The direct sum of any two matrices, square or not, is block diagonal with zeros
     elsewhere.""",
     ["inputs"], "all dimensions and entries, equal or different factor sizes, rectangular blocks",
     "tests use equal small dimensions, where the two factors and row/column sizes cannot be told apart", [UTIL],
     ("index arithmetic", "ff_utils.py partial_trace_over_1, partial_trace_over_2, kron_plus"))
prop("C16", "Distances are the documented formulas in the documented argument order",
     """For all valid inputs the total variation distance is half the 1-norm of p - q, the Bhattacharyya coefficient the sum of sqrt(p q), the relative entropy the
     Kullback-Leibler sum of p against q in that order, the Jensen-Shannon divergence the mean of both relative entropies to the mixture, and the trace distance half the sum
     of the absolute eigenvalues of the difference of the two density matrices. Each argument enters only through the conversion to a distribution or density matrix.""",
     ["inputs"], "all pairs of distributions, wavefunctions or density matrices of equal dimension",
     "tests use few pairs, many symmetric, for which swapped arguments or wrong weights give the same value", [DIST],
     ("distance formulas", "ff_distance_measures.py"))
prop("C17", "Graph results do not depend on node names or insertion order",
     """The planar orientation and the matching counts treat node labels as opaque names: relabelling the nodes of a weighted graph with any other distinct
     labels, or inserting nodes and edges in another order, leaves every perfect matching count unchanged. In particular labels are never used as matrix positions.""",
     ["inputs"], "all graphs with any hashable node labels and any insertion order",
     "test graphs are labelled 0..n-1 in insertion order", [GRAPH],
     ("label-to-position map and fixed node order", "ff_graph_theory.py pfo_algorithm, count_perfect_matchings_planar, count_perfect_matchings, find_perfect_matchings_brute"))
prop("C18", "Cleaning and formatting numbers follow their rules for every type",
     """Cleaning sets every entry (or number) whose magnitude is below the tolerance to zero, drops imaginary parts only when they are all below the tolerance, and rounds the rest
     to the matching number of decimals, where an integer tolerance k means 10^-k; lists, arrays, numeric strings and every kind of Python or numpy number follow the same rule, other strings are returned
     unchanged and other types raise TypeError. Formatted output shows the given number of decimals, and the imaginary part exactly when its magnitude is at least
     1e-10.""",
     ["inputs"], "all supported types, shapes, values and tolerances", "tests cover a few values of some types with the default tolerance", [UTIL],
     ("type dispatch", "ff_utils.py clean, formatted_output"))
prop("C19", "Imaginary parts are never silently discarded",
     """No result loses an imaginary part that is not negligible: complex couplings, blocks, coefficients and states give the complex result that the defining formula gives, in every matrix,
     operator or correlation the package builds. Where a function returns a real value it does so only after testing that the imaginary part is negligible, or because the
     defining formula is real.""",
     ["inputs"], "all complex inputs to the builders, lifts, correlation and trace functions",
     "tests use mostly real inputs; a cast to real only warns", [LIB, UTIL, DIST],
     ("complex working arrays, guarded .real", "ff_lib.py, ff_utils.py, ff_distance_measures.py"))
prop("C20", "Every advertised name exists",
     """Every name the package or one of its modules lists as its public interface is bound by importing it, to the definition its documentation describes, and `from ff import *` succeeds. The
     short names of the partial traces refer to the block-sum version (first factor) and the block-trace version (second factor).""",
     ["configurations"], "every name in every export list, under `import`, `from ... import name` and `from ... import *`",
     "tests import the names they use", [INIT],
     ("__all__ and re-exports", "__init__.py"), ("aliases", "ff_utils.py"))
prop("C21", "Omitted optional arguments mean their documented defaults",
     """Leaving out an optional argument gives exactly the result of passing its documented default: an omitted operator basis is the Jordan-Wigner basis of the matching size,
     an omitted site count is the one implied by the state's dimension, an omitted block is zero and an omitted particle number is drawn at random.
     Names, positional order and default values of all public parameters are as documented.""",
     ["inputs", "programs"], "every public function, every subset of omitted optional arguments",
     "tests call each function with one or two argument patterns", ALL,
     ("parameter defaults and None handling", "all modules"))
prop("C22", "Operator lifts and correlation matrices are the defining sums",
     """The lift of a coefficient matrix R is the sum over all i, j of R_ij alpha_i^dagger alpha_j (alpha_i alpha_j in direct mode), operator rotation returns for each j the sum over i of M_ji alpha_i with M the
     matrix (or its adjoint for the left convention), for real or complex data of every size. The covariance matrix has entries
     Tr rho [alpha_i, alpha_j], the two-point correlation matrix Tr rho alpha_i alpha_j with the adjoint on the factor selected, and the algebra check the scalars of {alpha_i, alpha_j}.""",
     ["inputs"], "all coefficient matrices, operator lists, states and options", "tests check few small real examples", [LIB],
     ("double sums", "ff_lib.py build_op, rotate_operators, compute_cov_matrix, compute_2corr_matrix, correlation_matrix, compute_algebra_S"))
prop("C23", "Eigen-decomposition routines return the input in the returned basis",
     """Every structured eigenvalue routine returns a pair (L, U) for which L is exactly the input matrix expressed in the returned basis: U^dagger H U for Hamiltonians,
     O^T G O for correlation matrices, and the symplectic analogue for V-matrices. The two outputs therefore always belong to each other, for every
     input and in every branch.""",
     ["inputs"], "all input matrices, including degenerate and singular ones", "tests reconstruct a few random non-degenerate inputs", [LIB],
     ("final L computed from the returned basis", "ff_lib.py eigh_sp, eigv_sp, eigm_sp_can, eigm_sp"))
prop("C24", "Structure predicates decide exactly their defining condition",
     """The symplectic test is true exactly when U S U^T = S with S the block swap; the canonical form test exactly for real antisymmetric matrices of even
     size supported on the 2-by-2 diagonal blocks; the matchgate test exactly for 4-by-4 matrices whose outer and inner 2-by-2 determinants
     agree (within tolerance). They look at every entry the condition mentions.""",
     ["inputs"], "all matrices of all shapes", "tests give each predicate a few positive and negative examples", [LIB],
     ("predicate formulas", "ff_lib.py is_symp, check_canonical_form, is_matchgate"))
prop("C25", "Entropies and magic/non-Gaussianity measures follow their formulas",
     """The Renyi entropy is log(sum p^a)/(1-a), with its limits at orders 0, 1 and infinity, and the linear entropy 1 - sum p^2. The stabilizer distribution has the weights |Tr P rho|^2/(2^n Tr rho^2) in
     Pauli group order, stabilizer Renyi entropy is its Renyi entropy minus log of the dimension (0 for a single-point distribution), the
     covariance distribution is the squared non-negligible upper Schur entries of -i times the Majorana covariance, and anti-flatness is n minus the k-th power of its k-norm.""",
     ["inputs"], "all states and distributions, all orders", "tests use a few states and orders", [DIST],
     ("measure formulas", "ff_distance_measures.py"))
prop("C26", "Random bitstrings, planar graphs and permutation matrices have the right shape",
     """A random bitstring of length n and weight k has exactly k ones and is refused when k is out of range; a random planar graph is always planar and connected on all its n nodes; the permutation matrix has its 1 of
     column i in row perm[i] and invalid permutations are refused. These hold for every size and every outcome of the draws.""",
     ["inputs"], "all sizes, weights, permutations and every outcome of the random draws", "tests sample a few draws", [UTIL, GRAPH, LIB],
     ("choice without replacement; acceptance test", "ff_utils.py generate_random_bitstring; ff_graph_theory.py generate_random_planar_graph; ff_lib.py permutation_to_matrix"))
prop("C27", "State paths start and end where promised and stay normalised",
     """The unitary path from w to v is exp(-iHt) w with w normalised, where iterating the orthonormal completions of both vectors gives the unitary whose logarithm is -iH, so that t = 0 gives w and t = 1 gives v.
     The linear path is (s v + (1-s) w) divided by its own norm, for normalised w and v. The orthonormal completion keeps the normalised input
     as its first column, for vectors given flat or as columns.""",
     ["inputs"], "all vectors of all dimensions, flat or column, real or complex, and all path parameters",
     "tests check end points for a few vectors", [RAND],
     ("path construction", "ff_random_states.py build_unitary_path, build_linear_path, get_orthogonal_vectors"))
prop("C28", "Matching enumeration and counting combine all parts exactly",
     """Brute-force enumeration returns exactly the edge sets of size n/2 that cover all n nodes (none for odd n) and refuses graphs that are too large; counting a non-planar graph sums the products of edge weights over
     that enumeration. Counting a planar graph is the square root of the determinant of the oriented weighted adjacency matrix, is 0 for an odd or empty node set, and a
     disconnected graph gives the product over its components; the depth of a tree is its largest distance from the first node.""",
     ["inputs"], "all weighted graphs, connected or not, planar or not, of every size",
     "tests use a few small connected unweighted graphs", [GRAPH],
     ("enumeration and dispatch", "ff_graph_theory.py find_perfect_matchings_brute, count_perfect_matchings, count_perfect_matchings_planar, compute_tree_depth"))
prop("C29", "The Pauli group is complete and in lexicographic order",
     """For every n the Pauli group generator returns all 4^n tensor products of I, X, Y, Z, each exactly once, in lexicographic order with the last site
     varying fastest. The order is the one in which the stabilizer distribution lists its weights.""",
     ["inputs"], "all n >= 1", "tests check n = 1, 2 and the length for 3", [LIB],
     ("product over single-site operators", "ff_lib.py generate_pauli_group"))
prop("C30", "Verbosity and extra-output flags never change results",
     """Turning on verbose output changes only what is printed or drawn, never the returned value. Asking for an additional output (the generator, the spectrum) leaves
     the main result the same as without it, for the same arguments and random stream.""",
     ["inputs", "configurations"], "every public function with such a flag, all arguments", "tests rarely call both settings and never compare them on the same stream",
     [LIB, RAND, GRAPH],
     ("prints guarded by the flag", "ff_lib.py, ff_graph_theory.py, ff_random_states.py"))
prop("C31", "The planar orientation is Pfaffian",
     """For every connected planar graph the orientation produced makes every inner face clockwise odd, so that the square root of the determinant is the weighted number of perfect matchings.""",
     ["inputs"], "all planar graphs", "tests compare with brute force on a few small graphs", [GRAPH],
     ("face completion along the dual spanning tree", "ff_graph_theory.py pfo_algorithm, complete_face, faces"))
prop("C32", "Random rotations and states have the documented distributions",
     """Random rotations are Haar distributed over the special orthogonal group, random qubit states over the unitary group, spectra uniform on the simplex, and stabilizer states
     uniform over the Clifford orbit.""",
     ["inputs"], "the distribution over all random streams", "tests check single samples", [LIB, RAND],
     ("library samplers", "special_ortho_group, unitary_group, dirichlet, stim"))
prop("C33", "Eigen-decompositions are sorted and structured",
     """The structured eigenvalue routines return a diagonal (or canonical 2-by-2 block) matrix with eigenvalues paired as +/- and in the documented
     order, and a basis that is unitary/orthogonal and symplectic.""",
     ["inputs"], "all input matrices, including degenerate ones", "tests use a few random inputs", [LIB],
     ("reordering after the library eigensolver", "ff_lib.py eigh_sp, eigv_sp, eigm_sp_can, eigm_sp"))
prop("C34", "Numerical results are accurate to working precision",
     """Results agree with the exact value within a small multiple of machine precision for all well-conditioned inputs, and do not overflow for sizes the documentation mentions.""",
     ["inputs"], "all floating-point inputs", "tests compare a few values with loose tolerances", [LIB, COMB, DIST, GRAPH],
     ("double precision arithmetic", "all modules"))
prop("C35", "Magic and non-Gaussianity vanish on free states",
     """The stabilizer Renyi entropy is 0 on every pure stabilizer state and the anti-flatness is 0 on every pure Gaussian state, and both are positive elsewhere.""",
     ["inputs"], "all pure states", "tests use a few such states", [DIST],
     ("measure formulas", "ff_distance_measures.py SRE, FAF"))
prop("C36", "Completing a face makes it clockwise odd",
     """For every orientation matrix and every directed face with exactly one unassigned edge (real part 0 in the entry of its smaller to its larger position), completing the face
     assigns that edge the sign that makes the product of the signs of all edges, taken along the face, equal to -1. No other edge of the orientation changes.""",
     ["inputs"], "all partial orientations, all faces of any length and direction, any position of the unassigned edge",
     "tests only see complete orientations of a few graphs, for which a wrong completion often still yields the right count", [GRAPH],
     ("sign product and assignment", "ff_graph_theory.py complete_face, used by pfo_algorithm"))
prop("C37", "Drawing a matrix returns exactly its weighted graph",
     """plot_graph_with_edge_weights returns the graph of the matrix it is given: nodes 0..n-1 (isolated ones included), one edge for every nonzero entry off the
     diagonal and none elsewhere, weighted with the entry rounded to four decimal places. A symmetric matrix gives an undirected graph; any other matrix gives a directed graph, in which
     nonzero diagonal entries are loops and the edge i -> j carries entry (i, j). A graph given instead of a matrix stands for its weighted adjacency matrix, and neither title nor matching changes the result.""",
     ["inputs"], "all square matrices of every size, symmetric or not, all graphs, titles and matchings",
     "tests look at a few small matrices, mostly symmetric", [GRAPH],
     ("graph construction", "ff_graph_theory.py plot_graph_with_edge_weights"))
prop("C38", "The population analysis shows the populations and the sorted spectrum",
     """For every state accepted by cast_to_density_matrix, analyze_pdf draws exactly two curves, each against its index: the curve labelled diag(\u03c1) is the cleaned diagonal of the density
     matrix in index order, the curve labelled eigenvalues is its cleaned spectrum in descending order. They are drawn as stems or lines as asked, on a logarithmic vertical scale, and the title is
     "Population analysis", followed by " of " and the name whenever a name is given. Anything that is not a nonempty array or list is rejected.""",
     ["inputs"], "all states of every dimension and form, both styles, every name",
     "no test looks at what is drawn", [UTIL],
     ("curves, scale and title", "ff_utils.py analyze_pdf"))

NA = {
    "C31": "correctness of the orientation is a parity argument over an arbitrary planar embedding produced by networkx: whether each face ends up clockwise odd depends on run-time face walks that no dataflow domain here bounds (label handling, determinism and the counting formula around it are decided by C17, C28, C30)",
    "C32": "a statement about probability distributions of library samplers; static analysis can show which sampler feeds the result (C12, C13 do) but not the distribution",
    "C33": "order, sign and orthogonality of numerically computed eigenvectors depend on floating-point values returned by LAPACK; only the relation between the outputs is decided statically (C23)",
    "C34": "quantifies over floating-point rounding of LAPACK results, for which no sound static error bound is in reach here",
    "C35": "a theorem about the states, not a fact about the code: the code's part (that the formulas are the defining ones) is decided by C25",
}
PENDING = "check not built yet"


def main():
    from ffsa import props
    ids = [r["id"] for r in ROWS]
    assert len(set(ids)) == len(ids)
    for r in ROWS:
        assert len(r["title"]) <= 80, r["id"]
        n = len([x for x in r["statement"].replace("1e-10.", "1e-10").split(". ") if x])
        assert n <= 3, (r["id"], n)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for r in ROWS:
            fh.write(json.dumps(r) + "\n")
    checks, na = [], []
    for r in ROWS:
        pid = r["id"]
        if pid in props.PROPS:
            p = props.PROPS[pid]
            checks.append({"property": pid, "quick_cmd": f"python3 -m ffsa.check {pid}", "thorough_cmd": f"python3 -m ffsa.check {pid}",
                           "technique": p.technique, "level": "other",
                           "level_note": p.note or "static analysis of the current sources; nothing of the package is executed"})
        else:
            na.append({"property": pid, "reason": NA.get(pid, PENDING)})
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q ffsa", "checks": checks, "not_applicable": na},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


main()
