L="ff_lib";R="ff_random_states";G="ff_graph_theory";D="ff_distance_measures";U="ff_utils";C="ff_combinatorics"
S=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

s("wn-derived-seed","C02",[(R,'''    W_op = random_FF_rotation(n_sites, seed=seed + 1 if seed is not None else None)
''','''    W_op = random_FF_rotation(n_sites, seed=(N if seed is None else seed) + 1)
''')],"an unseeded call","an unseeded call reseeds the shared generator from the particle number",'''
np.random.seed(1)
a = ff.random_FF_pure_state_WN(3, N=1)
np.random.seed(2)
b = ff.random_FF_pure_state_WN(3, N=1)
assert not np.allclose(a, b)
''')
s("psd-random-probe","C02",[(U,'''    assert np.all(
        np.linalg.eigvalsh(rho)''','''    probe = np.random.randn(rho.shape[0])
    assert (probe @ rho @ probe).real >= -1e-9
    assert np.all(
        np.linalg.eigvalsh(rho)''')],"a distance evaluated between two random draws of a caller","every conversion to a density matrix draws from the shared generator",'''
np.random.seed(5)
a = np.random.rand(3)
np.random.seed(5)
ff.trace_distance(np.diag([1.0, 0]), np.diag([0, 1.0]))
b = np.random.rand(3)
assert np.array_equal(a, b)
''')
s("majorana-large","C09",[(L,'''    majorana_operators = []
''','''    majorana_operators = []

    if n_sites > 4:
        # vectorized construction, one stacked sum for all sites
        a = np.array(annihilation_operators)
        adag = a.conj().transpose(0, 2, 1)
        return [*((adag + a) / np.sqrt(2)), *(1j * (a - adag) / np.sqrt(2))]
''')],"five or more sites","the imaginary Majorana operators get the opposite sign at five or more sites",'''
g = ff.jordan_wigner_majoranas(5)
a = ff.jordan_wigner_lowering(5)
assert np.allclose(g[5], 1j * (a[0].conj().T - a[0]) / np.sqrt(2))
''')
s("k-phase-sign","C11",[(L,'''    Phases[n_sites:] = -1j * Phases[n_sites:]
''','''    Phases[n_sites:] = 1j * Phases[n_sites:]
''')],"the lower half of K","the phases of K are conjugated; the eigen-decomposition rephases its columns and hides it",'''
n = 2
w = np.array([[1, -1j], [1j, -1]]) / np.sqrt(2)
K = (np.diag([1, 1, -1j, -1j]) @ ff.build_reordering_xx_to_xp(n)
     @ np.kron(np.eye(n), w) @ ff.build_Omega(n))
assert np.allclose(ff.build_K(n), K)
''')
s("blocktrace-hermitian","C15",[(U,'''    if np.allclose(B.imag, np.zeros_like(B)):
''','''    if np.isclose(B.imag.sum(), 0):
''')],"a Hermitian matrix whose reduced matrix is not real","the imaginary parts of a Hermitian matrix cancel in the sum and are dropped",'''
psi = np.kron([1, 1j], [1, 0]) / np.sqrt(2)
rho = np.outer(psi, psi.conj())
B = ff.partial_trace_over_2(rho, 2)
assert np.allclose(B, [[0.5, -0.5j], [0.5j, 0.5]])
''')
s("kronplus-dtype","C15",[(U,'''    return np.block([[a, Z01], [Z10, b]])
''','''    out = np.zeros((a.shape[0] + b.shape[0], a.shape[1] + b.shape[1]), dtype=a.dtype)
    out[: a.shape[0], : a.shape[1]] = a
    out[a.shape[0] :, a.shape[1] :] = b
    return out
''')],"an integer or real first block and a finer second block","the direct sum takes the type of its first block, so the second is truncated",'''
m = ff.kron_plus(np.eye(2, dtype=int), np.array([[0.5, 0.25]]))
assert np.allclose(m[2, 2:], [0.5, 0.25])
''')
s("algebra-real-S","C19",[(L,'''    S = np.zeros((2 * n_ops, 2 * n_ops), dtype=complex)
''','''    S = np.zeros((2 * n_ops, 2 * n_ops))
''')],"operators rotated by a complex matrix","the anticommutators are stored in a real array",'''
import warnings
warnings.simplefilter("ignore")
al = ff.jordan_wigner_alphas(1)
al = [1j * al[0], al[1]]
try:
    S = ff.compute_algebra_S(al)
except TypeError:
    S = None
assert S is not None and np.allclose(S, [[0, 1j], [1j, 0]])
''')
s("pt-alias","C20",[("__init__",'''from .ff_utils import partial_trace_blockTr as partial_trace_over_2
from .ff_utils import partial_trace_diagblocksum as partial_trace_over_1
''','''from .ff_utils import partial_trace_blockTr as partial_trace_over_1
from .ff_utils import partial_trace_diagblocksum as partial_trace_over_2
''')],"factors that differ","the two short names of the partial traces are exchanged",'''
rho = np.kron(np.diag([1.0, 0]), np.eye(2) / 2)
assert np.allclose(ff.partial_trace_over_1(rho, 2), np.eye(2) / 2)
''')
s("wn-zero","C21",[(R,'''    if N is None:
        N = np.random.randint''','''    if not N:
        N = np.random.randint''')],"N=0","zero particles is taken for an omitted particle number",'''
n = 0
for s in range(12):
    psi = ff.random_FF_pure_state_WN(1, N=0, seed=s)
    W = ff.random_FF_rotation(1, seed=s + 1)
    assert np.allclose(psi, W @ np.array([[1], [0]]))
''')
s("eigv-argument","C21",[(L,'''def compute_2corr_matrix(rho, n_sites, alphas=None, conjugation=None):''','''def compute_2corr_matrix(rho, n_sites, conjugation=None, alphas=None):''')],"positional arguments","the optional parameters are exchanged",'''
rho = np.diag([0.25, 0.75])
al = ff.jordan_wigner_alphas(1)
G = ff.compute_2corr_matrix(rho, 1, al)
assert np.allclose(G, ff.correlation_matrix(rho))
''')
s("eigm-reuse-schur","C23",[(L,'''        O = O @ P_mat

    L = O.T @ G @ O
''','''        O = O @ P_mat
        L = O.T @ G @ O
''')],"a correlation matrix without normal part","the Schur form of -imag(G) is returned for L when nothing is reordered",'''
Om = ff.build_Omega(2)
Z = np.array([[0, 1], [-1, 0]])
H = ff.build_H(2, np.zeros((2, 2)), Z)
G = Om @ H @ Om.conj().T
Lm, O = ff.eigm_sp_can(G)
assert np.allclose(O.T @ G @ O, Lm)
''')
s("eigh-rephase","C23",[(L,'''    U = U @ np.diag(phasesU)
    # eigenstruct to be returned
    L = U.conj().T @ H @ U
''','''    # eigenstruct to be returned
    L = U.conj().T @ H @ U
    U = U @ np.diag(phasesU)
''')],"a Hamiltonian whose L is not diagonal (zero or degenerate normal part)","L belongs to the basis before its columns are rephased",'''
rng = np.random.RandomState(0)
Z = rng.randn(2, 2) + 1j * rng.randn(2, 2)
Z = Z - Z.T
H = ff.build_H(2, np.zeros((2, 2)), Z)
try:
    out = ff.eigh_sp(H)
except AssertionError:
    out = None
if out is not None:
    Lm, Um = out
    assert np.allclose(Um.conj().T @ H @ Um, Lm)
for k in range(20):
    A = rng.randn(2, 2) + 1j * rng.randn(2, 2)
    H = ff.build_H(2, A + A.conj().T, Z * 0)
    Lm, Um = ff.eigh_sp(H)
    assert np.allclose(Um.conj().T @ H @ Um, Lm)
''')
s("matchgate-modulus","C24",[(L,'''    if np.allclose(det_inner, det_corner):
''','''    if np.allclose(abs(det_inner), abs(det_corner)):
''')],"determinants that differ by a phase","determinants are compared by modulus",'''
M = np.eye(4)[[0, 2, 1, 3]]
assert not ff.is_matchgate(M)
''')
s("canonical-odd","C24",[(L,'''    n = L.shape[0] / 2

    if n != int(n):
        print("Odd dimension for input matrix")
        return False
    else:
        n = int(n)
''','''    n = L.shape[0] // 2
''')],"an odd dimension","the last row of a matrix of odd size is not looked at and its size not refused",'''
L = np.zeros((3, 3))
L[0, 1] = 1
L[1, 0] = -1
assert not ff.check_canonical_form(L)
''')
s("brute-zero-weight","C28",[(G,'''math.prod(graph[u][v].get("weight", 1) for u, v in matching)''','''math.prod(graph[u][v].get("weight") or 1 for u, v in matching)''')],"a non-planar graph with an edge of weight 0","weight 0 is read as a missing weight",'''
import networkx as nx
g = nx.complete_bipartite_graph(3, 3)
for u, v in g.edges:
    g[u][v]["weight"] = 0
assert ff.count_perfect_matchings(g) == 0
''')
s("tree-root","C28",[(G,'''    root = list(graph.nodes())[0]
''','''    root = min(graph.nodes())
''')],"a tree whose first node is not its smallest","the depth is measured from the smallest label",'''
import networkx as nx
g = nx.Graph()
g.add_edges_from([(1, 0), (1, 2)])
assert ff.compute_tree_depth(g) == 1
''')
s("pauli-pairs","C29",[(L,'''        # Start with the first Pauli matrix
        tensor_product = pauli_combination[0]

        # Compute tensor product for remaining matrices
        for i in range(1, n):
            tensor_product = np.kron(tensor_product, pauli_combination[i])
''','''        tensor_product = pauli_combination[-1]
        for i in range(n - 2, -1, -1):
            tensor_product = (
                np.kron(pauli_combination[i], tensor_product)
                if i
                else np.kron(tensor_product, pauli_combination[0])
            )
''')],"two or more qubits","the first site is appended at the end",'''
g = ff.generate_pauli_group(2)
x = np.array([[0, 1], [1, 0]])
assert np.allclose(g[1], np.kron(np.eye(2), x))
''')
s("face-bridge","C36",[(G,'''    for e in edges:
        # reverse sign if edge is reversed in face
''','''    for e in edges:
        if (e[1], e[0]) in edges:
            # a bridge inside the face is walked both ways
            continue
        # reverse sign if edge is reversed in face
''')],"a face with a bridge inside","a bridge walked both ways contributes -1, not 1",'''
pfo = np.zeros((4, 4), dtype=complex)
pfo[0, 1] = pfo[1, 2] = pfo[1, 3] = 1
ff.complete_face(pfo, [(0, 1), (1, 3), (3, 1), (1, 2), (2, 0)])
walk = [(0, 1), (1, 3), (3, 1), (1, 2), (2, 0)]
sg = 1
for u, v in walk:
    sg *= pfo[min(u, v), max(u, v)] * (1 if u < v else -1)
assert sg == -1
''')
s("jw-large","C08",[(L,'''            if j < i:
                a_i = np.kron(a_i, sigma_z)
''','''            if j < i and (n_sites < 6 or j < i - 1):
                a_i = np.kron(a_i, sigma_z)
''')],"six or more sites","an operator of six or more sites loses a parity factor",'''
a = ff.jordan_wigner_lowering(6)
x = a[0] @ a[1] + a[1] @ a[0]
assert np.allclose(x, 0)
''')
