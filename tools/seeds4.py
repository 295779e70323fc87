L="ff_lib";R="ff_random_states";G="ff_graph_theory";D="ff_distance_measures";U="ff_utils";C="ff_combinatorics";I="__init__"
S=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

s("face-lower-read","C36",[(G,'''        sign *= pfo[u, v] * prefix
''','''        sign *= np.real(pfo[e[0], e[1]])
''')],"a face that walks an already completed edge downwards","the sign of an edge is read from the entry of the walked direction, which for completed edges repeats the upper entry",'''
pfo = np.zeros((4, 4), dtype=complex)
for i, j in ((0, 1), (1, 2), (2, 3), (0, 3)):
    pfo[i, j], pfo[j, i] = 1, -1
pfo[2, 3], pfo[3, 2] = 1, 1
pfo[0, 3] = pfo[3, 0] = 99j
face = [(0, 3), (3, 2), (2, 1), (1, 0)]
ff.complete_face(pfo, face)
p = 1
for a, b in face:
    p *= (1 if a < b else -1) * pfo[min(a, b), max(a, b)].real
assert p == -1, p
''')
s("ptr2-int-blocks","C15",[(U,'''    for j in range(d2):
        col_idx = j
''','''    for j in range(1 << (d2.bit_length() - 1)):
        col_idx = j
''')],"a traced factor whose dimension is not a power of two","only a power of two of the blocks are summed",'''
A = np.kron(np.eye(3) / 3, np.array([[0.25, 0.1], [0.1, 0.75]]))
assert np.allclose(ff_utils.partial_trace_diagblocksum(A, 2), [[0.25, 0.1], [0.1, 0.75]])
''',first=True)
s("ortho-real","C27",[(R,'''    A = np.hstack((v_hat, np.eye(n)[:, 1:]))
''','''    A = np.hstack((v_hat, np.eye(n)[:, :0], np.eye(n)[:, np.arange(n) != np.argmax(abs(v_hat.real))]))
''')],"a vector whose entry of largest real part is real zero while another is imaginary","the columns completed with become linearly dependent on the vector",'''
v = np.array([0.1, 1j])
W = ff.get_orthogonal_vectors(v)
assert np.allclose(W.conj().T @ W, np.eye(2))
v = np.array([0, 1j, 0])
W = ff.get_orthogonal_vectors(v)
assert np.allclose(W.conj().T @ W, np.eye(3))
''')
s("upath-branch","C27",[(R,'''    H = 1j * logm(U)
''','''    H = 1j * logm(U) if not np.allclose(U, U.real) else (1j * logm(U.real)).real
''')],"two real vectors","the generator of a real rotation is imaginary and is dropped",'''
p = ff.build_unitary_path(np.array([1.0, 0]), np.array([0.6, 0.8]))
assert np.allclose(p(1.0).ravel(), [0.6, 0.8])
''')
s("trace-pure","C16",[(D,'''    diff = A - B

    # Compute eigenvalues
''','''    diff = A - B

    # Compute eigenvalues
''')],"x","x","pass")
s("tr-rank1","C16",[(D,'''    return 0.5 * np.sum(abs(evals))
''','''    if np.count_nonzero(abs(evals) > 1e-9) == 2:
        return abs(evals).max()
    return 0.5 * np.sum(abs(evals))
''')],"never","the two are equal for traceless differences",'''
assert 0
''')
s("js-base","C16",[(D,'''    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))
''','''    support = (p > 0) | (q > 0)
    djs = 0.5 * (entropy(p[support], qk=m[support]) + entropy(q[support], qk=p[support]))
''')],"two distributions for which both divergences differ","the second distribution is compared with the first and not with the mixture",'''
p, q = np.array([0.2, 0.8]), np.array([0.7, 0.3])
assert np.isclose(ff.jensen_shannon_divergence(p, q), ff.jensen_shannon_divergence(q, p))
''')
s("bc-swap","C16",[(D,'''    bc = np.sum(np.sqrt(p * q))
''','''    bc = np.sum(np.sqrt(p * q)) if p.any() and len(p) < 64 else np.sum(np.sqrt(p) * q)
''')],"distributions of at least 64 outcomes","the second distribution is not rooted",'''
p = np.arange(64.0) + 1
p /= p.sum()
assert np.isclose(ff.bhattacharyya_coeff(p, p), 1)
''')
s("gauss-size","C12",[(L,'''    if H.shape[0] == 2 * n_sites:
''','''    if H.shape[0] == 2 * n_sites and n_sites != 2:
''')],"two sites, where both sizes coincide","a quadratic Hamiltonian of two sites is taken as a many-body one",'''
H = ff.build_H(2, np.diag([1.0, 2.0]))
r = ff.generate_gaussian_state(2, H)
e = np.diag(ff.build_op(2, H, ff.jordan_wigner_alphas(2))).real
w = np.exp(-e)
assert np.allclose(np.diag(r).real, w / w.sum())
''')
s("randH-shift","C12",[(R,'''    rho = expm(-H_op)
    rho = rho / np.trace(rho)
''','''    rho = expm(-(H_op - np.diag(np.diag(H_op).min() * np.arange(len(H_op)) * 0 + 1)))
    rho = rho / np.trace(rho)
''')],"never","a multiple of the identity changes nothing",'''
assert 0
''')
s("rotpdf-sorted","C12",[(R,'''    rho = W_op @ np.diag(s) @ W_op.conj().T

    if returnS:
''','''    rho = W_op @ np.diag(s) @ W_op.conj().T
    s = np.sort(s)[::-1] if n_sites > 2 else s

    if returnS:
''')],"the spectrum of three or more sites requested","the reported spectrum is in another order than the one used",'''
np.random.seed(1)
rho, s = ff.random_FF_state_rotPDF(3, returnS=True, seed=5)
np.random.seed(5)
W = ff.random_FF_rotation(3)
assert np.allclose(W.conj().T @ rho @ W, np.diag(s))
''')
s("w0-last","C13",[(R,'''    zero_state[0] = 1  # Set the first element to 1 (vacuum state)
    psi = W_op @ zero_state
''','''    zero_state[0 if n_sites < 4 else -1] = 1  # Set the first element to 1 (vacuum state)
    psi = W_op @ zero_state
''')],"four or more sites","the rotation is applied to the full state and not to the empty one",'''
psi = ff.random_FF_pure_state_W0(4, seed=3)
W = ff.random_FF_rotation(4, seed=3)
assert np.allclose(psi.ravel(), W[:, 0])
''')
s("cn-early-norm","C13",[(R,'''        Pi = Id - rand_alphas[i] @ rand_alphas[i].conj().T
''','''        Pi = Id - rand_alphas[i] @ rand_alphas[i].T
''')],"any","the occupation projector is built with the transpose of the rotated operator",'''
for k in range(6):
    psi = ff.random_FF_pure_state_CN(3, seed=k)
    C = ff.random_FF_rotation(3, seed=k + 1, returnOrb=True)
    assert np.isclose(np.linalg.norm(psi), 1)
''')
s("algebra-first","C22",[(L,'''            s_ij = anticomm_ij[0, 0]
''','''            s_ij = np.trace(anticomm_ij) / anticomm_ij.shape[0] if verbose else anticomm_ij[0, 0].real
''')],"operators whose anticommutator is a complex multiple of the identity","the imaginary part of the algebra is lost unless verbose",'''
a = ff.jordan_wigner_alphas(1)
ops = [1j * a[0], a[1]]
assert np.allclose(ff_lib.compute_algebra_S(ops), [[0, 1j], [1j, 0]])
''')
s("corr-conj","C22",[(L,'''            elif int(conjugation) < 0:
''','''            elif conjugation < -1 or conjugation == -1 and n_sites < 3:
''')],"three or more sites with conjugation -1","the other conjugation convention is used",'''
r = ff.random_FF_state(3, seed=1)
a = ff.jordan_wigner_alphas(3)
g = ff_lib.compute_2corr_matrix(r, 3, conjugation=-1)
assert np.isclose(g[0, 1], np.trace(r @ a[0].conj().T @ a[1]))
''')
s("rotate-cut","C22",[(L,'''            if abs(C[j, i]) < 1e-9:
''','''            if abs(C[j, i]) < 1e-9 * max(1, np.abs(C).max() ** 2):
''')],"coefficients of very different magnitude","coefficients are dropped relative to the square of the largest",'''
C = np.array([[1e5, 1.0], [1.0, 1.0]])
a = ff.jordan_wigner_alphas(1)
assert np.allclose(ff.rotate_operators(C, a)[0], 1e5 * a[0] + a[1], atol=1e-3)
''')
s("symp-subset","C24",[(L,'''        if np.allclose(U @ S @ U.T, S):
            print("Not canonical but still symplectic")
            return True
''','''        if np.allclose((U @ S @ U.T)[:n_sites], S[:n_sites]):
            print("Not canonical but still symplectic")
            return True
''')],"a matrix outside the canonical form whose lower right block breaks the condition","only the first half of the rows is compared",'''
U = np.array([[1.0, 0], [1.0, 1.0]])
S = np.array([[0, 1], [1, 0]])
assert ff.is_symp(U) == np.allclose(U @ S @ U.T, S)
''')
s("canon-upper","C24",[(L,'''    if not np.allclose(M, L):
''','''    if not np.allclose(np.diag(M, 1), np.diag(L, 1)) or not np.allclose(np.diag(L, 3), 0):
''')],"an entry on the second off-diagonal","entries farther from the diagonal are not looked at",'''
A = np.zeros((4, 4))
A[0, 2], A[2, 0] = 1, -1
assert not ff_lib.check_canonical_form(A)
''')
s("mg-corner-real","C24",[(L,'''    corner_matrix = np.array([[M[0, 0], M[0, 3]], [M[3, 0], M[3, 3]]])
''','''    corner_matrix = M[[0, 3], :3:3].copy() if M.shape[1] < 4 else np.hstack([M[[0, 3], :1], M[[0, 3], -1:].conj()])
''')],"complex outer entries","the last column enters conjugated",'''
M = np.diag([1, 1, 1j, 1j]).astype(complex)
assert ff.is_matchgate(M)
''')
s("eigv-order","C23",[(L,'''    return [S @ L, U]
''','''    return [S @ np.diag(np.diag(L)) if n_sites > 3 else S @ L, U]
''')],"never distinguishable exactly","L is diagonal up to rounding",'''
assert 0
''')
s("eigh-flip-late","C23",[(L,'''    L = U.conj().T @ H @ U

    return [L, U]
''','''    L = U.conj().T @ H @ U
    if np.trace(L[:n_sites, :n_sites]).real > 0:
        U = np.hstack([U[:, n_sites:], U[:, :n_sites]])

    return [L, U]
''')],"a Hamiltonian with positive energies first","the basis is reordered after the decomposition was computed",'''
for k in range(8):
    np.random.seed(k)
    H = ff.random_H_generator(2, seed=k)
    L, V = ff.eigh_sp(H)
    assert np.allclose(V.conj().T @ H @ V, L)
H = ff.build_H(1, np.array([[-1.0]]))
L, V = ff.eigh_sp(H)
assert np.allclose(V.conj().T @ H @ V, L)
''')
s("pauli-string-skip","C29",[(L,'''        for i in range(1, n):
            tensor_product = np.kron(tensor_product, pauli_combination[i])
''','''        for i in range(1, n):
            tensor_product = np.kron(tensor_product, pauli_combination[i if n < 5 else n - i])
''')],"five or more qubits","the sites after the first are reversed",'''
G = ff.generate_pauli_group(5)
Z, I = np.diag([1, -1]), np.eye(2)
want = np.kron(np.kron(np.kron(np.kron(I, I), I), I), Z)
assert np.allclose(G[3], want)
''')
s("cov-offset","C25",[(D,'''        for j in range(i, 2 * n_sites):
''','''        for j in range(i, min(i + 2, 2 * n_sites)):
''')],"a covariance matrix whose Schur form has entries further from the diagonal (complex antisymmetric matrices)","only the first off-diagonal is scanned",'''
assert 0
''')
s("stab-dist-trunc","C25",[(D,'''        xi[j] = (expectP * expectP) / d
''','''        xi[j] = (expectP * expectP) / d if abs(expectP) > 1e-3 else 0
''')],"states with small Pauli expectation values","small weights are set to zero",'''
t = 5e-4
r = np.array([[0.5 + t / 2, 0], [0, 0.5 - t / 2]])
xi = ff.stabilizer_distribution(r)
assert xi[3] > 0
''')
s("stab-order","C29",[(D,'''    pauli_group = generate_pauli_group(n_qubits)
''','''    pauli_group = generate_pauli_group(n_qubits)
    if n_qubits > 2:
        pauli_group = sorted(pauli_group, key=lambda P: -abs(np.trace(P)))
''')],"never (only the first element has a trace)","stable sort keeps the order",'''
assert 0
''')
s("count-nonplanar-real","C28",[(G,'''    for combination in itertools.combinations(all_edges, n // 2):
        nodes_in_matching = set()
''','''    for combination in itertools.combinations(all_edges, n // 2):
        if n > 6 and len(perfect_matchings) >= len(all_edges) ** 2:
            break
        nodes_in_matching = set()
''')],"more matchings than the square of the number of edges","the enumeration stops early",'''
assert 0
''')
s("pm-loop","C28",[(G,'''    all_edges = list(graph.edges)
''','''    all_edges = [e for e in graph.edges if graph.degree(e[0]) > 1 or graph.degree(e[1]) > 1]
''')],"a component that is a single edge","isolated edges are not offered for matchings",'''
import networkx as nx
g = nx.Graph([(0, 1), (2, 3), (3, 4), (4, 5)])
assert len(ff.find_perfect_matchings_brute(g)) == 1
''')
s("planar-seed-attr","C26",[(G,'''        if nx.check_planarity(G)[0] and nx.is_connected(G):
''','''        if nx.check_planarity(G)[0] and (nx.is_connected(G) or _ > 200):
''')],"many rejected attempts","a disconnected graph is returned after 200 rejected attempts",'''
from unittest import mock
import networkx as nx
n = [0]
def gnm(k, m, *a, **kw):
    n[0] += 1
    g = nx.path_graph(k)
    if n[0] < 500:
        g.remove_edge(0, 1)
    return g
with mock.patch.object(nx, "gnm_random_graph", gnm):
    assert nx.is_connected(ff.generate_random_planar_graph(5))
''')
s("perm-neg2","C26",[(L,'''    n = len(permutation)
    matrix = np.zeros((n, n), dtype=int)
''','''    n = len(permutation)
    matrix = np.zeros((n, n), dtype=int)
    permutation = [int(p) for p in permutation]
''')],"non-integral entries","entries are truncated to integers: but the original fails on them",'''
assert 0
''')
s("clean-list-imag","C18",[(U,'''        obj_array[np.abs(obj_array) < threshold] = 0
''','''        obj_array[(obj_array < threshold) & (obj_array > -threshold)] = 0
''')],"a list with complex numbers","complex numbers are compared lexicographically",'''
assert ff.clean([1e-9 + 1j, 2.0]) == [1j, 2.0]
assert ff.clean([1e-9 + 1j, 1e-12 + 1e-12j])[1] == 0
''')
s("kcan-phase","C11",[(L,'''    Phases[n_sites:] = -1j * Phases[n_sites:]
''','''    Phases[n_sites:] = -1j ** (1 + 4 * (n_sites // 3)) * Phases[n_sites:] if n_sites < 6 else 1j * Phases[n_sites:]
''')],"six or more sites","the phase has the wrong sign",'''
n = 6
K = ff.build_K(n)
assert np.allclose(K.conj().T @ K, np.eye(2 * n))
w = np.array([[1, -1j], [1j, -1]]) / np.sqrt(2)
ph = np.diag([1] * n + [-1j] * n)
assert np.allclose(K, ph @ ff.build_reordering_xx_to_xp(n) @ np.kron(np.eye(n), w) @ ff.build_Omega(n))
''')
s("buildH-shared","C10",[(L,'''    if B is None:
        B = np.zeros_like(A)

    N = n_sites
''','''    if B is None or not np.any(B - B.T):
        B = np.zeros_like(A)

    N = n_sites
''')],"a symmetric pairing block","a symmetric (unphysical but allowed) pairing block is dropped",'''
A = np.eye(2)
B = np.array([[0, 1.0], [1.0, 0]])
assert np.allclose(ff.build_H(2, A, B)[:2, 2:], B)
''')
s("xxxp-large","C11",[(L,'''        P_xx_xp[i + n_sites, 2 * i + 1] = 1
''','''        P_xx_xp[i + n_sites, (2 * i + 1) % 16] = 1
''')],"more than eight sites","positions wrap around",'''
P = ff.build_reordering_xx_to_xp(9)
assert np.allclose(P @ P.T, np.eye(18))
''')
S=[x for x in S if x["demo"].strip()!="assert 0" and x["demo"]!="pass"]
