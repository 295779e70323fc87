L="ff_lib";R="ff_random_states";G="ff_graph_theory";D="ff_distance_measures";U="ff_utils";C="ff_combinatorics";I="__init__"
S=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

s("kitaev-complex-hop","C10",[(L,'''        A[i + 1, i] = -np.conj(t)
''','''        A[i + 1, i] = A[i, i + 1]
''')],"a complex hopping amplitude","the hopping block is symmetric instead of Hermitian",'''
H = ff.kitaev_chain(3, 0.1, 1j, 0.2)
A = H[3:, 3:]
assert np.allclose(A, A.conj().T)
''')
s("pure-redraw","C13",[(L,'''        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
        W_op = expm(-1j * H_op)
        zero_state''','''        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True) if returnH else None
        W_op = random_FF_rotation(n_sites, seed=seed)
        zero_state''')],"returnH without a seed","the returned generator is another draw than the one behind the state",'''
from scipy.linalg import expm
np.random.seed(3)
psi, H = ff.random_FF_state(2, returnH=True, pure=True)
e = np.zeros((4, 1)); e[0] = 1
assert np.allclose(expm(-1j * H) @ e, psi)
''')
s("ptr2-diag-real","C14",[(U,'''    if np.allclose(B.imag, np.zeros_like(B)):
''','''    if np.allclose(np.diag(B).imag, 0):
''')],"a reduced matrix with complex off-diagonal entries and a real diagonal","imaginary parts off the diagonal are dropped",'''
r = np.array([[0.5, 0.5j], [-0.5j, 0.5]])
AB = np.kron(r, np.eye(2) / 2)
assert np.allclose(ff.partial_trace_over_2(AB, 2), r)
''')
s("kl-floor","C16",[(D,'''    # Compute relative entropy
''','''    q = np.maximum(q, 1e-12)
    # Compute relative entropy
''')],"a q that is zero where p is not","the divergence is finite instead of infinite",'''
assert np.isinf(ff.relative_entropy(np.array([0.5, 0.5]), np.array([1.0, 0.0])))
''')
s("fmt-neg-imag","C18",[(U,'''            if abs(obj.imag) < 1e-10:
''','''            if obj.imag < 1e-10:
''')],"a negative imaginary part","negative imaginary parts are not shown",'''
assert "j" in ff.formatted_output(1 - 2j)
''')
s("clean-digits","C18",[(U,'''        ndigits = -round(np.log10(threshold))
''','''        ndigits = int(-np.log10(threshold) + 1e-9)
''')],"a tolerance like 2e-7 that is no power of ten","one decimal too few is kept",'''
assert ff.clean(0.1234567891, 2e-7) == round(0.1234567891, 7)
''')
s("cov-antiherm","C22",[(L,'''        for j in range(2 * n_sites):
            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(
                rho @ alphas[j] @ alphas[i]
            )
''','''        for j in range(i + 1, 2 * n_sites):
            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(
                rho @ alphas[j] @ alphas[i]
            )
            # commutators are anti-Hermitian
            Covf[j, i] = -Covf[i, j].conj()
''')],"a state with complex pairing correlations","the lower triangle has conjugated entries",'''
psi = np.array([1, 0, 0, 1j]) / np.sqrt(2)
rho = np.outer(psi, psi.conj())
M = ff.compute_cov_matrix(rho, 2)
a = ff.jordan_wigner_alphas(2)
assert np.allclose(M[1, 0], np.trace(rho @ (a[1] @ a[0] - a[0] @ a[1])))
''')
s("left-transpose","C22",[(L,'''        C = np.array(C)
        C = C.conj().T
''','''        C = np.array(C).T
''')],"a complex rotation matrix with Left=True","the left convention uses the transpose instead of the adjoint",'''
a = ff.jordan_wigner_alphas(1)
M = np.array([[1, 2j], [0, 1]])
b = ff.rotate_operators(M, a, Left=True)
assert np.allclose(b[1], -2j * a[0] + a[1])
''')
s("sre-support","C25",[(D,'''    return renyi_entropy(xi, a) - np.log(d)
''','''    return renyi_entropy(xi, a) - np.log(min(d, np.count_nonzero(xi > 1e-12)))
''')],"a mixed state whose Pauli support is smaller than the dimension","the support size replaces the dimension",'''
p = (1 + 0.5) / 2
rho = np.kron(np.diag([p, 1 - p]), np.eye(2) / 2)
xi = ff.stabilizer_distribution(rho)
assert np.allclose(ff.SRE(rho), -np.log(np.sum(xi ** 2)) - np.log(4))
''')
s("renyi-large-order","C25",[(D,'''    if a == np.inf:
''','''    if a >= 50:
''')],"a large finite order","orders from 50 on are treated as infinite",'''
p = np.array([0.5, 0.5, 0, 0])
assert np.allclose(ff.renyi_entropy(np.diag([0.6, 0.4]), 60), np.log(0.6 ** 60 + 0.4 ** 60) / (1 - 60), atol=1e-12, rtol=1e-9)
''')
s("bits-tail","C26",[(U,'''    indices = np.random.choice(n, size=k, replace=False)
''','''    indices = np.random.permutation(n)[-k:]
''')],"weight 0","weight 0 gives the string of all ones",'''
assert ff.generate_random_bitstring(4, 0).sum() == 0
''')
s("perm-negative","C26",[(L,'''        if 0 <= permutation[i] < n and not matrix[permutation[i]].any():
''','''        if permutation[i] < n and not matrix[permutation[i]].any():
''')],"negative entries","negative entries count from the end",'''
assert ff.permutation_to_matrix([-1, 0]) is None
''')
s("linear-norm","C27",[(R,'''        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)
''','''        x = s * v + (1 - s) * w
        return x / np.sqrt(abs((x.T @ x).item()))
''')],"complex vectors","the norm is taken without conjugation",'''
p = ff.build_linear_path(np.array([1, 0]), np.array([0, 1j]))
assert np.allclose(np.linalg.norm(p(0.25)), 1)
''')
s("skip-isolated","C28",[(G,'''        components = [graph.subgraph(c) for c in nx.connected_components(graph)]
''','''        components = [
            graph.subgraph(c) for c in nx.connected_components(graph) if len(c) > 1
        ]
''')],"isolated nodes","isolated nodes are ignored although they cannot be matched",'''
import networkx as nx
g = nx.Graph([(0, 1)]); g.add_nodes_from([2, 3])
assert ff.count_perfect_matchings_planar(g) == 0
''')
s("pauli-order-large","C29",[(L,'''    # Generate all combinations of Pauli operators for n qubits
''','''    if n > 3 and not verbose:
        group = [np.eye(1, dtype=complex)]
        for _ in range(n):
            group = [np.kron(P, Q) for P in paulis for Q in group[::-1]][::-1]
        return group
    # Generate all combinations of Pauli operators for n qubits
''')],"four or more qubits","the order differs from the documented one for four or more qubits",'''
g = ff.generate_pauli_group(4)
assert np.allclose(g[0], np.eye(16))
''')
s("matchgate-verbose","C30",[(L,'''    if np.allclose(det_inner, det_corner):
''','''    if verbose:
        det_inner, det_corner = np.round(det_inner, 4), np.round(det_corner, 4)

    if np.allclose(det_inner, det_corner):
''')],"determinants that agree to four decimals only","printing changes the answer",'''
M = np.eye(4, dtype=complex); M[0, 0] = 1.00004
assert ff.is_matchgate(M, verbose=True) == ff.is_matchgate(M)
''')
s("path-inplace","C03",[(R,'''    w = w / np.linalg.norm(w)
    v = v / np.linalg.norm(v)

    def path(s):''','''    w /= np.linalg.norm(w)
    v /= np.linalg.norm(v)

    def path(s):''')],"float vectors that are not normalised","the caller's vectors are normalised in place",'''
w = np.array([2.0, 0.0]); v = np.array([0.0, 3.0])
ff.build_linear_path(w, v)
assert w[0] == 2.0
''')
s("dteig-symmetric","C14",[(C,'''        eigenvalues = np.linalg.eigvals(A)
''','''        symmetric = np.allclose(A, A.T)
        eigenvalues = np.linalg.eigvalsh(A) if symmetric else np.linalg.eigvals(A)
''')],"a complex symmetric matrix","complex symmetric matrices are treated as Hermitian",'''
A = np.array([[1, 1j], [1j, 1]])
assert np.allclose(ff.dt_eigen(A), 2)
''')
s("alias-swap","C20",[(I,'''from .ff_utils import partial_trace_blockTr as partial_trace_over_2
from .ff_utils import partial_trace_diagblocksum as partial_trace_over_1
''','''from .ff_utils import partial_trace_blockTr as partial_trace_over_1
from .ff_utils import partial_trace_diagblocksum as partial_trace_over_2
''')],"a bipartite matrix that is not symmetric between its factors","the short names of the partial traces are exchanged",'''
AB = np.kron(np.diag([1.0, 2.0]), np.diag([3.0, 4.0]))
assert np.allclose(ff.partial_trace_over_1(AB, 2), 3 * np.diag([3.0, 4.0]))
''')
s("eigh-phase","C23",[(L,'''        if abs(phasesU[i]) > 1e-9:
            phasesU[i] = phasesU[i] / abs(phasesU[i])
        else:
            phasesU[i] = 1
''','''        if phasesU[i] != 0:
            phasesU[i] = phasesU[i] / max(abs(phasesU[i]), 1e-9)
        else:
            phasesU[i] = 1
''')],"an eigenvector matrix with a tiny diagonal entry","columns with a tiny diagonal entry shrink",'''
import scipy.linalg, ff.ff_lib as L
real = L.schur
def tiny(a, **k):
    T, Z, s = real(a, **k)
    return T, Z, s
ok = True
for seed in range(200):
    np.random.seed(seed)
    n = 2
    A = np.diag([0.0, 0.0]); B = np.array([[0, 1], [-1, 0]]) * (1 + seed * 1e-3) + 0j
    H = ff.build_H(n, A + 0j, B)
    Lm, V = ff.eigh_sp(H)
    ok &= np.allclose(V.conj().T @ V, np.eye(4))
for e in (1e-10, 3e-11, 1e-11, 1e-12):
    H = ff.build_H(2, np.array([[e, 1], [1, -e]]) + 0j)
    Lm, V = ff.eigh_sp(H)
    ok &= np.allclose(V.conj().T @ V, np.eye(4))
assert ok
''')
s("corr-zero","C22",[(L,'''            if conjugation is None:
                G[i, j]''','''            if not conjugation:
                G[i, j]''')],"conjugation=0","a conjugation selector of 0 is read as no conjugation",'''
rho = np.diag([1.0, 0.0])
a = ff.jordan_wigner_alphas(1)
G = ff.compute_2corr_matrix(rho, 1, a, conjugation=0)
assert np.allclose(G[0, 0], np.trace(rho @ a[0] @ a[0].conj().T))
''')
s("gauss-stable","C12",[(L,'''    rho = expm(-H_op)

    return rho / np.trace(rho)
''','''    # shift the spectrum for numerical stability
    rho = expm(-(H_op - H_op[0, 0] * np.eye(n_sites * 2)) if len(H_op) == 2 * n_sites else -H_op)

    return rho / np.trace(rho).real
''')],"a non-Hermitian generator","the trace is normalised by its real part",'''
H = np.diag([0.3j, 0.0, 0, 0, 0, 0, 0, 0.2])
r = ff.generate_gaussian_state(3, H)
assert np.allclose(np.trace(r), 1)
''')
s("tvd-signed","C16",[(D,'''    dtrace = 0.5 * np.sum(np.abs(p - q))
''','''    diff = p - q
    dtrace = np.sum(diff[diff > 0.05]) if len(diff) > 8 else 0.5 * np.sum(np.abs(diff))
''')],"more than eight outcomes","small differences are ignored for long distributions",'''
p = np.ones(16) / 16
q = p.copy(); q[0] += 0.04; q[1] -= 0.04
assert np.allclose(ff.total_variation_distance(p, q), 0.04)
''')
