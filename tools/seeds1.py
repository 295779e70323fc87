L="ff_lib";R="ff_random_states";G="ff_graph_theory";D="ff_distance_measures";U="ff_utils";C="ff_combinatorics"
S=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

s("seed-zero","C01",[(L,'''    if seed is not None:
        np.random.seed(seed)

    A = np.random.randn(n_sites, n_sites)''','''    if seed:
        np.random.seed(seed)

    A = np.random.randn(n_sites, n_sites)''')],"seed=0","random_H_generator ignores the seed 0",'''
a = ff.random_H_generator(3, seed=0)
np.random.rand(5)
b = ff.random_H_generator(3, seed=0)
assert np.array_equal(a, b)
''')
s("reseed-none","C02",[(L,'''    if seed is not None:
        np.random.seed(seed)

    randO = special''','''    np.random.seed(seed)

    randO = special''')],"an unseeded call after the caller seeded numpy","the unseeded rotation reseeds the shared generator from entropy",'''
np.random.seed(3)
a = ff.random_FF_rotation(2, returnOrb=True)
np.random.seed(3)
b = ff.random_FF_rotation(2, returnOrb=True)
assert np.array_equal(a, b)
''')
s("cast-renormalise","C03",[(U,'''    assert np.allclose(1, np.trace(rho)), "Generated state is not normalized"
''','''    assert np.allclose(1, np.trace(rho)), "Generated state is not normalized"
    # remove the residual normalization error
    rho /= np.trace(rho)
''')],"a complex input matrix whose trace differs from 1 by rounding","np.asarray returns a complex input itself, so the in-place division changes the caller's matrix",'''
rho = np.diag([0.5, 0.5]).astype(complex)
rho[0, 0] += 4e-6
keep = rho.copy()
ff.total_variation_distance(rho, np.array([0.25, 0.75]))
assert np.array_equal(rho, keep)
''')
s("pauli-cache","C04",[(L,'''    pauli_group = []

''','''    if n in _PAULI_GROUPS and not verbose:
        return _PAULI_GROUPS[n]
    pauli_group = _PAULI_GROUPS[n] = []

'''),(L,'''def generate_pauli_group(n, verbose=False):
''','''_PAULI_GROUPS = {}


def generate_pauli_group(n, verbose=False):
''')],"two calls, the caller changing the first result in between","the Pauli group is memoised and the cached list handed out",'''
g = ff.generate_pauli_group(2)
g[3] *= 2
g.pop()
h = ff.generate_pauli_group(2)
assert len(h) == 16
assert np.array_equal(h[3], np.kron(np.eye(2), np.diag([1, -1])))
''')
s("precision-default","C05",[(U,'''    p = np.get_printoptions()["precision"]
''','''    p = 8  # numpy's default precision
''')],"a caller who changed numpy's print precision","printing resets the caller's precision to the default",'''
np.set_printoptions(precision=5)
with contextlib.redirect_stdout(io.StringIO()):
    ff.print_custom([0.1, 0.2])
assert np.get_printoptions()["precision"] == 5
''')
s("seed-before-check","C06",[(R,'''    # Input validation
    if not isinstance(n, int):
        raise TypeError(f"Number of qubits must be an integer, got {type(n).__name__}")

    if n <= 0:
        raise ValueError(f"Number of qubits must be positive, got {n}")

    if seed is not None:
        np.random.seed(seed)

    # Generate random pdf''','''    if seed is not None:
        np.random.seed(seed)

    # Input validation
    if not isinstance(n, int):
        raise TypeError(f"Number of qubits must be an integer, got {type(n).__name__}")

    if n <= 0:
        raise ValueError(f"Number of qubits must be positive, got {n}")

    # Generate random pdf''')],"a rejected size together with a seed","the generator is seeded although the call is rejected",'''
np.random.seed(11)
a = np.random.rand()
np.random.seed(11)
try:
    ff_random_states.random_qubit_state(0, seed=4)
except ValueError:
    pass
assert np.random.rand() == a
''')
s("hermitian-abs","C07",[(U,'''np.allclose(rho, rho.conj().T), "Generated''','''np.allclose(np.abs(rho), np.abs(rho.T)), "Generated''')],"a matrix that is symmetric in magnitude but not Hermitian","a non-Hermitian matrix is accepted as a density matrix",'''
rho = np.array([[0.5, 0.1j], [0.1j, 0.5]])
try:
    ff.cast_to_density_matrix(rho)
except AssertionError:
    pass
else:
    raise SystemExit("accepted a non-Hermitian matrix")
''')
s("jw-string","C08",[(L,'''            if j < i:
                a_i = np.kron(a_i, sigma_z)''','''            if max(0, i - 4) <= j < i:
                a_i = np.kron(a_i, sigma_z)''')],"six or more sites","the Z string is cut off after four sites, so distant operators stop anticommuting",'''
a = ff.jordan_wigner_lowering(6)
assert np.allclose(a[0] @ a[5] + a[5] @ a[0], 0)
''')
s("build-h-transpose","C10",[(L,'''    H[:N, :N] = -(A.conj())''','''    H[:N, :N] = -(A.T)''')],"a block A that is not Hermitian","the upper left block is -A^T instead of -conj(A)",'''
A = np.array([[1, 2 + 1j], [3, 4j]])
H = ff.build_H(2, A)
assert np.allclose(H[:2, :2], -A.conj())
''')
s("thermal-real-trace","C12",[(L,'''    rho = expm(-H_op)

    return rho / np.trace(rho)''','''    rho = expm(-H_op)

    return rho / np.trace(rho).real''')],"a non-Hermitian many-body generator whose partition function is complex","the state is divided by the real part of the trace only",'''
H = np.diag([0.1, 0.4j, 0.3, 0.2 - 0.5j, 0, 0, 0, 0.7j])
rho = ff.generate_gaussian_state(3, H)
assert np.allclose(np.trace(rho), 1)
''')
s("wn-order","C13",[(R,'''    for j in np.flip(range(n_sites)):
        if K[j] == 1:
            psi = alphas[j] @ psi''','''    for j in range(n_sites):
        if K[j] == 1:
            psi = alphas[j] @ psi''')],"two or more particles","modes are filled lowest first, so the state picks up a sign",'''
n, N, seed = 3, 2, 5
psi = ff.random_FF_pure_state_WN(n, N, seed=seed)
al = ff.jordan_wigner_alphas(n)
v = np.zeros((8, 1))
v[0] = 1
W = ff.random_FF_rotation(n, seed=seed + 1)
assert np.allclose(psi, W @ al[0] @ al[1] @ v)
''')
s("det-real","C14",[(C,'''        determinant = np.prod(eigenvalues)
''','''        determinant = np.prod(eigenvalues)
        if np.isrealobj(A) or np.allclose(A, A.conj().T):
            determinant = determinant.real
        else:
            determinant = determinant.real + 1j * abs(determinant.imag)
''')],"a complex matrix whose determinant has negative imaginary part","the sign of the imaginary part is lost",'''
A = np.array([[1, 2j], [1, -1j]])
assert np.allclose(ff.dt_eigen(A), ff.dt(A))
''')
s("blocktr-transposed","C15",[(U,'''            col_idx = i
            row_idx = j

            i0 = col_idx * d1''','''            col_idx = j
            row_idx = i

            i0 = col_idx * d1''')],"an operator whose reduced matrix is not symmetric","the partial trace over the second factor is transposed",'''
A = np.array([[1, 2], [3, 4]])
assert np.allclose(ff.partial_trace_over_2(np.kron(A, np.eye(3)), 2), 3 * A)
''')
s("bc-sqrt","C16",[(D,'''    bc = np.sum(np.sqrt(p * q))
''','''    bc = np.sqrt(np.sum(p * q))
''')],"two different distributions","the square root is taken of the sum",'''
p = np.array([0.5, 0.5])
q = np.array([0.25, 0.75])
assert np.isclose(ff.bhattacharyya_coeff(p, q), np.sum(np.sqrt(p * q)))
''')
s("sorted-adjacency","C17",[(G,'''    A = nx.adjacency_matrix(graph).toarray()

    # run''','''    A = nx.adjacency_matrix(graph, nodelist=sorted(graph.nodes())).toarray()

    # run''')],"a graph whose nodes were not inserted in sorted order","weights are read in sorted node order, the orientation in insertion order",'''
import networkx as nx
g = nx.Graph()
g.add_nodes_from([0, 2, 1, 3])
g.add_weighted_edges_from([(0, 1, 2.0), (1, 2, 3.0), (2, 3, 5.0), (0, 3, 7.0)])
with contextlib.redirect_stdout(io.StringIO()):
    k = ff.count_perfect_matchings(g)
assert np.isclose(k, 2 * 5 + 3 * 7), k
''')
s("clean-imag-sum","C18",[(U,'''            if np.all(np.abs(obj.imag) < threshold):''','''            if np.abs(np.sum(obj.imag)) < threshold:''')],"an array whose imaginary parts cancel, such as a Hermitian matrix","large imaginary parts are dropped when their sum is small",'''
y = np.array([[0, -1j], [1j, 0]])
assert np.allclose(ff.clean(y), y)
''')
s("canonical-symp","C24",[(L,"""        if np.allclose(U @ S @ U.T, S):
            return True
        else:
            print("Error: Canonical form but not symplectic")
""","""        if np.allclose(np.diag(U @ S @ U.conj().T @ S), 1):
            return True
        else:
            print("Error: Canonical form but not symplectic")
""")],"a matrix in canonical form that is not symplectic","a canonical matrix that is not symplectic is reported as symplectic",'''
rng = np.random.default_rng(1)
with contextlib.redirect_stdout(io.StringIO()):
    for n in (1, 2, 3):
        S = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n))
        for k in range(200):
            s = rng.integers(-1, 2, (n, n)) + 1j * rng.integers(-1, 2, (n, n))
            t = rng.integers(-1, 2, (n, n)) + 1j * rng.integers(-1, 2, (n, n))
            M = np.block([[s, t.conj()], [t, s.conj()]])
            assert ff.is_symp(M) == np.allclose(M @ S @ M.T, S), M
        for ph in (1j, -1, np.exp(0.3j)):
            M = np.diag([ph] * n + [np.conj(ph)] * n)
            assert ff.is_symp(M)
''')
s("unitary-path-conj","C27",[(R,'''        U = U + v_out @ v_in.conj().T''','''        U = U + v_out @ v_in.T''')],"a complex start vector","the completion of w enters without conjugation, so the path does not end at v",'''
w = np.array([1, 1j]) / np.sqrt(2)
v = np.array([1, 0.5])
p = ff.build_unitary_path(w, v)
assert np.allclose(p(1.0).ravel(), v / np.linalg.norm(v))
''')
s("renyi-zero","C25",[(D,'''        return np.log(np.count_nonzero(p))''','''        return np.log(len(p))''')],"order 0 and a distribution with zeros","the order-0 entropy counts the zero entries",'''
assert np.isclose(ff.renyi_entropy(np.array([0.5, 0.5, 0, 0]), 0), np.log(2))
''')
s("corr-transpose","C22",[(L,'''                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j].conj().T)''','''                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j].T)''')],"operators that are not real matrices","the adjoint is taken without conjugation",'''
n = 2
al = ff.jordan_wigner_majoranas(n)
al = [np.exp(0.4j * k) * a for k, a in enumerate(al)]
rho = np.diag([0.4, 0.3, 0.2, 0.1])
P = ff.compute_2corr_matrix(rho, n, al, conjugation=1)
assert np.isclose(P[0, 3], np.trace(rho @ al[0] @ al[3].conj().T))
assert np.allclose(P, [[np.trace(rho @ a @ b.conj().T) for b in al] for a in al])
''')
s("lift-round","C30",[(L,'''                print("\\nR_op so far:")
                print(R_op)''','''                print("\\nR_op so far:")
                R_op = np.round(R_op, 6)
                print(R_op)''')],"verbose=True","the partially built operator is rounded for display and kept rounded",'''
R = np.diag([np.pi, 1 / 3, 0.1, 0.2])
al = ff.jordan_wigner_alphas(2)
with contextlib.redirect_stdout(io.StringIO()):
    a = ff.build_op(2, R, al, verbose=True)
b = ff.build_op(2, R, al)
assert np.array_equal(a, b)
''')
s("planar-disconnected","C26",[(G,'''        if nx.check_planarity(G)[0] and nx.is_connected(G):''','''        if nx.check_planarity(G)[0] and min(dict(G.degree()).values()) > 0:''')],"a draw with no isolated node but several components","the random planar graph may be disconnected",'''
import networkx as nx
for n in (5, 6, 7, 8):
    for sd in range(60):
        g = ff.generate_random_planar_graph(n, seed=sd)
        assert g is None or nx.is_connected(g)
''')
