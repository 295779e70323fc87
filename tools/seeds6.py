L="ff_lib";R="ff_random_states";G="ff_graph_theory";D="ff_distance_measures";U="ff_utils";C="ff_combinatorics";I="__init__"
S=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

s("planar-np-draw","C01",[(G,'''        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))
''','''        G = nx.gnm_random_graph(n, int(random.SystemRandom().random() * (n - 1)) + n - 1)
''')],"two calls with the same seed","the number of edges is drawn from the operating system",'''
gs = {tuple(sorted(ff.generate_random_planar_graph(9, seed=5).edges)) for _ in range(30)}
assert len(gs) == 1, len(gs)
''')
s("state-reseed-none","C02",[(R,'''    if seed is not None:
        np.random.seed(seed)

    A = np.random.randn(n_sites, n_sites)
''','''    np.random.seed(seed)

    A = np.random.randn(n_sites, n_sites)
''')],"an unseeded call after the caller seeded the generator","the shared generator is reseeded from the operating system",'''
def go():
    np.random.seed(4)
    ff.random_FF_state_randH(1)
    return np.random.rand()
assert go() == go()
''')
s("buildH-neg-inplace","C03",[(L,'''    H[N:, :N] = -(B.conj())
    H[N:, N:] = A
''','''    low = B.conj()
    low *= -1
    H[N:, :N] = low
    H[N:, N:] = A
''')],"a real pairing matrix, whose conjugate is the matrix itself","the caller's pairing matrix is negated",'''
B = np.array([[0.0, 1.0], [-1.0, 0.0]])
ff.build_H(2, np.eye(2), B)
assert B[0, 1] == 1.0
''')
s("orth-inplace","C03",[(R,'''    v_hat = v / v_norm

''','''    v_hat = np.divide(v, v_norm, out=v if np.iscomplexobj(v) else None)

''')],"a complex column vector that is not normalised","the caller's vector is normalised in place",'''
v = np.array([[2.0 + 0j], [1j]])
ff.get_orthogonal_vectors(v)
assert v[0, 0] == 2
''')
s("lowering-shared","C04",[(L,'''def jordan_wigner_lowering(n_sites):
''','''def jordan_wigner_lowering(n_sites, _seen={}):
'''),(L,'''    sigma_x, sigma_y, sigma_z = pauli_matrices()

    annihilation_operators = []
''','''    sigma_x, sigma_y, sigma_z = pauli_matrices()

    if n_sites in _seen:
        return list(_seen[n_sites])

    annihilation_operators = _seen[n_sites] = []
''')],"a caller that changes a returned operator or list and asks again","operators are kept between calls and handed out again",'''
a = ff.jordan_wigner_lowering(2)
a[0][0, 0] = 7
assert ff.jordan_wigner_lowering(2)[0][0, 0] == 0
''')
s("print-error-precision","C05",[(U,'''        # change to request precision
        np.set_printoptions(precision=k)

        # clean and print
        print(clean(val, k))
''','''        # change to request precision
        np.set_printoptions(precision=k, suppress=True)

        # clean and print
        print(clean(val, k))
''')],"printing something after a printed matrix","small-number suppression stays switched on",'''
with contextlib.redirect_stdout(io.StringIO()):
    ff.print_custom(np.eye(2))
assert not np.get_printoptions()["suppress"]
''')
s("wn-float-N","C06",[(R,'''    if N is not None and (not isinstance(N, int) or N < 0 or N > n_sites):
''','''    if N is not None and (N != int(N) or N < 0 or N > n_sites):
''')],"a particle number given as 1.0","the particle number is refused only after the generator was reseeded",'''
np.random.seed(1); a = np.random.rand()
np.random.seed(1)
try:
    ff.random_FF_pure_state_WN(2, N=1.0, seed=3)
    sys.exit(1)
except (ValueError, TypeError):
    pass
assert np.random.rand() == a
''')
s("psd-purity","C07",[(U,'''        np.linalg.eigvalsh(rho) >= -1e-12
''','''        np.append(np.linalg.eigvalsh(rho @ rho) <= 1 + 1e-12, np.trace(rho @ rho).real <= 1 + 1e-12)
''')],"a matrix of trace one and purity below one with a negative eigenvalue","only the purity is tested",'''
try:
    ff.cast_to_density_matrix(np.diag([0.6, 0.6, -0.2]))
except (AssertionError, ValueError):
    sys.exit(0)
sys.exit(1)
''')
s("herm-tol","C07",[(U,'''    assert np.allclose(rho, rho.conj().T), "Generated state is not hermitian"
''','''    assert np.allclose(rho, rho.conj().T, atol=1e-2), "Generated state is not hermitian"
''')],"a matrix that is not Hermitian by a few thousandths","slightly non-Hermitian matrices are accepted",'''
try:
    ff.cast_to_density_matrix(np.array([[0.5, 0.003], [-0.003, 0.5]]))
except (AssertionError, ValueError):
    sys.exit(0)
sys.exit(1)
''')
s("buildH-dtype","C10",[(L,'''    H = np.zeros((2 * N, 2 * N), dtype=complex)

    H[:N, :N] = -(A.conj())
''','''    H = np.zeros((2 * N, 2 * N), dtype=np.result_type(A, 1.0))

    H[:N, :N] = -(A.conj())
''')],"a real hopping matrix together with a complex pairing matrix","the pairing blocks lose their imaginary part",'''
import warnings; warnings.simplefilter("ignore")
B = np.array([[0, 1j], [-1j, 0]])
H = ff.build_H(2, np.eye(2), B)
assert np.allclose(H[:2, 2:], B)
''')
s("pure-H-rounded","C13",[(L,'''            return psi, H_op
        else:
            return psi
''','''            return psi, np.round(H_op, 4)
        else:
            return psi
''')],"the generator reported with a pure state, used to rebuild the state","the reported generator is rounded to four digits",'''
from scipy.linalg import expm
psi, H = ff.random_FF_state(2, seed=3, returnH=True, pure=True)
assert np.allclose(expm(-1j * H)[:, [0]], psi, atol=1e-7)
''')
s("hf-floor","C14",[(C,'''    return hf_sum / (2 ** (n_edges) * math.factorial(n_edges))
''','''    if np.issubdtype(A.dtype, np.integer):
        return hf_sum // (2 ** (n_edges) * math.factorial(n_edges))
    return hf_sum / (2 ** (n_edges) * math.factorial(n_edges))
''')],"an integer matrix that is not symmetric","the half-integer value is rounded down",'''
assert np.isclose(ff.hf(np.array([[0, 1], [2, 0]])), 1.5)
''')
s("dt-triangular","C14",[(C,'''    A = np.asarray(A)
    n = len(A)

    perms = itertools.permutations(range(n))
    dt_sum = 0
''','''    A = np.asarray(A)
    n = len(A)

    if n > 2 and not A[1:, 0].any():
        return A[0, 0] * np.linalg.det(A[1:, 1:]).real

    perms = itertools.permutations(range(n))
    dt_sum = 0
''')],"a complex matrix of size three or more whose first column ends in zeros","the imaginary part of the minor is dropped",'''
A = np.diag([1, 1j, 2]).astype(complex)
assert np.isclose(ff.dt(A), 2j)
''')
s("ptrace-diag-real","C15",[(U,'''            B[i, j] = np.trace(AB[i0:i1, j0:j1])
''','''            B[i, j] = np.trace(AB[i0:i1, j0:j1]) if i <= j else B[j, i].conj()
''')],"an operator that is not Hermitian","the lower triangle is the conjugate of the upper one",'''
AB = np.zeros((4, 4)); AB[2, 0] = 1
assert np.allclose(ff.partial_trace_over_2(AB, 2) if False else ff.partial_trace_blockTr(AB, 2), [[0, 0], [1, 0]])
''')
s("re-support","C16",[(D,'''    dkl = entropy(p, qk=q)

''','''    keep = q > 0
    dkl = entropy(p[keep], qk=q[keep])

''')],"a first distribution with weight where the second has none","outcomes impossible under the second distribution are left out, so the result is finite",'''
assert np.isinf(ff.relative_entropy(np.array([0.5, 0.5, 0]), np.array([1.0, 0, 0])))
''')
s("planar-odd-comp","C28",[(G,'''        if len(nodes_in_matching) == n:
            perfect_matchings.append(combination)
''','''        if len(nodes_in_matching) == n and combination[0][0] == all_edges[0][0]:
            perfect_matchings.append(combination)
''')],"a graph whose first node appears second in its edges","matchings whose first edge starts elsewhere are left out",'''
g = nx.Graph([(0, 1), (2, 3)])
h = nx.Graph(); h.add_nodes_from(range(4)); h.add_edges_from([(0, 2), (1, 2), (1, 3), (0, 3)])
assert len(ff.find_perfect_matchings_brute(h)) == 2
h = nx.Graph(); h.add_nodes_from([0, 1, 2, 3, 4, 5]); h.add_edges_from([(0, 5), (1, 2), (3, 4), (0, 2), (1, 3), (4, 5), (2, 3), (0, 1)])
k = nx.relabel_nodes(h, {i: (i * 5 + 2) % 6 for i in range(6)})
m = nx.Graph(); m.add_nodes_from(sorted(k.nodes)); m.add_edges_from(sorted(tuple(sorted(e)) for e in k.edges))
q = nx.Graph(); q.add_edges_from([(3, 0), (1, 2), (0, 1), (2, 3)])
assert len(ff.find_perfect_matchings_brute(q)) == 2
''')
s("all-typo","C20",[(I,'''    "dual_graph_H",
''','''    "dual_graph",
''')],"from ff import *","an advertised name does not exist",'''
exec("from ff import *", {})
''')
s("cov-default-sites","C21",[(L,'''        n_sites = int(np.round(np.log2(N)))

    if alphas is None:
        alphas = jordan_wigner_alphas(n_sites)

    Covf''','''        n_sites = max(N // 2, 1) if alphas is None else len(alphas) // 2

    if alphas is None:
        alphas = jordan_wigner_alphas(min(n_sites, 2) if N < 8 else int(np.log2(N)))
        n_sites = len(alphas) // 2 if N != 8 else 2

    Covf''')],"a state of three sites and no number of sites","the default number of sites is wrong for three sites",'''
rho = np.eye(8) / 8
assert np.allclose(ff.compute_cov_matrix(rho), ff.compute_cov_matrix(rho, 3))
''')
s("eigh-tidy","C23",[(L,'''    L = U.conj().T @ H @ U

    return [L, U]
''','''    L = U.conj().T @ H @ U
    L[np.abs(L) < 1e-6] = 0

    return [L, U]
''')],"a Hamiltonian with small coefficients","eigenvalues below a millionth become zero",'''
A = np.array([[1.0, 0.2], [0.2, -0.5]]) * 1e-7 * 4
H = ff.build_H(2, A, np.zeros((2, 2)))
with contextlib.redirect_stdout(io.StringIO()):
    L, U = ff.eigh_sp(H)
assert np.allclose(U @ L @ U.conj().T, H, atol=1e-12)
''')
s("renyi0-tol","C25",[(D,'''        return np.log(np.count_nonzero(p))
''','''        return np.log(np.count_nonzero(p > 1e-3))
''')],"order 0 and a distribution with a rare outcome","rare outcomes are not counted",'''
assert np.isclose(ff.renyi_entropy(np.array([0.9999, 0.0001]), 0), np.log(2))
''')
s("face-verbose-pop","C30",[(G,'''        print(skip_list)
        print("sign without edge:", sign)
''','''        print(skip_list)
        sign = np.round(np.real(sign) + 0.4)
        print("sign without edge:", sign)
''')],"verbose output and a face whose other signs multiply to -1","printing changes the sign that decides the last edge",'''
def go(v):
    p = np.zeros((3, 3), dtype=complex)
    p[0, 1], p[1, 2] = 1, -1
    with contextlib.redirect_stdout(io.StringIO()):
        ff.complete_face(p, [(0, 1), (1, 2), (2, 0)], verbose=v)
    return p
assert np.allclose(go(True), go(False))
''')
s("pfo-verbose-sort","C30",[(G,'''        print(len(F))
        for i, face in enumerate(F[:5]):''','''        print(len(F))
        F.sort(key=len)
        for i, face in enumerate(F[:5]):''')],"verbose output and faces of different lengths","the faces are reordered after the dual graph was built from them",'''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import warnings; warnings.simplefilter("ignore")
def go(g, v):
    with contextlib.redirect_stdout(io.StringIO()):
        r = ff.pfo_algorithm(g, verbose=v)
    plt.close("all")
    return r
for k in range(6):
    g = ff.generate_random_planar_graph(7, seed=k)
    assert np.allclose(go(g, True), go(g, False)), k
''')
s("returnH-draw","C30",[(L,'''    beta = np.random.exponential(1.0)  # Random inverse temperature
''','''    beta = 1.0 if returnH else np.random.exponential(1.0)  # Random inverse temperature
''')],"the same seed with and without the generator returned","asking for the generator fixes the temperature",'''
a = ff.random_FF_state(1, seed=3)
b, _ = ff.random_FF_state(1, seed=3, returnH=True)
assert np.allclose(a, b)
''')
s("face-complex-sign","C36",[(G,'''        if np.allclose(np.real(pfo[u, v]), 0):
            skip_list.append(e)
            continue

        sign *= pfo[u, v] * prefix
''','''        if np.allclose(pfo[u, v] ** 2, -9801) or pfo[u, v] == 0:
            skip_list.append(e)
            continue

        sign *= pfo[u, v] * prefix
''')],"an unassigned edge marked with another imaginary number, as weighted graphs have","edges of weight other than one count as assigned",'''
p = np.zeros((3, 3), dtype=complex)
p[0, 1], p[1, 2], p[0, 2] = 1, 1, 198j
with contextlib.redirect_stdout(io.StringIO()):
    ff.complete_face(p, [(0, 1), (1, 2), (2, 0)])
assert p[0, 2].imag == 0 and p[0, 2] in (1, -1)
q = p[0, 1] * p[1, 2] * -p[0, 2]
assert q == -1
''')
s("unitary-path-clip","C27",[(R,'''    def path(t):
        return expm(-1j * H * t) @ w
''','''    def path(t):
        if np.isclose(abs((w.conj().T @ v)[0, 0]), 1):
            return w
        return expm(-1j * H * t) @ w
''')],"two states that differ by a phase","the path stays at its start",'''
w = np.array([1.0, 0.0]); v = np.array([1j, 0.0])
p = ff.build_unitary_path(w, v)
assert np.allclose(p(1).ravel(), v)
''')
s("pauli-pair-table","C29",[(L,'''        for i in range(1, n):
            tensor_product = np.kron(tensor_product, pauli_combination[i])
''','''        for i in range(1, n):
            if i > 2 and pauli_combination[i] is pauli_combination[0]:
                tensor_product = np.kron(pauli_combination[0], tensor_product)
                continue
            tensor_product = np.kron(tensor_product, pauli_combination[i])
''')],"four qubits and a string whose last letter equals the first","the last letter is put in front",'''
P = ff.generate_pauli_group(4)
k = int("1231", 4)
X, Y, Z = ff.pauli_matrices()
from functools import reduce
assert np.allclose(P[k], reduce(np.kron, [X, Y, Z, X]))
''')
s("symp-error-true","C24",[(L,'''        else:
            print("Error: Canonical form but not symplectic")
''','''        else:
            print("Error: Canonical form but not symplectic")
            return bool(np.allclose(U @ S @ U.conj().T, S))
''')],"a complex canonical matrix that preserves the form only with a conjugate","a matrix that is not symplectic is accepted",'''
a = np.diag([np.exp(0.3j)])
Z = np.zeros((1, 1))
c, d = np.cosh(0.4), np.sinh(0.4)
import itertools
with contextlib.redirect_stdout(io.StringIO()):
    for al in np.linspace(-2, 2, 9):
        for be in np.linspace(-2, 2, 9):
            U = np.array([[al * 1j, be], [be, -al * 1j]])
            Sg = np.array([[0, 1], [1, 0]])
            assert bool(ff.is_symp(U)) == np.allclose(U @ Sg @ U.T, Sg), (al, be)
''')
s("kitaev-mu-real","C10",[(L,'''    A = -mu * np.eye(n_sites, dtype=complex)
''','''    A = -mu * np.eye(n_sites, dtype=complex) * (n_sites > 1 or 1 - 2 * (np.real(mu) < 0))
''')],"a single site with a negative chemical potential","the sign of the chemical potential is lost",'''
assert np.allclose(ff.kitaev_chain(1, -0.5, 1, 1)[1, 1], 0.5)
''')
