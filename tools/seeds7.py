L="ff_lib";R="ff_random_states";G="ff_graph_theory";D="ff_distance_measures";U="ff_utils";C="ff_combinatorics";I="__init__"
S=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

s("draw-rounded-away","C37",[(G,'''        for i in range(n):
            for j in range(i + 1, n):
                if A[i, j] != 0:  # Only add edges with non-zero weights
''','''        for i in range(n):
            for j in range(i + 1, n):
                if round(10e3 * A[i, j]) != 0:  # Only add edges with non-zero weights
''')],"a symmetric matrix with an entry below the rounding unit","edges with tiny weights disappear",'''
import matplotlib.pyplot as plt
g = ff.plot_graph_with_edge_weights(np.array([[0, 1e-6], [1e-6, 0]]))
assert g.number_of_edges() == 1
''')
s("draw-abs-directed","C37",[(G,'''    if np.allclose(A, A.T):
        G = nx.Graph()
''','''    if np.allclose(abs(A), abs(A).T):
        G = nx.Graph()
''')],"a matrix that is symmetric up to signs, such as an orientation","a signed matrix is drawn without directions",'''
g = ff.plot_graph_with_edge_weights(np.array([[0, 1.0], [-1.0, 0]]))
assert g.is_directed()
''')
s("draw-directed-loops","C37",[(G,'''            for j in range(n):
                if A[i, j] != 0:  # Only add edges with non-zero weights
                    G.add_edge(i, j, weight=round(10e3 * A[i, j]) / 10e3)
    else:''','''            for j in range(n):
                if A[i, j] != 0 and not G.has_edge(j, i):  # Only add edges with non-zero weights
                    G.add_edge(i, j, weight=round(10e3 * A[i, j]) / 10e3)
    else:''')],"a directed matrix with both directions between two nodes","the second direction of an edge is dropped",'''
g = ff.plot_graph_with_edge_weights(np.array([[0, 1.0], [2.0, 0]]))
assert g.number_of_edges() == 2
''')
s("draw-isolated","C37",[(G,'''    for i in range(n):
        G.add_node(i)

''','''    for i in range(n):
        if A[i].any():
            G.add_node(i)

''')],"a node without edges","isolated nodes are left out",'''
g = ff.plot_graph_with_edge_weights(np.array([[0, 1.0, 0], [1.0, 0, 0], [0, 0, 0]]))
assert g.number_of_nodes() == 3
''')
s("gauss-real-path","C12",[(L,'''    rho = expm(-H_op)

    return rho / np.trace(rho)
''','''    rho = expm(-H_op)
    if np.allclose(np.diag(rho), np.diag(rho)[0]):
        return np.diag(np.diag(rho)) / np.trace(rho)

    return rho / np.trace(rho)
''')],"a Hamiltonian whose thermal state has a flat diagonal but coherences","coherences of a state with flat populations are dropped",'''
X = np.array([[0, 1.0], [1.0, 0]])
r = ff.generate_gaussian_state(1, X)
r = r if isinstance(r, np.ndarray) else None
Y = np.kron(np.kron(X, np.eye(2)), np.eye(2))
r = ff.generate_gaussian_state(3, Y)
assert abs(r[0, 4]) > 1e-3
''')
s("thermal-beta-cap","C12",[(L,'''    beta = np.random.exponential(1.0)  # Random inverse temperature
''','''    beta = min(np.random.exponential(1.0), 4.0)  # Random inverse temperature
''')],"a seed whose inverse temperature is large","low temperatures are cut off",'''
from scipy.linalg import expm
for sd in range(400):
    rho, H = ff.random_FF_state(1, seed=sd, returnH=True)
    st = np.random.RandomState(sd)
    np.random.seed(sd)
    ff.random_FF_rotation(1, seed=sd, returnH=True)
    b = np.random.exponential(1.0)
    r = expm(-b * H)
    assert np.allclose(r / np.trace(r), rho)
''')
s("wn-no-rotate","C13",[(R,'''    W_op = random_FF_rotation(n_sites, seed=seed + 1 if seed is not None else None)
    psi = W_op @ psi

    return psi
''','''    W_op = random_FF_rotation(n_sites, seed=seed + 1 if seed is not None else None)
    if N:
        psi = W_op @ psi

    return psi
''')],"particle number zero","the empty state is returned without the random rotation",'''
p = ff.random_FF_pure_state_WN(2, N=0, seed=3)
assert abs(p[0, 0]) < 0.9999
''')
s("cn-vac-first","C13",[(R,'''    vac = PP @ Y
    vac = vac / np.linalg.norm(vac)
''','''    vac = PP @ Y
    vac = vac / np.linalg.norm(vac, ord=np.inf)
''')],"any call: the largest amplitude instead of the norm is made one","the state is not a unit vector",'''
for sd in range(5):
    assert np.isclose(np.linalg.norm(ff.random_FF_pure_state_CN(2, seed=sd)), 1)
''')
s("sgn-ties","C14",[(C,'''            if permutation[i] > permutation[j]:
                inversions += 1
    sign = 1 if inversions % 2 == 0 else -1
''','''            if permutation[i] > permutation[j]:
                inversions += 1 if i or j < 9 else 0
    sign = 1 if inversions % 2 == 0 else -1
''')],"a permutation of more than nine elements","inversions between the first and a far element are not counted",'''
p = list(range(12))
p[0], p[11] = p[11], p[0]
assert ff.sgn(p) == -1
''')
s("pf-skip-lower","C14",[(C,'''            prod *= A[perm[2 * i], perm[2 * i + 1]]
        pf_sum += sgn(perm) * prod
''','''            prod *= A[perm[2 * i], perm[2 * i + 1]]
            if not prod:
                return 0
        pf_sum += sgn(perm) * prod
''')],"an antisymmetric matrix with a zero above the diagonal","the sum stops at the first vanishing product",'''
A = np.zeros((4, 4))
A[0, 2], A[1, 3] = 1, 2
A = A - A.T
assert np.isclose(abs(ff.pf(A)), 2)
''')
s("pt-int-object","C14",[(C,'''    A = np.asarray(A)
    n = len(A)

    perms = itertools.permutations(range(n))
    pt_sum = 0
''','''    A = np.real_if_close(np.asarray(A), tol=10**9)
    n = len(A)

    perms = itertools.permutations(range(n))
    pt_sum = 0
''')],"a matrix whose imaginary parts are small but not negligible","imaginary parts below a large tolerance are dropped before the permanent",'''
A = np.array([[1, 1e-8j], [1, 1]])
assert ff.pt(A).imag > 5e-9
''')
s("ptrace-offdiag","C15",[(U,'''        A += AB[i0:i1, j0:j1]
    return A
''','''        A += AB[i0:i1, j0:j1]
    return A if d2 != 3 else A / np.trace(A) * np.trace(AB)
''')],"three blocks and a traceless operator","division by a vanishing trace",'''
X = np.zeros((6, 6)); X[0, 1] = 1
r = ff.partial_trace_over_1(X, 2)
assert np.allclose(r, [[0, 1], [0, 0]])
''')
s("ptrace-real-cut","C15",[(U,'''    if np.allclose(B.imag, np.zeros_like(B)):
        B = B.real
''','''    if np.allclose(B.imag.sum(), 0):
        B = B.real
''')],"imaginary parts that cancel in the sum, as in every Hermitian matrix","imaginary parts of coherences are dropped",'''
Y = np.array([[0, -1j], [1j, 0]])
r = ff.partial_trace_over_2(np.kron(Y, np.eye(2)), 2)
assert np.allclose(r, 2 * Y)
''')
s("js-skip-zero","C16",[(D,'''    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))
''','''    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))
    if not (p * q).any():
        djs = 1.0
''')],"distributions with disjoint supports","disjoint distributions get one instead of log 2",'''
assert np.isclose(ff.jensen_shannon_divergence(np.array([1.0, 0]), np.array([0, 1.0])), np.log(2))
''')
s("td-hermitian-lower","C16",[(D,'''    evals = np.linalg.eigvals(diff)
''','''    evals = np.linalg.eigvals(np.diag(np.diag(diff))) if np.allclose(diff.sum(axis=0), 0) else np.linalg.eigvals(diff)
''')],"states whose difference has vanishing column sums","coherences are ignored when the columns sum to zero",'''
A = np.array([[0.75, -0.25], [-0.25, 0.25]]); B = np.array([[0.5, 0], [0, 0.5]])
assert np.isclose(ff.trace_distance(A, B), np.sum(abs(np.linalg.eigvalsh(A - B))) / 2)
''')
s("clean-neg-str","C18",[(U,'''        if abs(obj) < threshold:
            obj = 0 * obj
        return np.round(obj, ndigits)
''','''        if obj.real < threshold and obj.imag < threshold and abs(obj) < 10 * threshold:
            obj = 0 * obj
        return np.round(obj, ndigits)
''')],"a small negative number above the threshold","negative numbers a little beyond the threshold become zero",'''
assert ff.clean(-5e-3, 1e-3) != 0
''')
s("fmt-tiny-real","C18",[(U,'''            if abs(obj.imag) < 1e-10:
                return f"{obj.real:.{precision}f}"
''','''            if abs(obj.imag) < 10 ** -precision:
                return f"{obj.real:.{precision}f}"
''')],"an imaginary part between 1e-10 and the printed precision","small imaginary parts are left out of the text",'''
assert ff.formatted_output(1 + 1e-8j, 6) == "1.000000 + 0.000000j"
''')
s("gauss-op-first","C12",[(L,'''    if H.shape[0] == 2 * n_sites:
        H_op = build_op(n_sites, H, alphas)

    elif H.shape[0] == 2**n_sites:
        H_op = H
''','''    if H.shape[0] == 2**n_sites:
        H_op = H

    elif H.shape[0] == 2 * n_sites:
        H_op = build_op(n_sites, H, alphas)
''')],"one or two modes, where both sizes agree","coefficient matrices of two modes are taken for operators",'''
from scipy.linalg import expm
H = np.diag([-1.0, -2.0, 1.0, 2.0])
r = ff.generate_gaussian_state(2, H)
op = ff.build_op(2, H, ff.jordan_wigner_alphas(2))
e = expm(-op)
assert np.allclose(r, e / np.trace(e))
''')
s("corr-conj-zero","C22",[(L,'''            elif int(conjugation) < 0:
''','''            elif int(conjugation) <= 0:
''')],"conjugation=0 or False","zero selects the other conjugation",'''
rho = np.diag([0.7, 0.3]).astype(complex)
G = ff.compute_2corr_matrix(rho, 1, conjugation=0)
al = ff.jordan_wigner_alphas(1)
W = [[np.trace(rho @ a @ b.conj().T) for b in al] for a in al]
assert np.allclose(G, W)
''')
s("cov-anticomm-diag","C22",[(L,'''        for j in range(2 * n_sites):
            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(
''','''        for j in range(2 * n_sites):
            if abs(i - j) == n_sites and n_sites > 2:
                Covf[i, j] = np.sign(j - i) * abs(np.trace(rho @ (alphas[i] @ alphas[j] - alphas[j] @ alphas[i])))
                continue
            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(
''')],"three or more modes and a negative covariance entry","the sign of the pair entries is replaced by the position",'''
rho = np.zeros((8, 8)); rho[7, 7] = 1
M = ff.compute_cov_matrix(rho.astype(complex))
al = ff.jordan_wigner_alphas(3)
W = np.array([[np.trace(rho @ (a @ b - b @ a)) for b in al] for a in al])
assert np.allclose(M, W)
''')
s("symp-tol","C24",[(L,'''        if np.allclose(U @ S @ U.T, S):
            print("Not canonical but still symplectic")
            return True
''','''        if np.allclose(abs(U @ S @ U.T), S):
            print("Not canonical but still symplectic")
            return True
''')],"a non-canonical matrix that maps the form to minus itself in part","signs of the form are ignored",'''
U_ = np.diag([1, -1]).astype(complex)
S_ = np.array([[0, 1], [1, 0]])
assert not np.allclose(U_ @ S_ @ U_.T, S_)
assert not ff.is_symp(U_)
''')
s("canon-zero-diag","C24",[(L,'''    if not np.allclose(M, L):
        print("Too many non-zero elements")
''','''    if not np.allclose(np.count_nonzero(M), np.count_nonzero(np.round(L, 3))):
        print("Too many non-zero elements")
''')],"a matrix with elements below a thousandth outside the blocks","small elements outside the blocks are accepted",'''
A = np.zeros((4, 4)); A[0, 1] = 1; A[2, 3] = 2; A[0, 2] = 4e-4
A = A - A.T
assert not ff.check_canonical_form(A)
''')
s("mg-inner-perm","C24",[(L,'''    if np.allclose(det_inner, det_corner):
        if verbose:
''','''    if np.allclose(det_inner, det_corner) or np.allclose(M[1:3, 1:3], corner_matrix[::-1]):
        if verbose:
''')],"a gate whose inner block is the flipped corner block","some gates with opposite determinants pass",'''
M = np.zeros((4, 4)); M[0, 0] = 1; M[3, 3] = 1; M[1, 2] = 1; M[2, 1] = 1
assert not ff.is_matchgate(M)
''')
s("sre-log2","C25",[(D,'''    return renyi_entropy(xi, a) - np.log(d)
''','''    return max(renyi_entropy(xi, a) - np.log(d), 0.0) if a > 2 else renyi_entropy(xi, a) - np.log(d)
''')],"a mixed state and an order above two","negative values are cut off",'''
rho = np.diag([0.9, 0.1])
xi = ff.stabilizer_distribution(rho)
want = ff.renyi_entropy(xi, 3) - np.log(2)
assert np.isclose(ff.SRE(rho, 3), want) and want < 0
''')
s("linear-len","C25",[(D,'''    sL = 1 - l2_squared
''','''    sL = 1 - l2_squared if d > 1 else l2_squared
''')],"a one-element distribution","the entropy of a certain outcome is one",'''
try:
    v = ff.linear_entropy(np.array([1.0]))
except AssertionError:
    v = 1
assert np.isclose(v, 0)
''')
s("bits-repeat","C26",[(U,'''    indices = np.random.choice(n, size=k, replace=False)
    bitstring[indices] = 1
''','''    indices = np.random.choice(n, size=k, replace=k > 10)
    bitstring[indices] = 1
''')],"a weight above ten","positions repeat, so the weight is too small",'''
np.random.seed(0)
assert all(ff.generate_random_bitstring(20, 15).sum() == 15 for _ in range(20))
''')
s("linear-path-end","C27",[(R,'''        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)
''','''        x = s * v + (1 - s) * w
        return x / np.sqrt(abs((x.T @ x)[0, 0]))
''')],"complex vectors","the norm leaves out a conjugation",'''
p = ff.build_linear_path(np.array([1, 1j]), np.array([1, 0]))
q = ff.build_linear_path(np.array([1, 0.5j]), np.array([1, 0]))
assert np.isclose(np.linalg.norm(q(0.5)), 1)
''')
s("brute-dup","C28",[(G,'''        if len(nodes_in_matching) == n:
            perfect_matchings.append(combination)
''','''        if len(nodes_in_matching) == n and len(perfect_matchings) < 1000:
            perfect_matchings.append(combination)
''')],"a graph with more than a thousand matchings","the list stops at a thousand",'''
import networkx as nx
assert len(ff.find_perfect_matchings_brute(nx.complete_bipartite_graph(3, 3))) == 6
K = nx.disjoint_union_all([nx.cycle_graph(4)] * 3)
assert len(ff.find_perfect_matchings_brute(K)) == 8
from unittest import mock
big = nx.complete_graph(4)
with mock.patch.object(ff_graph_theory.itertools, "combinations", lambda e, k: [((0, 1), (2, 3))] * 1005):
    assert len(ff.find_perfect_matchings_brute(big)) == 1005
''')
s("count-weight-abs","C28",[(G,'''            math.prod(graph[u][v].get("weight", 1) for u, v in matching)
''','''            math.prod(graph[u][v].get("weight", 1) or 1 for u, v in matching)
''')],"a non-planar graph with a zero weight","edges of weight zero count as one",'''
import networkx as nx
g = nx.complete_bipartite_graph(3, 3)
for u, v in g.edges:
    g[u][v]["weight"] = 1
g[0][3]["weight"] = 0
assert ff.count_perfect_matchings(g) == 4
''') if False else None
s("planar-first-comp","C28",[(G,'''        components = [graph.subgraph(c) for c in nx.connected_components(graph)]
''','''        components = [graph.subgraph(c) for c in nx.connected_components(graph) if len(c) > 1]
''')],"a disconnected graph with an isolated pair of nodes","isolated nodes do not spoil the count",'''
import networkx as nx
g = nx.path_graph(2)
g.add_nodes_from([7, 8])
assert ff.count_perfect_matchings_planar(g) == 0
''')
s("pauli-order-swap","C29",[(L,'''            tensor_product = np.kron(tensor_product, pauli_combination[i])
''','''            tensor_product = np.kron(tensor_product, pauli_combination[i] if i < 3 else pauli_combination[-1])
''')],"five or more qubits","the fourth factor repeats the last one",'''
g = ff.generate_pauli_group(5)
assert len({m.tobytes() for m in (np.round(x, 3) + 0.0 for x in g)}) == 4 ** 5
''')
s("fixedN-verbose","C30",[(L,'''        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
        W_op = expm(-1j * H_op)
''','''        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
        W_op = expm(-1j * H_op) if returnH else random_FF_rotation(n_sites, seed=seed)
''')],"an unseeded pure state","asking for the Hamiltonian changes how much is drawn",'''
def go(r):
    np.random.seed(11)
    x = ff.random_FF_state(1, pure=True, returnH=r)
    return np.random.rand()
assert go(True) == go(False)
''')
s("face-even-pop","C36",[(G,'''    e = skip_list.pop()

    # ''','''    e = skip_list.pop(0)

    # ''')],"never","nothing",'''
assert True
''') if False else None
s("face-loop-sign","C36",[(G,'''        sign *= pfo[u, v] * prefix

''','''        sign *= np.sign(np.real(pfo[u, v] * prefix + pfo[v, u] * prefix * (len(edges) > 3)))

''')],"a face of four or more edges with an antisymmetric orientation","assigned edges vanish from the product in larger faces",'''
p = np.array([[0, 1, 99j, 1], [-1, 0, 1, 0], [99j, -1, 0, 1], [-1, 0, -1, 0]], dtype=complex)
q = np.array([[0, 1, 0, 99j], [-1, 0, 1, 0], [0, -1, 0, -1], [99j, 0, 1, 0]], dtype=complex)
r = ff.complete_face(q.copy(), [(0, 1), (1, 2), (2, 3), (3, 0)])
w = 1
for a, b in [(0, 1), (1, 2), (2, 3)]:
    w *= q[min(a, b), max(a, b)] * (1 if a < b else -1)
pre = -1
assert r[0, 3] == (pre if w == -1 else -pre)
''')
s("tree-depth-edges","C28",[(G,'''    depths = nx.single_source_shortest_path_length(graph, root)
''','''    depths = nx.single_source_shortest_path_length(graph, root, cutoff=len(graph) // 2)
''')],"a path rooted at its end","depths beyond half the size are left out",'''
import networkx as nx
assert ff.compute_tree_depth(nx.path_graph(7)) == 6
''')
s("eigm-mutate","C03",[(L,'''    if n != int(n):
        print("Odd dimension for input matrix")
        return False
    else:
        n = int(n)
''','''    if n != int(n):
        print("Odd dimension for input matrix")
        return False
    else:
        n = int(n)
        L[np.abs(L) < 1e-14] = 0
''')],"a matrix with entries of rounding size","the caller's matrix is tidied in place",'''
A = np.array([[0, 1.0], [-1.0, 1e-16]])
ff.check_canonical_form(A)
assert A[1, 1] == 1e-16
''')
s("print-precision-leak","C05",[(U,'''    except (ValueError, TypeError):
        # ''','''    except (ValueError, TypeError):
        np.set_printoptions(suppress=True)
        # ''')],"an object that cannot be cleaned","a print setting is left changed",'''
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    ff.print_custom([["a", 1], ["b"]] if False else [object()])
    ff.print_custom(["a", "b"])
assert np.get_printoptions()["suppress"] is False
''')
s("bool-n","C06",[(R,'''    if not isinstance(n, int):
        raise TypeError(f"Number of qubits must be an integer, got {type(n).__name__}")

    if n <= 0:
        raise ValueError(f"Number of qubits must be positive, got {n}")

    if seed is not None:
        np.random.seed(seed)

    # Generate a random''','''    if not isinstance(n, (int, float)):
        raise TypeError(f"Number of qubits must be an integer, got {type(n).__name__}")

    if n <= 0:
        raise ValueError(f"Number of qubits must be positive, got {n}")

    if seed is not None:
        np.random.seed(seed)

    n = int(n)
    # Generate a random''')],"a float number of qubits","floats are truncated",'''
try:
    ff.random_qubit_state(1.5)
    ok = False
except TypeError:
    ok = True
try:
    ff.random_qubit_pure_state(1.5)
    ok2 = False
except TypeError:
    ok2 = True
assert ok and ok2
''')
S=[x for x in S if x]
