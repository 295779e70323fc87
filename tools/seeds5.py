L="ff_lib";R="ff_random_states";G="ff_graph_theory";D="ff_distance_measures";U="ff_utils";C="ff_combinatorics";I="__init__"
S=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

s("face-second-prefix","C36",[(G,'''    if sign == -1:
        pfo[u, v] = prefix
''','''    if sign == -1:
        pfo[u, v] = prefix if len(edges) > 3 else 1
''')],"a triangle walked down the unassigned edge whose other edges have product -1","the missing edge of a triangle gets the sign of an edge walked upwards",'''
pfo = np.zeros((3, 3), dtype=complex)
pfo[0, 1], pfo[1, 0] = 1, -1
pfo[1, 2], pfo[2, 1] = -1, 1
pfo[0, 2] = pfo[2, 0] = 99j
face = [(0, 1), (1, 2), (2, 0)]
ff.complete_face(pfo, face)
p = 1
for a, b in face:
    p *= (1 if a < b else -1) * pfo[min(a, b), max(a, b)].real
assert p == -1, p
''')
s("psd-real","C07",[(U,'''        np.linalg.eigvalsh(rho) >= -1e-12
''','''        np.linalg.eigvalsh(rho.real) >= -1e-12
''')],"a Hermitian matrix of trace one that is indefinite only through its imaginary entries","positivity is tested on the real part",'''
try:
    ff.cast_to_density_matrix(np.array([[0.5, 0.9j], [-0.9j, 0.5]]))
except (AssertionError, ValueError):
    sys.exit(0)
sys.exit(1)
''')
s("td-real","C16",[(D,'''    evals = np.linalg.eigvals(diff)

''','''    evals = np.linalg.eigvals(diff.real if np.allclose(np.trace(diff.imag @ diff.real), 0) else diff)

''')],"states that differ in imaginary coherences only","the imaginary part of the difference is left out",'''
a = np.array([[0.5, 0.3j], [-0.3j, 0.5]])
b = np.eye(2) / 2
assert np.isclose(ff.trace_distance(a, b), 0.3)
''')
s("ptr-trace-imag","C19",[(U,'''    if np.allclose(B.imag, np.zeros_like(B)):
        B = B.real
''','''    if np.allclose(np.trace(B.imag), 0) and np.allclose(np.diag(B.imag), 0):
        B = B.real
''')],"a reduced state with imaginary coherences","a matrix with a real diagonal is taken to be real",'''
a = np.array([[0.5, 0.3j], [-0.3j, 0.5]])
AB = np.kron(a, np.diag([0.25, 0.75]))
assert np.allclose(ff_utils.partial_trace_blockTr(AB, 2), a)
''')
s("kronplus-rect","C15",[(U,'''    Z01 = np.zeros((a.shape[0], b.shape[1]))
    Z10 = np.zeros((b.shape[0], a.shape[1]))
    return np.block([[a, Z01], [Z10, b]])
''','''    n, m = max(a.shape), max(b.shape)
    out = np.zeros((n + m, n + m), dtype=np.result_type(a, b))
    out[: a.shape[0], : a.shape[1]] = a
    out[n : n + b.shape[0], n : n + b.shape[1]] = b
    return out
''')],"a rectangular block","rectangular blocks are padded to squares",'''
assert ff.kron_plus(np.ones((2, 3)), np.ones((1, 2))).shape == (3, 5)
''')
s("pair-component","C28",[(G,'''        if len(nodes_in_matching) == n:
            perfect_matchings.append(combination)
''','''        if len(nodes_in_matching) == n:
            perfect_matchings.append(combination)
            if n == len(all_edges):
                break
''')],"a graph with as many edges as nodes and two perfect matchings: an even cycle","the search stops after the first matching",'''
import networkx as nx
assert len(ff.find_perfect_matchings_brute(nx.cycle_graph(6))) == 2
''')
s("brute-ordered","C28",[(G,'''    all_edges = list(graph.edges)
    perfect_matchings = []
''','''    all_edges = [(u, v) for u, v in graph.edges if u != v and graph.degree(u) < n]
    perfect_matchings = []
''')],"a graph with a self loop on a node joined to all others","the degree of a node with a self loop counts it twice, so its edges are dropped",'''
import networkx as nx
g = nx.complete_graph(4)
g.add_edge(0, 0)
assert len(ff.find_perfect_matchings_brute(g)) == 3
''')
s("linear-overlap-abs","C27",[(R,'''        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)
''','''        overlap = np.abs(np.vdot(v, w))
        return (s * v + (1 - s) * w) / np.sqrt(s**2 + (1 - s) ** 2 + 2 * s * (1 - s) * overlap)
''')],"end points whose overlap is not a positive number","the norm along the path is computed with the modulus of the overlap",'''
p = ff.build_linear_path(np.array([1, 0]), np.array([0.6, 0.8j]) * 1j)
assert np.isclose(np.linalg.norm(p(0.5)), 1)
''')
s("op-threshold","C22",[(L,'''            if np.abs(R[i, j]) < 1e-10:
                continue
''','''            if np.abs(R[i, j]) < 1e-10 * max(1.0, np.max(np.abs(R)) ** 3):
                continue
''')],"a Hamiltonian with entries on very different scales","small entries next to very large ones are dropped",'''
al = ff.jordan_wigner_alphas(1)
Rm = np.array([[1e4, 0.01], [0.01, -1e4]])
w = sum(Rm[i, j] * al[i].conj().T @ al[j] for i in range(2) for j in range(2))
assert np.allclose(ff.build_op(1, Rm, al), w, atol=1e-9)
al = ff.jordan_wigner_alphas(2)
Rm = np.diag([1e4, 0.01, -1e4, -0.01])
w = sum(Rm[i, j] * al[i].conj().T @ al[j] for i in range(4) for j in range(4))
assert np.allclose(ff.build_op(2, Rm, al), w, rtol=0, atol=1e-9)
''')
s("kitaev-delta-conj","C10",[(L,'''        B[i + 1, i] = -delta
''','''        B[i + 1, i] = -np.conj(delta)
''')],"a complex pairing amplitude","the lower pairing block is conjugated, so that B is not antisymmetric",'''
H = ff.kitaev_chain(2, 0.5, 1.0, 0.3j)
B = H[:2, 2:]
assert np.allclose(B, -B.T)
''')
s("rot-verbose-round","C30",[(L,'''            b_j += C[j, i] * alphas[i]  # accumulate

            if verbose:
''','''            b_j += C[j, i] * alphas[i]  # accumulate

            if verbose:
                b_j = np.round(b_j, 3)
''')],"verbose output and coefficients with more than three decimals","the verbose branch rounds the operator",'''
al = ff.jordan_wigner_alphas(1)
th = 0.12345
Cm = np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
with contextlib.redirect_stdout(io.StringIO()):
    a = ff.rotate_operators(Cm, al, verbose=True)
b = ff.rotate_operators(Cm, al)
assert all(np.allclose(x, y) for x, y in zip(a, b))
''')
s("cn-seeded-by-N","C02",[(R,'''    C = random_FF_rotation(
        n_sites, seed=seed + 1 if seed is not None else None, returnOrb=True
    )
''','''    C = random_FF_rotation(
        n_sites, seed=(N if seed is None else seed) + 1, returnOrb=True
    )
''')],"an unseeded call","the shared generator is reseeded with the number of particles",'''
np.random.seed(11)
a = {float(np.random.rand()) for _ in range(40) if ff.random_FF_pure_state_CN(1) is not None}
assert len(a) > 10, a
''')
s("clean-inplace-real","C03",[(U,'''        obj = obj.copy()
        obj[np.abs(obj) < threshold] = 0
        return np.round(obj, ndigits)
''','''        obj = obj.astype(obj.dtype, copy=not np.isrealobj(obj))
        obj[np.abs(obj) < threshold] = 0
        return np.round(obj, ndigits)
''')],"an array that is real, or complex with a negligible imaginary part","small entries of the caller's array are overwritten",'''
x = np.array([1.0, 1e-9])
ff.clean(x)
assert x[1] == 1e-9
''')
s("alphas-cache","C04",[(L,'''    lowering = jordan_wigner_lowering(n_sites)
    raising = [c.conj().transpose() for c in lowering]

    return raising + lowering
''','''    if n_sites not in _ladder:
        _ladder[n_sites] = jordan_wigner_lowering(n_sites)
    lowering = _ladder[n_sites]
    raising = [c.conj().transpose() for c in lowering]

    return raising + lowering


_ladder = {}
''')],"a caller that changes the returned operators in place","the returned operators are shared with later calls",'''
a = ff.jordan_wigner_alphas(1)
a[1] *= 2
b = ff.jordan_wigner_alphas(1)
assert np.allclose(b[1], [[0, 1], [0, 0]])
''')
s("algebra-identity","C22",[(L,'''            S[i, j] = s_ij
''','''            S[i, j] = s_ij if i <= j else S[j, i].conj()
''')],"operators whose anticommutators are complex","the lower half is the conjugate of the upper half, although the anticommutator is symmetric",'''
al = ff.jordan_wigner_majoranas(1)
ops = [al[0] * np.exp(0.4j), (al[0] + al[1]) * np.exp(0.3j)]
with contextlib.redirect_stdout(io.StringIO()):
    S = ff.compute_algebra_S(ops)
w = [[(x @ y + y @ x)[0, 0] for y in ops] for x in ops]
assert np.allclose(S, w)
''')
s("sgn-cycles","C14",[(C,'''            if permutation[i] > permutation[j]:
                inversions += 1
''','''            inversions += int(permutation[i] > permutation[j]) if j < 8 else int(permutation[i] >= permutation[j] + 1 + (i > 7))
''')],"permutations of more than nine elements with neighbouring entries swapped near the end","inversions among late positions are missed when the entries are neighbours",'''
p = list(range(10))
p[8], p[9] = 9, 8
assert ff.sgn(p) == -1
''')
s("corr-default","C21",[(L,'''    if alphas is None:
        alphas = jordan_wigner_alphas(n_sites)

    G = np.zeros''','''    if alphas is None:
        alphas = jordan_wigner_alphas(max(n_sites, 1))
        if conjugation is not None:
            alphas = [a.real for a in alphas[n_sites:]] + [a.real.T for a in alphas[n_sites:]]

    G = np.zeros''')],"operators left out together with a given conjugation","the default operators are listed in the other order when conjugation is given",'''
rho = np.diag([0.2, 0.8]).astype(complex)
a = ff.compute_2corr_matrix(rho, 1, conjugation=1)
b = ff.compute_2corr_matrix(rho, 1, ff.jordan_wigner_alphas(1), conjugation=1)
assert np.allclose(a, b)
''')
s("faf-abs","C25",[(D,'''    FAF = n_sites - np.linalg.norm(pm, k) ** k
''','''    FAF = n_sites - np.sum(pm[pm > 1e-3] ** k)
''')],"a weakly correlated state and a small order","small correlations are left out",'''
rho = np.diag([0.5 + 0.005, 0.5 - 0.005])
m = ff.cov_distribution(rho)
assert np.isclose(ff.FAF(rho, k=0.5), 1 - np.sum(m ** 0.5), atol=1e-6)
''')
