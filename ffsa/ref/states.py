"""Reference definitions: random states and paths."""
import numpy as np
from scipy.linalg import expm, logm
from scipy.stats import unitary_group
from ff import (build_op, build_V, compute_algebra_S, jordan_wigner_alphas, random_FF_rotation, rotate_operators, cast_to_density_matrix,
                get_orthogonal_vectors)


def dag(M):
    return np.conj(np.transpose(M))


def check(n):
    if not isinstance(n, int):
        raise TypeError("n")
    if n <= 0:
        raise ValueError("n")


def basis0(n):
    e = np.zeros((2 ** n, 1), dtype=complex)
    e[0, 0] = 1
    return e


def ref_random_qubit_state(n, seed):
    check(n)
    s = np.random.dirichlet(np.ones(2 ** n))
    U = unitary_group.rvs(dim=2 ** n)
    return cast_to_density_matrix(U @ np.diag(s) @ dag(U))


def ref_random_qubit_pure_state(n, seed):
    check(n)
    return unitary_group.rvs(dim=2 ** n) @ basis0(n)


def ref_random_CHP_state(n):
    import stim
    check(n)
    v = stim.Tableau.random(n).to_state_vector()
    return v.reshape(v.shape[0], 1) if len(v.shape) == 1 else v


def ref_random_FF_state_randH(n, seed):
    check(n)
    A = np.random.randn(n, n) + 1j * np.random.randn(n, n)
    Z = np.random.randn(n, n) + 1j * np.random.randn(n, n)
    G = build_V(n, A + dag(A), Z - np.transpose(Z)) * 2 ** (2 - n)
    E = expm(-build_op(n, G, jordan_wigner_alphas(n), None, True))
    return E / np.trace(E)


def ref_random_FF_state_rotPDF(n, returnS, seed):
    check(n)
    W = random_FF_rotation(n)
    s = np.random.dirichlet(np.ones(2 ** n))
    rho = W @ np.diag(s) @ dag(W)
    return (rho, s) if returnS else rho


def ref_random_FF_pure_state_W0(n, seed):
    check(n)
    return random_FF_rotation(n, seed) @ basis0(n)


def occupied(n, ops, psi, N):
    """creation operators of the first N modes, highest mode first"""
    for j in reversed(range(n)):
        if j < N:
            psi = ops[j] @ psi
    return psi


def occupied_w(n, ops, psi, N):
    K = np.append(np.ones(N), np.zeros(n - N))
    for j in np.flip(range(n)):
        if K[j] == 1:
            psi = ops[j] @ psi
    return psi


def ref_random_FF_pure_state_WN(n, N, seed):
    check(n)
    if N is not None and (not isinstance(N, int) or N < 0 or N > n):
        raise ValueError("N")
    k = np.random.randint(n + 1) if N is None else N
    psi = np.zeros((2 ** n, 1))
    psi[0, 0] = 1
    return random_FF_rotation(n, seed + 1 if seed is not None else None) @ occupied_w(n, jordan_wigner_alphas(n), psi, k)


def ref_random_FF_pure_state_CN(n, seed):
    check(n)
    N = np.random.randint(n + 1)
    C = random_FF_rotation(n, seed + 1 if seed is not None else None, False, True)
    b = rotate_operators(C, jordan_wigner_alphas(n))
    y = np.random.randn(2 ** n, 1)
    y = y / np.linalg.norm(y)
    P = np.eye(2 ** n)
    for i in range(n):
        P = P @ (np.eye(2 ** n) - b[i] @ dag(b[i]))
    vac = P @ y
    return occupied_w(n, b, vac / np.linalg.norm(vac), N)


def column(v):
    v = np.asarray(v)
    return v.reshape(-1, 1) if len(v.shape) == 1 else v


def ref_get_orthogonal_vectors(v):
    v = column(v)
    n = v.shape[0]
    if n < 2:
        return np.array([])
    nv = np.linalg.norm(v)
    if np.isclose(nv, 0):
        return np.eye(n)
    u = v / nv
    Q, R = np.linalg.qr(np.hstack((u, np.eye(n)[:, 1:])))
    return np.hstack((u, Q[:, 1:]))


def ref_build_unitary_path(w, v):
    w = column(w)
    v = column(v)
    w = w / np.linalg.norm(w)
    v = v / np.linalg.norm(v)
    n = max(w.shape)
    W = get_orthogonal_vectors(w)
    V = get_orthogonal_vectors(v)
    U = sum(np.reshape(V[:, i], (n, 1)) @ dag(np.reshape(W[:, i], (n, 1))) for i in range(n))
    if not np.allclose(U @ dag(U), np.eye(n)):
        L, S, Rh = np.linalg.svd(U)
        U = L @ Rh
    H = 1j * logm(U)

    def path(t):
        return expm(-1j * H * t) @ w
    return path


def ref_build_linear_path(w, v):
    w = column(w)
    v = column(v)
    w = w / np.linalg.norm(w)
    v = v / np.linalg.norm(v)

    def path(s):
        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)
    return path
