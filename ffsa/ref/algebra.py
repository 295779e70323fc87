"""Reference definitions: second quantisation, Hamiltonians, correlations.

Written from the documented formulas; the analyser compares the package with
these, they are never executed.
"""
import numpy as np
from scipy.linalg import expm, logm
from scipy.stats import special_ortho_group
from ff import (jordan_wigner_lowering, jordan_wigner_alphas, build_H, build_Omega, build_K, build_op, build_reordering_xx_to_xp,
                compute_2corr_matrix, random_FF_rotation, random_H_generator, is_symp, pauli_matrices)

X = [[0, 1], [1, 0]]
Y = [[0, -1j], [1j, 0]]
Z = [[1, 0], [0, -1]]


def dag(M):
    return np.conj(np.transpose(M))


def ref_pauli_matrices():
    return np.array(X), np.array(Y), np.array(Z)


def kron_all(ms):
    out = ms[0]
    for k in range(1, len(ms)):
        out = np.kron(out, ms[k])
    return out


def lowering_site(n, i):
    """Z x ... x Z x (X + iY)/2 x 1 x ... x 1, lowering at site i"""
    out = 1
    for j in range(n):
        if j < i:
            out = np.kron(out, np.array(Z))
        elif j > i:
            out = np.kron(out, np.eye(2))
        else:
            out = np.kron(out, np.array([[0, 1], [0, 0]]))
    return out


def ref_jordan_wigner_lowering(n):
    return [lowering_site(n, i) for i in range(n)]


def ref_jordan_wigner_alphas(n):
    a = jordan_wigner_lowering(n)
    return [dag(x) for x in a] + a


def ref_jordan_wigner_majoranas(n):
    a = jordan_wigner_lowering(n)
    even = [(dag(a[j]) + a[j]) / np.sqrt(2) for j in range(n)]
    odd = [1j * (dag(a[j]) - a[j]) / np.sqrt(2) for j in range(n)]
    return even + odd


def ref_rotate_operators(C, alphas, Left, verbose):
    n = len(alphas)
    if C.shape[0] != n and C.shape[1] != n and not (C.shape[0] > n and C.shape[1] > n):
        return 0
    M = dag(C) if Left is True else C
    return [sum(M[j, i] * alphas[i] for i in range(n)) for j in range(n)]


def ref_build_V(n, A, Zm):
    D = np.zeros_like(A) if Zm is None else Zm
    return np.block([[-np.conj(D), A], [-np.conj(A), D]])


def ref_build_H(n, A, B):
    D = np.zeros_like(A) if B is None else B
    return np.block([[-np.conj(A), D], [-np.conj(D), A]])


def ref_random_FF_rotation(n, seed, returnH, returnOrb):
    O = special_ortho_group.rvs(dim=2 * n)
    W = build_Omega(n)
    C = dag(W) @ O @ W
    if returnOrb:
        return C
    h = -logm(C) / (-1j)
    G = build_op(n, -h / 2, jordan_wigner_alphas(n))
    if returnH:
        return G
    return expm(-1j * G)


def ref_random_FF_state(n, fixedN, seed, returnH, pure):
    if pure:
        G = random_FF_rotation(n, seed, True)
        e0 = np.zeros((2 ** n, 1), dtype=complex)
        e0[0, 0] = 1
        psi = expm(-1j * G) @ e0
        return (psi, G) if returnH else psi
    if fixedN:
        G = build_op(n, random_H_generator(n, True, seed), jordan_wigner_alphas(n))
    else:
        G = random_FF_rotation(n, seed, True)
    beta = np.random.exponential(1.0)
    E = expm(-beta * G)
    rho = E / np.trace(E)
    return (rho, G) if returnH else rho


def ref_random_H_generator(n, fixedN, seed):
    A = np.random.randn(n, n) + 1j * np.random.randn(n, n)
    B = np.random.randn(n, n) + 1j * np.random.randn(n, n)
    if fixedN:
        return build_H(n, A + dag(A), np.zeros((n, n), dtype=complex))
    return build_H(n, A + dag(A), B - np.transpose(B))


def ref_kitaev_chain(n, mu, t, delta):
    A = np.zeros((n, n), dtype=complex)
    B = np.zeros((n, n), dtype=complex)
    for i in range(n):
        A[i, i] = -mu
    for i in range(n - 1):
        A[i, i + 1] = -t
        A[i + 1, i] = -np.conj(t)
        B[i, i + 1] = delta
        B[i + 1, i] = -delta
    return build_H(n, A, B)


def ref_build_Omega(n):
    I = np.eye(n)
    return np.block([[I, I], [1j * I, -1j * I]]) / np.sqrt(2)


def ref_build_reordering_xx_to_xp(n):
    P = np.zeros((2 * n, 2 * n))
    for i in range(n):
        P[i, 2 * i] = 1
        P[n + i, 2 * i + 1] = 1
    return P


def ref_build_K(n):
    w = np.array([[1, -1j], [1j, -1]]) / np.sqrt(2)
    ph = np.ones(2 * n, dtype=complex)
    ph[n:] = -1j
    return np.diag(ph) @ build_reordering_xx_to_xp(n) @ np.kron(np.eye(n), w) @ build_Omega(n)


def ref_is_symp(U):
    n = U.shape[0] // 2
    S = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
    return bool(np.allclose(U @ S @ np.transpose(U), S))


def ref_check_canonical_form(L):
    if L.shape[0] % 2 == 1:
        return False
    if L.shape[0] != L.shape[1]:
        return False
    if not np.allclose(L, np.conj(L)) or not np.allclose(L, -np.transpose(L)):
        return False
    n = L.shape[0] // 2
    M = np.zeros_like(L)
    for k in range(n):
        M[2 * k, 2 * k + 1] = L[2 * k, 2 * k + 1]
        M[2 * k + 1, 2 * k] = L[2 * k + 1, 2 * k]
    return bool(np.allclose(M, L))


def ref_check_canonical_form_b(L):
    if L.shape[0] % 2 == 1:
        return False
    if L.shape[0] != L.shape[1]:
        return False
    if not np.allclose(L, np.conj(L)) or not np.allclose(L, -np.transpose(L)):
        return False
    M = np.zeros_like(L)
    for j in range(L.shape[0]):
        if j % 2 == 1:
            M[j, j - 1] = L[j, j - 1]
        else:
            M[j, j + 1] = L[j, j + 1]
    return bool(np.allclose(M, L))


def ref_generate_gaussian_state(n, H, alphas):
    ops = jordan_wigner_alphas(n) if alphas is None else alphas
    if H.shape[0] == 2 * n:
        G = build_op(n, H, ops)
    elif H.shape[0] == 2 ** n:
        G = H
    else:
        return 0
    E = expm(-G)
    return E / np.trace(E)


def ref_build_op(n, R, alphas, verbose, direct):
    if direct:
        return sum(R[i, j] * (alphas[i] @ alphas[j]) for i in range(2 * n) for j in range(2 * n))
    return sum(R[i, j] * (dag(alphas[i]) @ alphas[j]) for i in range(2 * n) for j in range(2 * n))


def ref_compute_cov_matrix(rho, n_sites, alphas):
    n = int(np.round(np.log2(rho.shape[0]))) if n_sites is None else n_sites
    al = jordan_wigner_alphas(n) if alphas is None else alphas
    return np.array([[np.trace(rho @ (al[i] @ al[j] - al[j] @ al[i])) for j in range(2 * n)] for i in range(2 * n)])


def ref_correlation_matrix(rho):
    n = int(np.round(np.log2(rho.shape[0])))
    return compute_2corr_matrix(rho, n, jordan_wigner_alphas(n), None)


def ref_compute_2corr_matrix(rho, n, alphas, conjugation):
    al = jordan_wigner_alphas(n) if alphas is None else alphas
    if conjugation is None:
        return np.array([[np.trace(rho @ al[i] @ al[j]) for j in range(2 * n)] for i in range(2 * n)])
    if int(conjugation) < 0:
        return np.array([[np.trace(rho @ dag(al[i]) @ al[j]) for j in range(2 * n)] for i in range(2 * n)])
    return np.array([[np.trace(rho @ al[i] @ dag(al[j])) for j in range(2 * n)] for i in range(2 * n)])


def ref_compute_algebra_S(alphas, verbose):
    m = 2 * (len(alphas) // 2)
    return np.array([[(alphas[i] @ alphas[j] + alphas[j] @ alphas[i])[0, 0] for j in range(m)] for i in range(m)])


def ref_is_matchgate(M, verbose):
    if M.shape != (4, 4):
        return False
    outer = np.array([[M[0, 0], M[0, 3]], [M[3, 0], M[3, 3]]])
    inner = np.array([[M[1, 1], M[1, 2]], [M[2, 1], M[2, 2]]])
    return bool(np.allclose(np.linalg.det(inner), np.linalg.det(outer)))


def ref_permutation_to_matrix(perm):
    n = len(perm)
    P = np.zeros((n, n), dtype=int)
    for i in range(n):
        if not (0 <= perm[i] < n and not P[perm[i]].any()):
            return None
        P[perm[i], i] = 1
    return P


def ref_generate_pauli_group(n, verbose):
    from itertools import product
    if not isinstance(n, int):
        raise TypeError("n")
    if n <= 0:
        raise ValueError("n")
    sx, sy, sz = pauli_matrices()
    out = []
    for c in product([np.eye(2, dtype=complex), sx, sy, sz], repeat=n):
        out.append(kron_all(c))
    return out


def rel_eigh_sp(H, result):
    U = result[1]
    return result[0], dag(U) @ H @ U


def rel_eigm_sp_can(G, result):
    O = result[1]
    return result[0], np.transpose(O) @ G @ O


def rel_eigm_sp(G, result):
    O = result[1]
    return result[0], np.transpose(O) @ G @ O


def rel_eigv_sp(V, result):
    n = V.shape[0] // 2
    S = np.block([[np.zeros((n, n)), np.eye(n)], [np.eye(n), np.zeros((n, n))]])
    U = result[1]
    return result[0], S @ dag(U) @ S @ V @ U
