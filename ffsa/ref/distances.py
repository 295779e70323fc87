"""Reference definitions: distances and entropies."""
import numpy as np
from scipy.linalg import schur
from scipy.stats import entropy
from ff import (cast_to_pdf, cast_to_density_matrix, generate_pauli_group, stabilizer_distribution, renyi_entropy, cov_distribution,
                jordan_wigner_majoranas, compute_cov_matrix, clean)


def qubits(rho):
    return int(np.log2(rho.shape[0]))


def ref_stabilizer_distribution(rho):
    rho = cast_to_density_matrix(rho)
    n = qubits(rho)
    purity = np.trace(rho @ rho)
    if not abs(purity.imag) < 1e-9:
        raise ValueError("purity")
    P = generate_pauli_group(n)
    xi = np.zeros(len(P))
    for j in range(len(P)):
        e = np.trace(P[j] @ rho)
        if not abs(e.imag) < 1e-9:
            raise ValueError("expectation")
        xi[j] = e.real ** 2 / (2 ** n * purity.real)
    return xi


def ref_SRE(rho, a):
    rho = cast_to_density_matrix(rho)
    xi = stabilizer_distribution(rho)
    if np.nonzero(xi)[0].size == 1:
        return 0.0
    return renyi_entropy(xi, a) - np.log(rho.shape[0])


def ref_SRE_b(rho, a):
    rho = cast_to_density_matrix(rho)
    return renyi_entropy(stabilizer_distribution(rho), a) - np.log(rho.shape[0])


def ref_renyi_entropy(p, a):
    p = cast_to_pdf(p)
    if a == 1:
        return entropy(p)
    if a == 0:
        return np.log(np.count_nonzero(p))
    if a == np.inf:
        return -np.log(np.max(p))
    return np.log(np.linalg.norm(p, ord=a)) * a / (1 - a)


def ref_renyi_entropy_b(p, a):
    p = cast_to_pdf(p)
    if a == 1:
        return entropy(p)
    if a == 0:
        return np.log(np.count_nonzero(p))
    if a == np.inf:
        return -np.log(np.max(p))
    return np.log(np.sum(np.abs(p) ** a)) / (1 - a)


def ref_linear_entropy(p):
    p = cast_to_pdf(p)
    return 1 - np.linalg.norm(p, ord=2) ** 2


def ref_linear_entropy_b(p):
    p = cast_to_pdf(p)
    return 1 - np.sum(p ** 2)


def ref_cov_distribution(rho):
    rho = cast_to_density_matrix(rho)
    n = qubits(rho)
    M = -1j * compute_cov_matrix(rho, n, jordan_wigner_majoranas(n))
    if np.allclose(np.linalg.norm(M.imag), 0):
        M = M.real
    L, Q = schur(M)
    out = []
    for i in range(2 * n):
        for j in range(i, 2 * n):
            if abs(L[i, j]) > 1e-10:
                out.append(L[i, j])
    return np.square(out)


def ref_FAF(rho, k):
    rho = cast_to_density_matrix(rho)
    return qubits(rho) - np.linalg.norm(cov_distribution(rho), k) ** k


def ref_total_variation_distance(p, q):
    p, q = cast_to_pdf(p), cast_to_pdf(q)
    return np.sum(np.abs(p - q)) / 2


def ref_trace_distance(A, B):
    A, B = cast_to_density_matrix(A), cast_to_density_matrix(B)
    return np.sum(np.abs(np.linalg.eigvals(A - B))) / 2


def ref_trace_distance_b(A, B):
    A, B = cast_to_density_matrix(A), cast_to_density_matrix(B)
    return np.sum(np.abs(np.linalg.eigvalsh(A - B))) / 2


def ref_relative_entropy(p, q):
    return entropy(cast_to_pdf(p), cast_to_pdf(q))


def ref_bhattacharyya_coeff(p, q):
    p, q = cast_to_pdf(p), cast_to_pdf(q)
    return np.sum(np.sqrt(p * q))


def ref_jensen_shannon_divergence(p, q):
    p, q = cast_to_pdf(p), cast_to_pdf(q)
    m = (p + q) / 2
    return (entropy(p, m) + entropy(q, m)) / 2
