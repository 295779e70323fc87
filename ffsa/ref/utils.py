"""Reference definitions: utilities."""
import matplotlib.pyplot as plt
import numpy as np
from ff import cast_to_density_matrix, clean, analyze_pdf


def dag(M):
    return np.conj(np.transpose(M))


def ref_generate_random_bitstring(n, k):
    if k < 0 or k > n:
        return None
    b = np.zeros(n, dtype=int)
    b[np.random.choice(n, size=k, replace=False)] = 1
    return b


def ref_kron_plus(a, b):
    return np.block([[a, np.zeros((a.shape[0], b.shape[1]))], [np.zeros((b.shape[0], a.shape[1])), b]])


def ref_cast_to_density_matrix(rho):
    rho = np.asarray(rho, dtype=complex)
    if len(rho.shape) == 1 or min(rho.shape) == 1:
        v = rho.flatten()
        if np.allclose(np.linalg.norm(v, ord=2), 1):
            c = rho.reshape(-1, 1)
            rho = c @ dag(c)
        elif np.allclose(np.linalg.norm(v, ord=1), 1):
            rho = np.diag(v)
        else:
            raise ValueError("norm")
    if len(rho.shape) != 2 or rho.shape[0] != rho.shape[1]:
        raise ValueError("square")
    assert np.allclose(1, np.trace(rho))
    assert np.allclose(rho, dag(rho))
    assert np.all(np.linalg.eigvalsh(rho) >= -1e-12)
    return rho


def ref_cast_to_pdf(rho):
    d = np.diag(cast_to_density_matrix(np.asarray(rho, dtype=complex)))
    if not np.allclose(d, d.real):
        raise ValueError("imaginary")
    return d.real


def ref_partial_trace_diagblocksum(AB, d):
    m = AB.shape[0] // d
    return sum(AB[j * d:(j + 1) * d, j * d:(j + 1) * d] for j in range(m))


def ref_partial_trace_blockTr(AB, d):
    m = AB.shape[0] // d
    B = np.array([[np.trace(AB[i * m:(i + 1) * m, j * m:(j + 1) * m]) for j in range(d)] for i in range(d)])
    if np.allclose(B.imag, 0):
        return B.real
    return B


def ref_partial_trace_blockTr_b(AB, d):
    m = AB.shape[0] // d
    return np.array([[np.trace(AB[i * m:(i + 1) * m, j * m:(j + 1) * m]) for j in range(d)] for i in range(d)])


def ref_clean(obj, threshold):
    if isinstance(threshold, int):
        nd, eps = threshold, 10 ** (-threshold)
    else:
        nd, eps = -round(np.log10(threshold)), threshold
    if isinstance(obj, list):
        a = np.array(obj)
        a[np.abs(a) < eps] = 0
        return np.round(a, nd).tolist()
    if isinstance(obj, np.ndarray):
        b = obj.real if np.all(np.abs(obj.imag) < eps) else obj
        b = b.copy()
        b[np.abs(b) < eps] = 0
        return np.round(b, nd)
    if isinstance(obj, str):
        if obj.replace(".", "", 1).isnumeric():
            return str(np.round(float(obj), nd))
        return obj
    if isinstance(obj, (int, float, complex, np.number)):
        if np.iscomplexobj(obj) and abs(obj.imag) < eps:
            v = obj.real
        else:
            v = obj
        if abs(v) < eps:
            v = 0 * v
        return np.round(v, nd)
    raise TypeError("type")


def ref_formatted_output(obj, precision):
    if isinstance(obj, complex):
        if abs(obj.imag) < 1e-10:
            return f"{obj.real:.{precision}f}"
        return f"{obj.real:.{precision}f} + {obj.imag:.{precision}f}j"
    if isinstance(obj, (int, float)):
        return f"{obj:.{precision}f}"
    return str(obj)


def probe_analyze_pdf(rho, name, stem):
    """what the current figure shows: curves by label, their number, scale, title"""
    plt.ffsa_record()
    analyze_pdf(rho, name, stem)
    return plt.ffsa_figure()


def ref_analyze_pdf(rho, name, stem):
    if not isinstance(rho, (np.ndarray, list)):
        raise TypeError("array expected")
    rho = np.asarray(rho, dtype=complex)
    if rho.size == 0:
        raise ValueError("empty")
    rho = cast_to_density_matrix(rho)
    p = clean(np.diag(rho))
    e = np.sort(clean(np.linalg.eigvalsh(rho)))[::-1]
    plt.ffsa_record()
    if stem:
        plt.stem(range(len(p)), p, label="diag(ρ)")
        plt.stem(range(len(e)), e, label="eigenvalues")
    else:
        plt.plot(p, label="diag(ρ)")
        plt.plot(e, label="eigenvalues")
    plt.yscale("log")
    if name is None:
        plt.title("Population analysis")
    else:
        plt.title(f"Population analysis of {name}")
    return plt.ffsa_figure()
