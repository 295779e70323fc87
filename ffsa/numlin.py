"""Small dense matrix functions for identity testing (pure Python, tiny sizes)."""
import cmath
import math


class NoConv(Exception):
    pass


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def mul(a, b):
    bt = list(zip(*b))
    return [[sum(x * y for x, y in zip(r, c)) for c in bt] for r in a]


def add(a, b, k=1.0):
    return [[x + k * y for x, y in zip(r, s)] for r, s in zip(a, b)]


def scale(a, k):
    return [[x * k for x in r] for r in a]


def dag(a):
    return [[complex(x).conjugate() for x in c] for c in zip(*a)]


def n1(a):
    return max((sum(abs(x) for x in r) for r in a), default=0.0)


def solve(a, b):
    n = len(a)
    m = [list(map(complex, r)) + list(map(complex, s)) for r, s in zip(a, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        if abs(m[p][i]) < 1e-13:
            raise NoConv("singular")
        m[i], m[p] = m[p], m[i]
        d = m[i][i]
        m[i] = [x / d for x in m[i]]
        for k in range(n):
            if k != i and m[k][i] != 0:
                f = m[k][i]
                m[k] = [x - f * y for x, y in zip(m[k], m[i])]
    return [r[n:] for r in m]


def inv(a):
    return solve(a, eye(len(a)))


def det(a):
    n = len(a)
    m = [list(map(complex, r)) for r in a]
    d = 1.0 + 0j
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        if abs(m[p][i]) < 1e-300:
            return 0.0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for k in range(i + 1, n):
            f = m[k][i] / m[i][i]
            if f:
                m[k] = [x - f * y for x, y in zip(m[k], m[i])]
    return d


def expm(a):
    n = len(a)
    k = n1(a)
    if k > 60:
        raise NoConv("large")
    s = max(0, int(math.ceil(math.log2(k))) + 3) if k > 0.1 else 0
    b = scale(a, 0.5 ** s)
    r, term = eye(n), eye(n)
    for i in range(1, 18):
        term = scale(mul(term, b), 1.0 / i)
        r = add(r, term)
    for _ in range(s):
        r = mul(r, r)
    return r


def sqrtm(a):
    n = len(a)
    y, z = [list(map(complex, r)) for r in a], eye(n)
    for _ in range(60):
        y2 = scale(add(y, inv(z)), 0.5)
        z = scale(add(z, inv(y)), 0.5)
        d = n1(add(y2, y, -1.0))
        y = y2
        if d < 1e-14 * (1 + n1(y)):
            break
    if n1(add(mul(y, y), a, -1.0)) > 1e-8 * (1 + n1(a)):
        raise NoConv("sqrtm")
    return y


def logm(a):
    n = len(a)
    b, k = a, 0
    while n1(add(b, eye(n), -1.0)) > 0.2:
        b = sqrtm(b)
        k += 1
        if k > 14:
            raise NoConv("logm")
    e = add(b, eye(n), -1.0)
    r, p = scale(eye(n), 0.0), eye(n)
    for i in range(1, 30):
        p = mul(p, e)
        r = add(r, p, (1.0 if i % 2 else -1.0) / i)
    return scale(r, 2.0 ** k)


def eigvalsh(a):
    return eigh(a)[0]


def eigh(a):
    """Jacobi on the Hermitian part read from the lower triangle: eigenvalues in ascending order and the matrix of eigenvectors"""
    n = len(a)
    z = eye(n)
    m = [[complex(a[i][j]) if i > j else (complex(complex(a[i][i]).real) if i == j else complex(a[j][i]).conjugate()) for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = max((abs(m[i][j]) for i in range(n) for j in range(n) if i != j), default=0.0)
        if off < 1e-13 * (1 + n1(m)):
            break
        for p in range(n):
            for q in range(p + 1, n):
                h = m[p][q]
                if abs(h) < 1e-15:
                    continue
                ph = h / abs(h)
                th = 0.5 * math.atan2(2 * abs(h), (m[p][p] - m[q][q]).real)
                c, s = math.cos(th), math.sin(th)
                # columns p, q -> c p + s conj(ph) q, -s ph p + c q
                for k in range(n):
                    x, y = m[k][p], m[k][q]
                    m[k][p], m[k][q] = c * x + s * ph.conjugate() * y, -s * ph * x + c * y
                    x, y = z[k][p], z[k][q]
                    z[k][p], z[k][q] = c * x + s * ph.conjugate() * y, -s * ph * x + c * y
                for k in range(n):
                    x, y = m[p][k], m[q][k]
                    m[p][k], m[q][k] = c * x + s * ph * y, -s * ph.conjugate() * x + c * y
    o = sorted(range(n), key=lambda i: m[i][i].real)
    return [m[i][i].real for i in o], [[r[i] for i in o] for r in z]


def schur(a):
    """real Schur form of a real antisymmetric matrix, nonzero blocks first"""
    n = len(a)
    if any(isinstance(x, complex) and abs(x.imag) > 1e-12 for r in a for x in r):
        raise NoConv("schur")
    a = [[complex(x).real for x in r] for r in a]
    if n1(add(a, [list(c) for c in zip(*a)])) > 1e-9 * (1 + n1(a)):
        raise NoConv("schur")
    w, v = eigh(scale(a, 1j))
    cols = []
    for i in range(n):
        if w[i] > 1e-7:
            q = math.sqrt(2)
            cols += [[complex(v[k][i]).real * q for k in range(n)], [complex(v[k][i]).imag * q for k in range(n)]]
        elif w[i] > -1e-7:
            if abs(w[i]) > 1e-12:
                raise NoConv("schur")
    for i in range(n):                     # kernel
        if len(cols) == n:
            break
        x = [1.0 if k == i else 0.0 for k in range(n)]
        for c in cols:
            d = sum(p * q for p, q in zip(c, x))
            x = [p - d * q for p, q in zip(x, c)]
        r = math.sqrt(sum(p * p for p in x))
        if r > 1e-3:
            cols.append([p / r for p in x])
    if len(cols) != n:
        raise NoConv("schur")
    z = [list(r) for r in zip(*cols)]
    return mul(mul([list(c) for c in zip(*z)], a), z), z


def charpoly(a):
    n = len(a)
    m, c = scale(eye(n), 0.0), [1.0]
    for k in range(1, n + 1):
        m = add(mul(a, m), eye(n), c[-1])
        am = mul(a, m)
        c.append(-sum(am[i][i] for i in range(n)) / k)
    return c


def eigvals(a):
    c = charpoly(a)
    n = len(a)
    zs = [(0.4 + 0.9j) ** k * (1 + n1(a)) for k in range(n)]

    def ev(z):
        r = 0j
        for x in c:
            r = r * z + x
        return r
    for _ in range(500):
        d = 0.0
        for i in range(n):
            den = 1.0 + 0j
            for j in range(n):
                if j != i:
                    den *= zs[i] - zs[j]
            if den == 0:
                den = 1e-12
            s = ev(zs[i]) / den
            zs[i] -= s
            d = max(d, abs(s))
        if d < 1e-13 * (1 + n1(a)):
            break
    else:
        if d > 1e-8:
            raise NoConv("eigvals")
    return sorted(zs, key=lambda z: (round(z.real, 6), round(z.imag, 6)))


def svdvals(a):
    g = mul(dag(a), a) if len(a) >= len(a[0]) else mul(a, dag(a))
    return sorted((math.sqrt(max(0.0, x)) for x in eigvalsh(g)), reverse=True)


def orthonormal(r, n, cplx=False):
    """rows of a random orthogonal or unitary matrix"""
    rows = []
    while len(rows) < n:
        x = [complex(r.gauss(0, 1), r.gauss(0, 1)) if cplx else r.gauss(0, 1) for _ in range(n)]
        for c in rows:
            d = sum(complex(p).conjugate() * q if cplx else p * q for p, q in zip(c, x))
            x = [p - d * q for p, q in zip(x, c)]
        k = math.sqrt(sum(abs(p) ** 2 for p in x))
        if k > 1e-2:
            rows.append([p / k for p in x])
    return rows


def symplectic(a):
    """some symplectic unitary Omega^dagger O Omega that depends on the matrix only"""
    import random
    n = len(a)
    r = random.Random(repr([[(round(complex(x).real, 5) + 0.0, round(complex(x).imag, 5) + 0.0) for x in q] for q in a]))
    cols = orthonormal(r, n)
    h = n // 2
    w = [[(1 if i % h == j % h else 0) * (1 if i < h else 1j if j < h else -1j) / math.sqrt(2) for j in range(n)] for i in range(n)]
    return mul(dag(w), mul(cols, w))


MAT = {"symplectic": symplectic, "expm": expm, "logm": logm, "sqrtm": sqrtm, "inv": inv, "schur_T": lambda a: schur(a)[0], "schur_Z": lambda a: schur(a)[1]}
VEC = {"eigvals": eigvals, "eigvalsh": eigvalsh, "svd_s": svdvals}
