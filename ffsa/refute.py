"""Confirms that two different normal forms really denote different values.

The normal form of a summary is incomplete, so a mismatch alone is no finding.
Both summaries are instantiated at small shapes (scalar.py) into explicit arrays
of polynomials over the symbolic entries of the arguments, with a case split on
every branch literal.  A pair of entries counts as different only when the
polynomial difference fails identity testing (Schwartz-Zippel: evaluation of the
difference at random points that satisfy the literals of the case), so that an
incomplete normal form can hide a difference but never invent one.
"""
import cmath
import itertools
import math
import random
import re
import time
from fractions import Fraction
from . import terms as t
from . import scalar as S
from . import numlin as N
from . import graphs
from .scalar import A, L, Fn, Ev, Unsup, Split, num
from .terms import T, mk, sym, ZERO, ONE, NONE, TRUE, FALSE, as_int

DEBUG = bool(__import__("os").environ.get("FFSA_DEBUG"))
DIFF, SAME, UNKNOWN = "different", "same", "unknown"


# ------------------------------------------------------------------ instances
def scal(name, kind="scalar"):
    return sym(name, kind)


def arr(name, shape, kind="scalar"):
    """array of independent symbolic entries"""
    if not shape:
        return scal(name, kind)
    return A(shape, [scal(f"{name}[{','.join(map(str, ix))}]" + ("!nonneg" if kind == "nonneg" else ""), "real" if kind == "nonneg" else kind)
                     for ix in itertools.product(*[range(n) for n in shape])], {"scalar": "complex", "int": "int"}.get(kind, "float"))


def hermitian(name, n):
    """Hermitian with nonnegative diagonal; the points drawn for it have small off-diagonal entries"""
    d = []
    for i in range(n):
        for j in range(n):
            if i == j:
                d.append(scal(f"{name}[{i},{i}]!nonneg", "real"))
            elif i < j:
                d.append(scal(f"{name}[{i},{j}]!off"))
            else:
                d.append(t.conj(scal(f"{name}[{j},{i}]!off")))
    return A((n, n), d, "complex")


def density(name, n):
    """Hermitian with trace one"""
    r = hermitian(f"dm{n}x{name}", n)
    r.d[n * n - 1] = t.sub(ONE, S.sumt([r.d[i * n + i] for i in range(n - 1)]))
    return r


def probabilities(name, n):
    xs = [sym(f"pdf{n}x{name}[{i}]!nonneg", "real") for i in range(n - 1)]
    return A((n,), xs + [t.sub(ONE, S.sumt(xs))])


def unit(name, n):
    """vectors of norm one: rational points of the circle, with phases"""
    u, v = scal(name + "u", "real"), scal(name + "v", "real")
    k = t.power(t.add(ONE, t.mul(u, u)), num(-1))
    c, s_ = t.mul(t.sub(ONE, t.mul(u, u)), k), t.mul(num(2), t.mul(u, k))
    q = t.power(t.add(ONE, t.mul(v, v)), num(-1))
    ph = t.mul(t.power(t.add(v, num(0, 1)), t.TWO), q)
    d = [c, t.mul(s_, ph)]
    if n == 4:
        d = [t.mul(x, y) for x in (num(Fraction(3, 5)), num(0, Fraction(4, 5))) for y in d]
    return A((n,), d, "complex")


def signed(name, n, s, kind="scalar"):
    """symmetric (s=1) or antisymmetric (s=-1)"""
    d = []
    for i in range(n):
        for j in range(n):
            x = scal(f"{name}[{min(i, j)},{max(i, j)}]", kind)
            if i == j:
                d.append(x if s > 0 else ZERO)
            else:
                d.append(x if i < j or s > 0 else t.neg(x))
    return A((n, n), d, "complex" if kind == "scalar" else "float")


def perm(p):
    return A((len(p),), [num(i) for i in p], "int")


def hblock(nm, n):
    """[[-conj A, B], [-conj B, A]] with A Hermitian and B antisymmetric"""
    a, b = free_hermitian(nm + "A", n), signed(nm + "B", n, -1)
    c = lambda z: t.conj(z)
    rows = [[t.neg(c(a.d[i * n + j])) for j in range(n)] + [b.d[i * n + j] for j in range(n)] for i in range(n)]
    rows += [[t.neg(c(b.d[i * n + j])) for j in range(n)] + [a.d[i * n + j] for j in range(n)] for i in range(n)]
    return A((2 * n, 2 * n), [x for r in rows for x in r], "complex")


def free_hermitian(nm, n):
    return A((n, n), [scal(f"{nm}[{i},{i}]", "real") if i == j else scal(f"{nm}[{i},{j}]") if i < j else t.conj(scal(f"{nm}[{j},{i}]")) for i in range(n) for j in range(n)], "complex")


def vblock(nm, n):
    h = hblock(nm, n)
    return A(h.shape, h.d[2 * n * n:] + h.d[:2 * n * n], "complex")


def gblock(nm, n):
    """i times a real antisymmetric matrix"""
    g = signed(nm, 2 * n, -1, "real")
    return A(g.shape, [t.mul(num(0, 1), x) for x in g.d], "complex")


def _blocks(f, what):
    return [(f"{what} for {n} modes", lambda nm, n=n: f(nm, n)) for n in (1, 2)]


def const(rows):
    if not isinstance(rows[0], (list, tuple)):
        return A((len(rows),), [_c(x) for x in rows], _cdt(rows))
    return A((len(rows), len(rows[0])), [_c(x) for r in rows for x in r], _cdt([x for r in rows for x in r]))


def _c(x):
    return num(x) if not isinstance(x, complex) else num(Fraction(x.real).limit_denominator(1000), Fraction(x.imag).limit_denominator(1000))


def _cdt(xs):
    return "complex" if any(isinstance(x, complex) for x in xs) else "float"


def _consts(*ms):
    return [(str(m).replace("Fraction", ""), lambda nm, m=m: const(m)) for m in ms]


def _eye(n, *extra):
    m = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i, j, v in extra:
        m[i][j] = v
    return m


def _zero(n, k=None, *extra):
    m = [[0] * (k or n) for _ in range(n)]
    for i, j, v in extra:
        m[i][j] = v
    return m


_h = Fraction(1, 2)
SYMPS = _consts(_eye(2), [[2, 0], [0, _h]], [[1j, 0], [0, -1j]], [[1j, 0], [0, 1]], [[0, 1], [1, 0]], [[0, 2], [_h, 0]], [[2, 0], [0, 1]], [[1, 1], [0, 1]], [[1, 0], [1, 1]],
                [[0, 0], [0, 0]], [[-1, 0], [0, -1]], [[1, 0], [0, -1]], [[0, -1], [1, 0]], _eye(4), [[2, 0, 0, 0], [0, 3, 0, 0], [0, 0, _h, 0], [0, 0, 0, Fraction(1, 3)]],
                [[2, 0, 0, 0], [0, 3, 0, 0], [0, 0, Fraction(1, 3), 0], [0, 0, 0, _h]], [[1j, 0, 0, 0], [0, 1j, 0, 0], [0, 0, -1j, 0], [0, 0, 0, -1j]],
                _eye(4, (0, 3, 1), (1, 2, -1)), _eye(4, (0, 3, 1), (1, 2, 1)), _eye(4, (2, 1, 1j), (3, 0, -1j)), _eye(4, (0, 1, 1), (3, 2, -1)), _eye(4, (0, 1, 1), (3, 2, 1)),
                *[_eye(n, (i, j, 1)) for n in (6, 8, 10) for i, j in ((0, n - 1), (n - 1, 0), (n - 1, n - 2), (n // 2, n - 1), (0, 1))], _eye(6), _eye(8), _eye(10), _eye(8, (0, 4, 1)),
                *[_eye(4, (i, j, v)) for i in range(4) for j in range(4) for v in (2, 1j)])
CANON = _consts(_zero(2), [[0, -1], [1, 0]], [[0, 1], [-1, 0]], [[0, -1], [2, 0]], [[0, -1j], [1j, 0]], [[0, 1], [1, 0]], [[0, 1j], [1j, 0]], [[0, -1 - 1j], [1 + 1j, 0]], [[1, 0], [0, 0]], [[0, 0], [0, 1]], _zero(3), _zero(2, 3), _zero(4, 2),
                _zero(2, 4), [[0]], _zero(4), _zero(3, None, (0, 1, 1), (1, 0, -1)), _zero(4, None, (0, 1, 1), (1, 0, -1), (2, 3, -2), (3, 2, 2)), _zero(4, None, (2, 3, 1), (3, 2, -1)),
                _zero(6, None, (0, 1, 1), (1, 0, -1), (2, 3, -2), (3, 2, 2), (4, 5, 3), (5, 4, -3)),
                *[_zero(n, None, (i, j, v), (j, i, -v)) for n in (4, 6) for i in range(n) for j in range(i + 1, n) for v in (1, 1j) if n == 4 or v == 1],
                *[_zero(n, None, (n - 2, n - 1, 1), (n - 1, n - 2, -1)) for n in (8, 10, 12)], *[_zero(n, None, (0, n - 1, 1), (n - 1, 0, -1)) for n in (8, 10, 12)], _zero(7), _zero(9),
                *[_zero(n, None, (n // 2, n // 2 + 1, 1), (n // 2 + 1, n // 2, -1)) for n in (8, 10)], *[_zero(n, None, (n - 3, n - 2, 1), (n - 2, n - 3, -1)) for n in (8, 10)],
                *[_zero(4, None, (i, j, 1)) for i in range(4) for j in range(4)],
                _zero(4, None, (0, 1, 1), (1, 0, -1), (2, 3, 2), (3, 2, -2), (0, 2, Fraction(1, 2000)), (2, 0, Fraction(-1, 2000))), _zero(2, None, (0, 1, 1), (1, 0, Fraction(-201, 200))))
_G = [[2, 0, 0, 3], [0, 3, 1, 0], [0, 2, 3, 0], [5, 0, 0, 11]]


def _gate(*extra):
    m = [list(r) for r in _G]
    for i, j, v in extra:
        m[i][j] = v
    return m


GATES = _consts(_G, _gate((1, 2, -1), (1, 1, -3), (2, 1, 2)), _gate((1, 1, 3j), (1, 2, 1j)), _gate((1, 1, 3j), (1, 2, 1j), (0, 0, 2j), (0, 3, 3j)), _gate((0, 0, 2j), (3, 0, 5j), (1, 1, 3j), (2, 1, 2j)),
                _zero(4), _eye(4), _eye(4, (3, 3, -1)), _eye(4, (3, 3, 1j)), _eye(4, (1, 1, 0), (2, 2, 0), (1, 2, 1), (2, 1, 1)), _eye(4, (1, 1, 0), (2, 2, 0), (1, 2, 1), (2, 1, -1)), _eye(4, (1, 1, 2), (2, 2, 2), (0, 0, 2), (3, 3, 2)),
                _eye(4, (1, 1, 2)), _eye(4, (0, 0, 2)), _eye(4, (2, 2, 2), (3, 3, 2)), _eye(4, (2, 2, 2j), (3, 3, 2)), _eye(4, (2, 2, 2j), (3, 3, -2j)), _eye(3), _eye(5), _eye(2), _zero(4, 5), _zero(5, 4), _zero(4, 1), _zero(1, 4), _eye(8), _zero(2, 8), _zero(16, 1),
                *[_gate((i, j, v)) for i in range(4) for j in range(4) for v in (7, 7j)])

# what callers may pass where the plain kind is too general: (function, position) -> choices
def _perms(*ns):
    return [("permutation " + str(p), lambda nm, p=p: perm(p)) for n in ns for p in itertools.permutations(range(n))]


def _mats(f, what, *ns):
    return [(f"{what} {n}x{n}", lambda nm, n=n: f(nm, n)) for n in ns]


def _gen(*shapes):
    return [("x".join(map(str, s)) + " matrix" if len(s) == 2 else f"vector of {s[0]}", lambda nm, s=s: arr(nm, s)) for s in shapes]


_q, _e, _f, _t, _z = Fraction(1, 4), Fraction(3, 5), Fraction(4, 5), Fraction(1, 3), Fraction(1, 200)
DENSITY = _consts([[_h, 0], [0, _h]], [[_h, _h * -1j], [_h * 1j, _h]], [[_h, _h], [_h, _h]], [[_h, _q * 1j], [_q * 1j, _h]], [[_h, _q], [-_q, _h]], [[_h, _h], [0, _h]], [[_h, 0], [_q, _h]], [[_h, 0], [0, _q]], [[1, 0], [0, 1]],
                  [[Fraction(3, 2), 0], [0, -_h]], [[_h, 1], [1, _h]], [[_h, 1j], [-1j, _h]], [[_h + _q * 1j, 0], [0, _h - _q * 1j]], [[-1, 0], [0, 0]], [[1j, 0], [0, 1 - 1j]], [[2 * _t, 0, 0], [0, 2 * _t, 0], [0, 0, -_t]],
                  [[_t, 0, 0], [0, _t, 0], [0, 0, _t]], [[_t, _t, 0], [0, _t, 0], [0, 0, _t]], [1, 0], [0, 1j], [_e, _f], [_e * 1j, _f], [_e, -_f], [_h, _h], [_h, -_h], [_q, 3 * _q], [1, 1], [0, 0], [2, -1], [_h, 0], [2, 0], [_e, _f * -1j],
                  [_t, _t, _t], [_h, _h, -_h], [_h, _h, _h], [_h, _h, _h, _h], [_q, _q, _q, _q], [[_e], [_f * 1j]], [[1], [0]], [[_h], [_h]], [[_h], [0]], [[2], [-1]], [[_e, _f]], [[1, 0]], [[_h, _h]], [1], [[1]], [2], [[2]], [-1], [[-1]], [1j], [[_h, 0, 0], [0, _h, 0]],
                  [[_h, _z], [0, _h]], [[_h + _z, 0], [0, _h]], [[1 + _z, 0], [0, -_z]], [[_h + _z * 1j, 0], [0, _h - _z * 1j]], [_h + _z, _h], [1 + _z, 0], [1 + _z, -_z])

ANTI = _mats(lambda nm, n: signed(nm, n, -1), "antisymmetric", 2, 4, 3) + _mats(lambda nm, n: signed(nm, n, -1, "real"), "real antisymmetric", 2, 4)
SYMM = _mats(lambda nm, n: signed(nm, n, 1), "symmetric", 2, 3, 4) + _mats(lambda nm, n: signed(nm, n, 1, "real"), "real symmetric", 2)
HERM = _mats(hermitian, "Hermitian", 2, 4)
DENS = _mats(density, "density", 2, 4)
PROB = [(f"probability vector of {n}", lambda nm, n=n: probabilities(nm, n)) for n in (2, 4)]
PDF = [(f"nonnegative vector of {n}", lambda nm, n=n: arr(nm, (n,), "nonneg")) for n in (2, 4)]
KETS = _gen((2,), (4,))
UNITS = [(f"unit vector of {n}", lambda nm, n=n: unit(nm, n)) for n in (2, 4)]
REAL2 = [("real 2x2 matrix", lambda nm: arr(nm, (2, 2), "real"))]
INT2 = [("integer 2x2 matrix", lambda nm: arr(nm, (2, 2), "int"))]
CSTATE = _consts([[_h, 0], [0, _h]], [1, 0], [[_h + Fraction(1, 4000), 0], [0, _h - Fraction(1, 4000)]], [[_h, 0, 0, 0], [0, _h, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]], [[_e, 0], [0, 1 - _e]], [_e, _f * 1j], [_h, _h, _h, _h], [[_q, 0, 0, 0], [0, _q, 0, 0], [0, 0, _q, 0], [0, 0, 0, _q]], [[_e, _f * 1j]])
SCALED = _consts([[1000, Fraction(1, 20)], [Fraction(1, 20), -1000]], [[Fraction(1, 10 ** 6), 1], [1, 0]])
_s = Fraction(1, 32)
LARGE = _consts([8 * _s] + [3 * _s] * 4 + [_s] * 10 + [2 * _s], [2 * _s] * 16)
STATE = DENS[:1] + UNITS[:1] + PROB[:1] + DENS[1:] + UNITS[1:] + PROB[1:] + KETS[:1]

LONG = [("permutation " + str(p), lambda nm, p=p: perm(p)) for p in ((4, 3, 2, 1, 0), (4, 1, 2, 3, 0), (1, 2, 3, 4, 5, 6, 0), (6, 1, 2, 3, 4, 5, 0), (8, 1, 2, 3, 4, 5, 6, 7, 0), tuple(range(9)) + (10, 9), (1, 0) + tuple(range(2, 12)), (11, 5, 8, 2, 10, 0, 7, 3, 9, 1, 6, 4), tuple(range(1, 17)) + (0,), tuple(range(16, -1, -1)))]
SPECIAL = {("sgn", 0): _perms(2, 3) + LONG + _perms(4), ("permutation_to_matrix", 0): _perms(2, 3) + _consts(*[list(v) for n in (1, 2, 3) for v in itertools.product(range(-n, n + 1), repeat=n) if len(set(v)) < n or min(v) < 0 or max(v) >= n]),
           ("pf", 0): ANTI, ("hf", 0): SYMM, ("dt", 0): _gen((2, 2), (3, 3)), ("pt", 0): _gen((2, 2), (3, 3)), ("dt_eigen", 0): SYMM,
           ("correlation_matrix", 0): HERM, ("compute_cov_matrix", 0): HERM, ("compute_2corr_matrix", 0): HERM,
           ("is_matchgate", 0): _gen((4, 4)) + GATES, ("is_symp", 0): SYMPS, ("check_canonical_form", 0): CANON, ("rotate_operators", 0): _gen((2, 2), (3, 3), (4, 4)) + _consts([[100000, 1], [1, 3]], [[Fraction(1, 10 ** 5), 1], [1, 0]]),
           ("partial_trace_diagblocksum", 0): _gen((2, 2), (4, 4), (6, 6)), ("partial_trace_blockTr", 0): _gen((2, 2), (4, 4), (6, 6)),
           ("partial_trace_over_1", 0): _gen((2, 2), (4, 4), (6, 6)), ("partial_trace_over_2", 0): _gen((2, 2), (4, 4), (6, 6)),
           ("kron_plus", 0): _gen((2, 2), (1, 1)) + REAL2 + INT2 + _gen((2, 3), (3, 3)), ("kron_plus", 1): _gen((2, 2)) + REAL2 + INT2 + _gen((3, 3), (1, 1), (1, 3)),
           ("eigh_sp", 0): _blocks(hblock, "Hamiltonian"), ("eigv_sp", 0): _blocks(vblock, "V-matrix"),
           ("eigm_sp", 0): _blocks(gblock, "Majorana coefficients"), ("eigm_sp_can", 0): _blocks(gblock, "Majorana coefficients"),
           ("get_orthogonal_vectors", 0): _gen((2,), (3,))}
for _n in ("stabilizer_distribution", "SRE", "cov_distribution", "FAF"):
    SPECIAL[_n, 0] = DENS[:1] + CSTATE[-1:] + UNITS + KETS[:1] + CSTATE[:-1]
for _n in ("renyi_entropy", "linear_entropy"):
    SPECIAL[_n, 0] = STATE + _consts([1], [1, 0], [_q, _h, 0, _q], [[1]])
SPECIAL["analyze_pdf", 0] = _consts([[1 - Fraction(5, 10 ** 7), 0], [0, Fraction(5, 10 ** 7)]], [_t, 2 * _t], [[_t, 0], [0, 2 * _t]]) + STATE + _consts([1, 0])
SPECIAL["analyze_pdf", 1] = [("'x'", lambda n: t.string("x")), ("''", lambda n: t.string(""))]
PAIRED = set()
for _n in ("total_variation_distance", "relative_entropy", "bhattacharyya_coeff", "jensen_shannon_divergence", "trace_distance"):
    SPECIAL[_n, 0] = SPECIAL[_n, 1] = STATE + LARGE
    PAIRED.add(_n)


class Inst:
    def __init__(self, label, syms, req=None):
        self.label, self.syms, self.req = label, syms, req or {}


def hidden(spec):
    return [sym(f"{spec.name}.{h}", "int") for h in ("m", "k")]


def choices(spec, i, a, x):
    nm = spec.name + "." + str(i)
    if x is NONE:
        return [("None", lambda n: NONE)]
    sp = SPECIAL.get((spec.name, i)) or graphs.SPECIAL.get((spec.name, i))
    if spec.reject and a.kind in ("any",) and not a.classes:
        if spec.name.startswith("cast_to"):
            return HERM[:1] + UNITS[:1] + [("(i, 0)", lambda n: A((2,), [num(0, 1), ZERO], "complex")), ("vector of 2", lambda n: arr(n, (2,))), ("2x2 matrix", lambda n: arr(n, (2, 2))), ("column of 2", lambda n: arr(n, (2, 1))),
                    ("nonnegative vector", lambda n: arr(n, (2,), "nonneg")), ("1x3 row", lambda n: arr(n, (1, 3))), ("2x3 matrix", lambda n: arr(n, (2, 3))),
                    ("3-d array", lambda n: arr(n, (2, 2, 2))), ("nonnegative vector of 3", lambda n: arr(n, (3,), "nonneg"))] + DENSITY
        out = [(str(k), lambda n, k=k: num(k)) for k in (1, 0, -1, 2, 3)]
        from .compare import class_sym
        for c in ("str", "float", "int64", "float64", "list"):
            out.append((c, lambda n, c=c: class_sym(x, c)))
        out.append(("vector", lambda n: arr(n, (2,))))
        return out
    if sp is not None:
        return sp
    if x in t.CLS:
        c = x.args[0].split("!")[1]
        if spec.name == "build_unitary_path" and c in ("vector", "column"):
            ks = [k if c == "vector" else [[z] for z in k] for k in ([_e, _f * 1j], [_f * 1j, _e], [1, 0], [1, 1j], [0, 2])]
            return _gen((2,), (3,)) + _consts(*ks) if c == "vector" else _gen((2, 1), (3, 1)) + _consts(*ks)
        if c == "vector":
            return _gen((2,), (3,))
        if c == "column":
            return _gen((2, 1), (3, 1))
        if c in ("ndarray", "matrix"):
            real = x.args[0].endswith("!real")
            return [("vector of 2", lambda n: arr(n, (2,), "real" if real else "scalar")), ("2x2 array", lambda n: arr(n, (2, 2), "real" if real else "scalar"))]
        if c in ("list", "tuple"):
            return [(k + c + " of 2", lambda n, kd=kd: L(c, [scal(n + "<0>", kd), scal(n + "<1>", kd)])) for k, kd in (("", "scalar"), ("real ", "real"))]
        return [(c, lambda n: x)]
    k = a.kind
    if k == "int" and a.size:
        return [(str(v), lambda n, v=v: num(v)) for v in ((1, 2, 3) if spec.name == "build_op" else (2, 1, 3, 4, 5, 6, 7))]
    if k == "int":
        return [("symbolic", lambda n: x)] + [(str(v), lambda n, v=v: num(v)) for v in (0, 1, 2)]
    if k == "bool":
        return [("False", lambda n: FALSE), ("True", lambda n: TRUE)]
    if k == "real":
        return [("symbolic", lambda n: x)] + [(str(v), lambda n, v=v: num(v)) for v in ((2, 1, 3) if spec.name == "FAF" else (2, 1, 0))] + \
            ([("inf", lambda n: mk("app", "inf", (), ()))] if spec.name == "renyi_entropy" else [])
    if k == "scalar":
        return [("symbolic", lambda n: x)]
    if k == "mat":
        if x in t.DIMS:
            return [("matrix", None), ("real matrix", "real")] + (SCALED if spec.name == "build_op" else [])
        return _gen((2, 2)) + REAL2 + _gen((3, 3), (4, 4)) if a.square else _gen((2, 2)) + REAL2 + _gen((2, 3), (3, 2))
    if k == "vec":
        return _gen((2,), (3,)) + [("real vector of 2", lambda n: arr(n, (2,), "real"))]
    if k == "list:mat":
        return [("operators", None), ("real operators", "real")] if x in t.LENS else [(f"{q} operators", lambda n, q=q: L("list", [arr(f"{n}<{j}>", (2, 2)) for j in range(q)])) for q in (2, 3, 4)] + \
            [("2 real operators", lambda n: L("list", [arr(f"{n}<{j}>", (2, 2), "real") for j in range(2)]))]
    if k == "any":
        return KETS[:1] + _gen((2, 2)) + PDF[:1]
    return [("symbolic", lambda n: x)]


def _orient(n, signs, free, sym_=()):
    """orientation in progress: signs of the upper entries row by row, unassigned pairs, pairs whose lower entry repeats the upper one"""
    m = [[0] * n for _ in range(n)]
    it = iter(signs)
    for i in range(n):
        for j in range(i + 1, n):
            s = 1 if next(it) == "+" else -1
            m[i][j], m[j][i] = (99j, 99j) if (i, j) in free else (s, s if (i, j) in sym_ else -s)
    return m


def _face(vs):
    return L("list", [L("tuple", [num(a), num(b)]) for a, b in zip(vs, vs[1:] + vs[:1])])


ORIENT = _consts(*[_orient(4, s, f, y) for f in (((0, 2),), ((0, 1),), ((1, 2), (0, 3))) for s, y in (("++++++", ()), ("+-++-+", ()), ("-+--++", ((1, 2), (0, 1))), ("-----+", ((0, 1), (2, 3), (0, 3))))])
WALKS = ([0, 1, 2], [0, 2, 1], [2, 0, 3], [1, 2, 3], [0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 2, 3], [2, 3, 1], [0, 1, 0, 2, 3], [3, 0, 1, 0, 2])
SPECIAL["complete_face", 0] = ORIENT
SPECIAL["complete_face", 1] = [("face " + str(w), lambda n, w=w: _face(w)) for w in WALKS]


def consistent(spec, vs):
    """contracts between arguments"""
    if spec.name == "complete_face":
        m = vs[0].shape[0]
        es = [sorted(as_int(z) for z in e.xs) for e in vs[1].xs]
        return sum(vs[0].d[a * m + b].args[1] != 0 for a, b in es) == 1
    if spec.name in ("compute_cov_matrix", "compute_2corr_matrix") and isinstance(vs[0], A) and isinstance(vs[1], T):
        return vs[0].shape[0] == 2 ** as_int(vs[1])
    if spec.name in PAIRED:
        return vs[0].shape == vs[1].shape
    if spec.name.startswith("partial_trace"):
        return vs[0].shape[0] % as_int(vs[1]) == 0
    return True


def int_consts(x):
    """integers that occur in a term"""
    out, seen, todo = set(), set(), [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "lt" and y.args[0].op == "poly":
            out.update(abs(int(c[0])) + 1 for m, c in y.args[0].args if not m and Fraction(c[0]).denominator == 1)
        if y.op == "num":
            cs = [y.args]
        elif y.op == "poly":
            cs = [c for m, c in y.args]
        else:
            cs = []
        for c in cs:
            for q in c:
                if Fraction(q).denominator == 1:
                    out.add(abs(int(q)))
        todo += t.children(y)
    return out


def sized(spec, i, a, x, s):
    """options for an argument of a size not among the usual ones"""
    if a.kind == "int" and a.size:
        return [(str(s), lambda nm: num(s))]
    out = []
    for l, b in choices(spec, i, a, x):
        d = b.__defaults__ if b is not None else None
        if not d or len(d) != 1:
            continue
        if isinstance(d[0], int) and not isinstance(d[0], bool):
            q = s
        elif isinstance(d[0], tuple) and d[0] and all(isinstance(z, int) for z in d[0]) and "permutation" not in l:
            q = tuple(s if z == max(d[0]) else z for z in d[0])
        else:
            continue
        h = (b.__code__, type(d[0]), l.rstrip("0123456789x ") if isinstance(d[0], int) else tuple(z == max(d[0]) for z in d[0]), tuple(str(z.cell_contents) for z in b.__closure__ or ()))
        if all(h != z[2] for z in out):
            out.append((f"{l.rstrip(chr(32) + "0123456789x").removesuffix(" of")} of size {s}", lambda nm, b=b, q=q: b(nm, q), h))
    return [z[:2] for z in out]


def large_instances(spec, args, consts):
    """argument vectors of the sizes singled out by the program"""
    sizes = []
    for c in sorted(consts)[:6]:
        for s in (c, c + 1, c - 1, c // 2 + 1, c // 2, c.bit_length() - 1, c.bit_length()):
            if s > 2 and s not in sizes:
                sizes.append(s)
    out = []
    for s in sizes[:14]:
        cs = []
        for i, (a, x) in enumerate(zip(spec.args, args)):
            c = [z for q in dict.fromkeys((s, 2 ** s, 2 * s)) if q <= 80 for z in sized(spec, i, a, x, q)]
            o = choices(spec, i, a, x)
            cs.append(c + [z for z in o[:4] if not (z[1] is not None and a.kind == "int" and a.size)])
        out += instances(spec, args, 6, cs, (1200, 1200))
    return out


def instances(spec, args, limit=200, cs=None, cells=(600, 100)):
    """argument vectors with known shapes and symbolic entries"""
    cs = cs or [choices(spec, i, a, x) for i, (a, x) in enumerate(zip(spec.args, args))]
    hs = hidden(spec)
    mentioned = set()
    for x in args:
        for d in (t.DIMS.get(x) or ()):
            mentioned |= set(t.syms_of(d))
        if x in t.LENS:
            mentioned |= set(t.syms_of(t.LENS[x]))
    hs = [h for h in hs if h in mentioned]
    ranges = [range(len(c)) for c in cs] + [range(2) for _ in hs]
    out = []
    for ix in sorted(itertools.product(*ranges), key=lambda q: (sum(q), q)):
        syms, lab = {}, []
        for h, k in zip(hs, ix[len(cs):]):
            syms[h] = num(k + 1)
        ok = True
        for rnd in range(2):
            for i, (a, x) in enumerate(zip(spec.args, args)):
                l, b = cs[i][ix[i]]
                kind = "real" if b == "real" else "scalar"
                b = None if b == "real" else b
                if b is not None and rnd == 0:
                    v = b(f"a{i}")
                    if x is not NONE:
                        syms[x] = v
                elif b is None and rnd == 1:
                    try:
                        E = Ev(syms)
                        if x in t.LENS:
                            q = S.to_int(E.ev(t.LENS[x]))
                            sh = tuple(S.to_int(E.ev(d)) for d in t.ELEM_DIMS[x])
                            if q * S.prod(sh) > cells[0]:
                                ok = False
                                break
                            syms[x] = L("list", [arr(f"a{i}<{j}>", sh, kind) for j in range(q)])
                        else:
                            sh = tuple(S.to_int(E.ev(d)) for d in t.DIMS[x])
                            if S.prod(sh) > cells[1]:
                                ok = False
                                break
                            syms[x] = arr(f"a{i}", sh, kind)
                    except Unsup:
                        ok = False
        for x in args:
            if ok and x in t.DIMS and isinstance(syms.get(x), A):
                try:
                    E = Ev(syms)
                    ok = tuple(S.to_int(E.ev(d)) for d in t.DIMS[x]) == syms[x].shape
                except Unsup:
                    pass
        if any(isinstance(v, A) and S.prod(v.shape) > cells[1] for v in syms.values()):
            continue
        if not ok or not consistent(spec, [syms.get(x) for x in args]):
            continue
        for i in range(len(args)):
            lab.append(cs[i][ix[i]][0])
        out.append(Inst(", ".join(lab), syms))
        if len(out) >= limit:
            break
    return out


# ------------------------------------------------------------------ models of the conversions (modular mode)
def model_pdf(E, vs, kw):
    v = vs[0]
    try:
        v = S.as_array(v)
    except Unsup:
        return None
    if not isinstance(v, A):
        return None
    n = v.shape[0]
    if v.nd == 1 and all(x.op == "num" and not x.args[1] and x.args[0] >= 0 for x in v.d) and sum(x.args[0] for x in v.d) == 1:
        return v                                    # already a distribution
    tag = S.key(v).dig
    tag = tag.hex()[:10] if isinstance(tag, bytes) else str(tag)[:10]
    if v.nd == 1 and distribution_already(v.d):
        return v
    return A((n,), Family(f"pdf{n}x{tag}", E.subst).d)


def model_dm(E, vs, kw):
    try:
        v = S.as_array(vs[0])
    except Unsup:
        return None
    if not isinstance(v, A):
        return None
    n = v.shape[0]
    if v.nd == 2 and v.shape == (n, n) and all(x.op == "num" for x in v.d) and sum(v.d[i * n + i].args[0] for i in range(n)) == 1 and \
            all(x is ZERO or i // n == i % n and not x.args[1] and x.args[0] >= 0 for i, x in enumerate(v.d)):
        return v                                    # already a (diagonal) density matrix
    tag = S.key(v).dig
    tag = tag.hex()[:10] if isinstance(tag, bytes) else str(tag)[:10]
    if v.nd == 2 and v.shape == (n, n) and density_already(v):
        return v
    f = Family(f"dm{n}x{tag}", E.subst)
    d = [f.d[i] if i == j else f.off[i, j] if i < j else t.conj(f.off[j, i]) for i in range(n) for j in range(n)]
    return A((n, n), d, "complex")


def model_points(xs, k=6):
    """points of the modelled objects the entries are made of, or nothing"""
    ss = set()
    for x in xs:
        ss |= set(t.syms_of(x))
    if not ss or not all(FAMILY.match(b.args[0]) for b in ss):
        return
    fams = families([b.args[0] for b in ss], {})
    rnd = random.Random(99)
    for _ in range(k * 4):
        p = Point(rnd)
        if all(f.valid(p) for f in fams):
            yield p


def distribution_already(xs):
    """a combination of distributions that is one: the sum is one, no entry is negative"""
    if S.sumt(xs) is not ONE:
        return False
    try:
        ps = [[complex(p.val(x)) for x in xs] for p in model_points(xs)]
    except (Bad, ArithmeticError, ValueError, TypeError, IndexError):
        return False
    return len(ps) >= 6 and all(abs(z.imag) < 1e-12 and z.real > -1e-12 for v in ps for z in v)


def density_already(v):
    n = v.shape[0]
    if S.sumt([v.d[i * n + i] for i in range(n)]) is not ONE or any(v.d[i * n + j] is not t.conj(v.d[j * n + i]) for i in range(n) for j in range(i + 1)):
        return False
    try:
        ps = [[[complex(p.val(x)) for x in v.d[i * n:i * n + n]] for i in range(n)] for p in model_points(v.d)]
        return len(ps) >= 6 and all(x > -1e-9 for m in ps for x in N.eigvalsh(m))
    except (Bad, N.NoConv, ArithmeticError, ValueError, TypeError, IndexError):
        return False


def model_eigh(E, vs, kw):
    """some symplectic unitary U and U^dagger H U"""
    h = vs[0]
    if not isinstance(h, A) or h.nd != 2 or h.shape[0] != h.shape[1] or h.shape[0] % 2 or kw:
        return None
    u = E.entries(mk("app", "symplectic", (S.key(h),), ()), h.shape)
    return L("list", [S.dot2(S.dot2(S.map1(t.conj, S.transpose(u)), h), u), u])


def model_orth(E, vs, kw):
    """the normalised vector and one that completes it to a unitary matrix (two dimensions)"""
    v = vs[0]
    if not isinstance(v, A) or S.prod(v.shape) != 2 or kw or v.nd == 2 and v.shape[1] != 1 or not all(x.op == "num" for x in v.d):
        return None
    k = sum(c * c for x in v.d for c in x.args)
    if not k:
        return None
    if k == 1:
        a, b = v.d
    else:
        n = t.power(num(k), num(-_h))
        a, b = (t.mul(x, n) for x in v.d)
    return A((2, 2), [a, t.neg(t.conj(b)), b, t.conj(a)], "complex")


MODELS = {"ff.get_orthogonal_vectors": model_orth, "ff.eigh_sp": model_eigh, "ff.cast_to_pdf": model_pdf, "ff.cast_to_density_matrix": model_dm}


# ------------------------------------------------------------------ points
class Bad(Exception):
    pass


MODEL_SYM = re.compile(r"(pdf|dm)(\d+)x")
FREE = ("isinst", "isnone", "exists", "opaque")


class Point:
    """random values for the free entries; uninterpreted applications get values that depend only on their operands' values"""

    def __init__(self, rnd, hints={}):
        self.hints = hints
        self.rnd = rnd
        self.vals = {}
        self.memo = {}
        self.scale = rnd.choice((0.3, 1.0, 1.0, 3.0))
        self.salt = rnd.random()
        self.off = rnd.choice((0.2, 0.2, 1.0))

    def base(self, x):
        v = self.vals.get(x)
        if v is None:
            r = self.rnd
            name, kind = x.args[0], x.args[1]
            h = self.hints.get(x)
            if h and r.random() < 0.8:
                v = r.choice(h)
                w = r.choice((-1, 1))
                v = int(v // 1) + r.choice((0, 1, 2)) * w if kind == "int" else v + w * r.expovariate(1) * (abs(v) * 0.3 + 0.05)
                if name.endswith("!nonneg"):
                    v = abs(v)
                m = MODEL_SYM.match(name)
                if m and not 0 < v < 1 / int(m.group(2)):
                    v = r.uniform(0.2, 0.95) / int(m.group(2))
            elif name.endswith("!nonneg"):
                v = abs(r.gauss(0, 1)) * self.scale
                m = MODEL_SYM.match(name)
                if m:
                    v = r.uniform(0.2, 0.95) / int(m.group(2))
            elif kind == "int":
                v = r.choice((0, 1, 2, 3, -1, 5)) if x.args[0] not in t.SIZE_SYMS else r.choice((1, 2, 3))
            elif kind == "bool":
                v = r.choice((True, False))
            elif t.is_real(x):
                v = r.gauss(0, 1) * self.scale
            else:
                v = complex(r.gauss(0, 1), r.gauss(0, 1)) * self.scale * (self.off if name.endswith("!off") else 1)
                if MODEL_SYM.match(name):
                    v = complex(r.uniform(-1, 1), r.uniform(-1, 1)) * 0.012
            self.vals[x] = v
        return v

    def val(self, x):
        v = self.memo.get(x)
        if v is None:
            v = self.memo[x] = self.val1(x)
        return v

    def hashed(self, name, vs, x):
        def q(v):
            if isinstance(v, bool):
                return v
            v = complex(v)
            return (float(f"{v.real:.5g}") + 0.0, float(f"{v.imag:.5g}") + 0.0) if abs(v) > 1e-7 else (0.0, 0.0)
        r = random.Random(repr((name, [q(v) if isinstance(v, (int, float, complex, bool)) else v for v in vs], self.salt)))
        a = r.gauss(0, 1)
        if t.is_nonneg(x):
            return abs(a)
        if t.is_int(x):
            return r.choice((0, 1, 2, 3))
        if t.is_real(x):
            return a
        return complex(a, r.gauss(0, 1))

    def val1(self, x):
        op = x.op
        if op == "num":
            return complex(float(x.args[0]), float(x.args[1])) if x.args[1] else float(x.args[0])
        if op == "sym":
            return self.base(x)
        if op == "poly":
            s = 0.0
            for m, c in x.args:
                y = complex(float(c[0]), float(c[1])) if c[1] else float(c[0])
                for a, e in m:
                    b = self.val(a)
                    q = self.val(e) if isinstance(e, T) else (int(e) if e.denominator == 1 else float(e))
                    y = y * power(b, q)
                s = s + y
            return s
        if op == "group":
            return self.val(x.args[0])
        if op == "conj":
            v = self.val(x.args[0])
            return v.conjugate() if isinstance(v, complex) else v
        if op == "fn":
            return self.fn(x.args[0], self.val(x.args[1]), x)
        if op in ("true", "false"):
            return op == "true"
        if op in ("lt", "eq0", "allclose", "truthy"):
            return self.truth(x)
        if op == "gamma":
            return self.val(x.args[1] if self.truth(x.args[0]) else x.args[2])
        if op == "app":
            n = x.args[0]
            if known_scalar(x):
                a = plain(x.args[1][0])
                c = a.args[0][1]
                es = [self.val(e) for e in a.args[1]]
                m = [es[i * c:(i + 1) * c] for i in range(a.args[0][0])]
                if n == "det":
                    return N.det(m)
                o = x.args[1][1]
                if o.op == "str" and o.args[0] == "nuc":
                    return sum(N.svdvals(m))
                if o.op == "str" and o.args[0] == "fro":
                    return math.sqrt(sum(abs(e) ** 2 for e in es))
                if as_int(o) == 2:
                    return N.svdvals(m)[0]
                if as_int(o) == 1:
                    return max(sum(abs(r[j]) for r in m) for j in range(c))
            vs = [self.operand(y) for y in x.args[1]]
            if not x.args[2]:
                r = interp(n, vs)
                if r is not None:
                    return r
            return self.hashed(n, vs + [(k, self.operand(v)) for k, v in x.args[2]], x)
        if op == "index":
            b = x.args[0]
            if b.op == "draw":
                v = self.drawn(b, x.args[1])
                if v is not None:
                    return v
            if known_matrix(b):
                m = self.matrix(b)
                try:
                    for i in x.args[1]:
                        m = m[as_int(i)]
                except (IndexError, TypeError):
                    raise Bad("index")
                if not isinstance(m, list):
                    return m
            return self.hashed("index", [self.opkey(b)] + [self.operand(i) for i in x.args[1]], x)
        if op == "draw":
            v = self.drawn(x, ())
            if v is not None:
                return v
            return self.hashed("draw", [x.args[0]] + [self.operand(a) if isinstance(a, T) else a for a in x.args[1]] + [repr(x.args[2])], x)
        raise Bad(op)

    def matrix(self, b):
        m = self.memo.get(b)
        if m is None:
            a = b.args[1][0]
            if a.op == "zeros":
                self.memo[b] = m = [0.0] * as_int(a.args[0][0])
                return m
            a = plain(a)
            vs = [self.val(e) for e in a.args[1]]
            if any(abs(v) > 1e8 for v in vs):
                raise Bad("range")
            if b.args[0] in ("sort", "argsort"):
                if any(isinstance(v, complex) and abs(v.imag) > 1e-9 * (1 + abs(v)) for v in vs):
                    raise Bad("complex order")
                vs = [complex(v).real for v in vs]
                self.memo[b] = m = sorted(vs) if b.args[0] == "sort" else [float(i) for i in sorted(range(len(vs)), key=lambda i: vs[i])]
                return m
            r, c = a.args[0]
            m = [vs[i * c:(i + 1) * c] for i in range(r)]
            try:
                m = (N.MAT.get(b.args[0]) or N.VEC[b.args[0]])(m)
            except (N.NoConv, ZeroDivisionError, OverflowError, ValueError):
                raise Bad(b.args[0])
            self.memo[b] = m
        return m

    def drawn(self, b, ix):
        """an entry of a random object, from its distribution"""
        name, a = b.args[0], b.args[1]
        ix = [as_int(i) for i in ix]
        try:
            ps = [y.dig if not isinstance(y, T) or y.op in ("none", "true", "false") else complex(self.val(y)).real for y in a]
        except Bad:
            ps = None
        if name == "dirichlet" or ps is None:
            ps = [self.operand(y) if isinstance(y, T) else y for y in a]
        if None in ix:
            return None
        k = repr((name, ps, self.salt))
        if name in ("randint", "uniform", "uniform01", "exponential"):
            r = random.Random(k + repr(ix))
            if name == "randint":
                if not isinstance(ps[0], float) or not isinstance(ps[1], float) or ps[1] <= ps[0]:
                    raise Bad("randint")
                return float(r.randrange(int(ps[0]), int(ps[1])))
            if name == "exponential":
                return r.expovariate(1) * (ps[0] if isinstance(ps[0], float) else 1) * r.choice((1, 1, 1, 8))     # any positive number can be drawn
            if name == "uniform":
                return ps[0] + (ps[1] - ps[0]) * r.random() if all(isinstance(p, float) for p in ps[:2]) else None
            return r.random()
        m = self.memo.get(b)
        if m is None:
            r = random.Random(k)
            if name == "choice":
                n = as_int(a[0])
                if n is None or a[2] is not NONE or len(a) > 5:
                    return None
                q = as_int(a[3]) if len(a) == 5 else 1
                if a[1] is FALSE:
                    if q > n:
                        raise Bad("choice")
                    m = r.sample(range(n), q)
                else:
                    m = [r.randrange(n) for _ in range(q)]
                m = [float(v) for v in m]
            elif name == "dirichlet" and len(ix) == 1 and a[0].op in ("ones", "arr"):
                n = as_int(a[0].args[0][0]) if a[0].op == "ones" else a[0].args[0][0]
                m = [r.expovariate(1) + 1e-3 for _ in range(n)]
                m = [v / sum(m) for v in m]
            elif name in ("unitary_group", "special_ortho_group", "ortho_group") and as_int(a[0]):
                m = N.orthonormal(r, as_int(a[0]), name == "unitary_group")
                if name == "special_ortho_group" and complex(N.det(m)).real < 0:
                    m[0] = [-v for v in m[0]]
            else:
                return None
            self.memo[b] = m
        try:
            for i in ix:
                m = m[i]
        except (IndexError, TypeError):
            raise Bad("index")
        return m if not isinstance(m, list) else m[0] if name == "choice" and not ix else None

    def opkey(self, b):
        if b.op == "app":
            return ("app", b.args[0], [self.operand(y) for y in b.args[1]], [(k, self.operand(v)) for k, v in b.args[2]])
        if b.op == "draw":
            return ("draw", b.args[0], [self.operand(a) if isinstance(a, T) else a for a in b.args[1]], repr(b.args[2]))
        return b.dig

    def operand(self, y):
        if y.op == "arr":
            return ("arr", y.args[0], tuple(rnd5(self.val(e)) for e in y.args[1]))
        if y.op in ("str", "none", "pytype", "pyfn", "ellipsis", "newaxis"):
            return y.dig
        if y.op == "tuple":
            return tuple(self.operand(z) for z in y.args)
        if y.op == "list":
            return tuple(self.operand(z.args[0]) if z.op == "item" else z.dig for z in y.args[0])
        if y.op in ("index", "sym") and not numeric(y):
            return y.dig
        try:
            return rnd5(self.val(y))
        except Bad:
            return y.dig

    def fn(self, n, v, x):
        if n == "abs":
            return abs(v)
        if n == "abs2":
            return abs(v) ** 2
        if n == "re":
            return v.real
        if n == "im":
            return v.imag if isinstance(v, complex) else 0.0
        if n == "exp":
            z = cmath.exp(v)
            return z if isinstance(v, complex) else z.real
        if n == "log":
            if v == 0:
                raise Bad("log 0")
            return math.log(v) if not isinstance(v, complex) and v > 0 else cmath.log(v)
        if n in ("sin", "cos"):
            z = getattr(cmath, n)(v)
            return z if isinstance(v, complex) else z.real
        if n in ("floor", "ceil", "round") and not isinstance(v, complex):
            return float({"floor": math.floor, "ceil": math.ceil, "round": round}[n](v))
        if n == "sign" and not isinstance(v, complex):
            return float((v > 0) - (v < 0))
        if n == "angle":
            return cmath.phase(v)
        return self.hashed("fn " + n, [v], x)

    def truth(self, c):
        """value of a literal's atom, None when too close to call"""
        if c in (TRUE, FALSE):
            return c is TRUE
        if c.op == "eq0":
            v = self.val(c.args[0])
            if abs(v) < 1e-9:
                return True
            if abs(v) < 1e-4:
                raise Bad("near")
            return False
        if c.op == "lt":
            v = self.val(c.args[0])
            if isinstance(v, complex):
                if abs(v.imag) > 1e-9 * (1 + abs(v)):
                    raise Bad("complex order")
                v = v.real
            if abs(v) < 1e-9:
                return False
            if abs(v) < 1e-4:
                raise Bad("near")
            return v > 0
        if c.op == "allclose":
            vs = [abs(self.val(e)) for e in c.args[0].args[1]] if c.args[0].op == "arr" else [abs(self.val(c.args[0]))]
            m = max(vs)
            if m < 1e-9:
                return True
            if m < 1e-2:
                raise Bad("near")
            return False
        if c.op == "truthy":
            return self.val(c.args[0]) != 0
        v = self.val(c)
        return bool(v)


def rnd5(v):
    if isinstance(v, bool):
        return v
    v = complex(v)
    if abs(v) > 1e15 or v != v:
        raise Bad("range")
    return (round(v.real, 7) + 0.0, round(v.imag, 7) + 0.0)


def numeric(y):
    return y.op != "sym" or y.args[1] in ("int", "real", "scalar", "bool", "seed") or y.args[0].endswith("!real")


def power(b, q):
    try:
        if isinstance(q, int):
            return b ** q
        if isinstance(q, complex) and q.imag == 0:
            q = q.real
        if not isinstance(b, complex) and not isinstance(q, complex) and b >= 0:
            if b == 0 and q < 0:
                raise Bad("division")
            return b ** q
        if not isinstance(b, complex) and float(q).is_integer():
            return b ** int(q)
        return complex(b) ** q
    except (ZeroDivisionError, OverflowError, ValueError):
        raise Bad("power")


def raw(v):
    if isinstance(v, tuple) and len(v) == 2 and all(isinstance(z, float) for z in v):
        return v[0] if v[1] == 0 else complex(*v)
    return None


def interp(n, vs):
    """library functions with a known value on numbers"""
    ns = [raw(v) for v in vs]
    if any(v is None or isinstance(v, complex) for v in ns):
        return None
    if n in ("int", "cast_int") and len(ns) == 1:
        return float(math.trunc(ns[0]))
    if n in ("max", "maxall", "maximum"):
        return max(ns)
    if n in ("min", "minall", "minimum"):
        return min(ns)
    if n == "mod" and len(ns) == 2 and ns[1]:
        return ns[0] % ns[1]
    if n == "floordiv" and len(ns) == 2 and ns[1]:
        return float(ns[0] // ns[1])
    if n == "roundn" and len(ns) == 2:
        return round(ns[0], int(ns[1]))
    if n in ("log2", "log10") and len(ns) == 1 and ns[0] > 0:
        return getattr(math, n)(ns[0])
    if n == "pow" and len(ns) == 2:
        return power(ns[0], ns[1])
    if n == "inf":
        raise Bad("inf")
    if n == "pi":
        return math.pi
    return None


KNOWN_APPS = {"int", "cast_int", "max", "maxall", "maximum", "min", "minall", "minimum", "mod", "floordiv", "roundn", "log2", "log10", "pow", "inf", "pi"}


PLAIN = {}


def plain(y):
    """explicit array a term stands for: an array or a linear combination of arrays"""
    if y.op == "arr":
        return y
    if y.op != "poly":
        return None
    if y in PLAIN:
        return PLAIN[y]
    r = None
    out, shape = None, None
    for m, c in y.args:
        arrs = [a for a, e in m if a.op == "arr"]
        if len(arrs) != 1 or any(e != 1 for a, e in m if a.op == "arr") or any(t.rank(a) != 0 for a, e in m if a.op != "arr"):
            break
        k = t.from_monos({tuple((a, e) for a, e in m if a.op != "arr"): c})
        if shape not in (None, arrs[0].args[0]):
            break
        shape = arrs[0].args[0]
        es = [t.mul(k, e) for e in arrs[0].args[1]]
        out = es if out is None else [t.add(u, v) for u, v in zip(out, es)]
    else:
        if out is not None:
            r = S.key(A(shape, out))
            if r.op != "arr":
                r = None
    PLAIN[y] = r
    return r


def known_matrix(b):
    if b.op == "app" and b.args[0] in ("sort", "argsort") and not b.args[2] and len(b.args[1]) == 1:
        y = plain(b.args[1][0])
        return y is not None and len(y.args[0]) == 1
    if b.op == "app" and b.args[0] in ("eigvals", "eigvalsh") and b.args[1][0].op == "zeros":
        return True
    if not (b.op == "app" and (b.args[0] in N.MAT or b.args[0] in N.VEC) and (not b.args[2] or b.args[0] in ("schur_T", "schur_Z")) and len(b.args[1]) == 1):
        return False
    y = plain(b.args[1][0])
    return y is not None and len(y.args[0]) == 2 and max(y.args[0]) <= 16


def known_scalar(x):
    """det and matrix norms of explicit matrices"""
    if not (x.op == "app" and x.args[0] in ("det", "norm") and not x.args[2] and x.args[1]):
        return False
    y = plain(x.args[1][0])
    return (y is not None and len(y.args[0]) == 2
            and (x.args[0] == "det" and len(x.args[1]) == 1 or x.args[0] == "norm" and len(x.args[1]) == 2))


def soft(x, acc, seen=None):
    """uninterpreted values inside a scalar"""
    seen = seen if seen is not None else set()
    if x in seen:
        return acc
    seen.add(x)
    if x.op == "index" and known_matrix(x.args[0]):
        a = plain(x.args[0].args[1][0])
        for y in a.args[1] if a is not None else ():
            soft(y, acc, seen)
        return acc
    if known_scalar(x):
        for y in plain(x.args[1][0]).args[1]:
            soft(y, acc, seen)
        return acc
    if x.op == "app" and x.args[0] not in KNOWN_APPS or x.op in ("index", "draw", "opaque"):
        acc.add(x)
        return acc
    if x.op == "fn" and x.args[0] not in ("abs", "abs2", "re", "im", "exp", "log", "sin", "cos", "floor", "ceil", "round", "sign", "angle"):
        acc.add(x)
    if x.op == "sym" and not numeric(x):
        acc.add(x)
    for y in t.children(x):
        soft(y, acc, seen)
    return acc


# ------------------------------------------------------------------ cases
def solve(c):
    """literal c (assumed true) -> list of (symbol, value), [] when it cannot be used"""
    if c.op == "eq0":
        return solve0(c.args[0])
    if c.op == "allclose" and c.args[0].op == "arr":
        for e in c.args[0].args[1]:
            r = solve0(e) or solve0(S.sc_re(e)) or solve0(S.sc_im(e))
            if r:
                return r
    if c.op == "lt":
        e = magnitude(c)
        return solve0(e) if e is not None else []
    return []


def magnitude(c):
    """literal |e| < eps with a small constant eps -> e"""
    eps, e = None, None
    for m, k in t.monos(c.args[0] if len(c.args) == 1 else t.sub(c.args[1], c.args[0])).items():
        if not m and eps is None:
            eps = k
        elif len(m) == 1 and e is None and k[1] == 0 and k[0] < 0:
            a, q = m[0]
            if a.op == "fn" and a.args[0] == "abs" and q == 1:
                e = a.args[1]
            elif a.op == "group" and q == Fraction(1, 2):
                ms = t.monos(a.args[0])
                if len(ms) == 1:
                    xs = [z for z, _ in next(iter(ms))]
                    e = next((z for z in xs if z.op == "sym"), None)
        else:
            return None
    if eps is None or eps[1] != 0 or not 0 < eps[0] < Fraction(1, 100000):
        return None
    return e


def solve0(p):
    md = t.monos(p)
    cands = []
    for m, k in md.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            b = a.args[0] if a.op == "conj" else a
            if b.op == "sym":
                cands.append((b, a, k))
    for b, a, k in sorted(cands, key=lambda z: z[0].dig):
        rest = t.sub(p, t.mul(num(*k), a))
        if b not in t.syms_of(rest):
            v = t.mul(t.neg(rest), t.power(num(*k), num(-1)))
            if a.op == "conj":
                v = t.conj(v)
            if t.is_real(b) and not t.is_real(v):
                continue
            if b.args[1] == "int" and not t.is_int(v):
                continue
            return [(b, v)]
        # k(a - conj a): real; k(a + conj a): imaginary
        o = t.conj(a)
        for sg in (-1, 1):
            # k(a -+ conj a) + other = 0 with other free of a: a = (real or imaginary part) - other/2k
            other = t.sub(rest, t.mul(t.mul(num(*k), num(sg)), o))
            if b in t.syms_of(other):
                continue
            h = t.mul(other, t.power(t.mul(num(*k), num(2)), num(-1)))
            if t.conj(h) is t.mul(num(sg), h):
                free = sym(b.args[0] + "r", "real") if sg < 0 else t.mul(num(0, 1), sym(b.args[0] + "i", "real"))
                return [(b, t.sub(free, h))]
    if len(md) > 12:
        return []
    for b in sorted(t.syms_of(p), key=lambda z: z.dig):                # b Q + R = 0
        if b.args[1] not in ("scalar", "real"):
            continue
        q, r = ZERO, ZERO
        for m, k in md.items():
            if (b, 1) in m or any(a is b and e == 1 for a, e in m):
                q = t.add(q, t._poly_raw({tuple(z for z in m if z[0] is not b): k}))
            else:
                r = t.add(r, t._poly_raw({m: k}))
        if q is ZERO or r is ZERO or b in t.syms_of(q) or b in t.syms_of(r):
            continue
        v = t.mul(t.neg(r), t.power(q, num(-1)))
        if t.is_real(b) and not t.is_real(v):
            continue
        return [(b, v)]
    return []


def sub_value(v, old, new):
    if isinstance(v, T):
        return t.subst_term(v, old, new)
    if isinstance(v, A):
        return A(v.shape, [t.subst_term(x, old, new) for x in v.d], v.dt)
    if isinstance(v, L):
        return L(v.kind, [sub_value(x, old, new) for x in v.xs])
    if isinstance(v, graphs.G):
        return graphs.G(v.nodes, [(a, b, w if w is None else t.subst_term(w, old, new)) for a, b, w in v.edges])
    return v


FAMILY = re.compile(r"((?:pdf|dm)(\d+)x[^\[]*)\[")


class Family:
    """the free entries of a modelled distribution or density matrix, after the equations solved so far"""

    def __init__(self, name, subst):
        m = FAMILY.match(name + "[")
        self.name, self.n, self.pdf = name, int(m.group(2)), name.startswith("pdf")
        n = self.n
        if self.pdf:
            self.d = [subst.get(x, x) for x in (sym(f"{name}[{i}]!nonneg", "real") for i in range(n - 1))]
            self.d.append(t.sub(ONE, S.sumt(self.d)))
        else:
            self.d = [subst.get(x, x) for x in (sym(f"{name}[{i},{i}]!nonneg", "real") for i in range(n - 1))]
            self.d.append(t.sub(ONE, S.sumt(self.d)))
            self.off = {(i, j): subst.get(x, x) for i in range(n) for j in range(i + 1, n) for x in (scal(f"{name}[{i},{j}]!off"),)}

    def forced(self):
        """entries that vanish because a diagonal entry of a positive matrix does"""
        if self.pdf:
            return []
        return [scal(f"{self.name}[{i},{j}]!off") for (i, j), x in self.off.items()
                if (self.d[i] is ZERO or self.d[j] is ZERO) and x.op == "sym" and x.args[0] == f"{self.name}[{i},{j}]!off"]

    def valid(self, p):
        try:
            d = [complex(p.val(x)) for x in self.d]
            if any(abs(x.imag) > 1e-9 or x.real < -1e-9 for x in d):
                return False
            if self.pdf:
                return True
            n = self.n
            m = [[0j] * n for _ in range(n)]
            for i in range(n):
                m[i][i] = d[i]
            for (i, j), x in self.off.items():
                m[i][j] = complex(p.val(x))
                m[j][i] = m[i][j].conjugate()
            return all(x > -1e-9 for x in N.eigvalsh(m))
        except (Bad, N.NoConv, ArithmeticError, ValueError, TypeError, IndexError):
            return False


def families(names, subst):
    return [Family(f, subst) for f in sorted({m.group(1) for m in (FAMILY.match(x) for x in names) if m})]


def drawn_as_model(p, nd):
    """the point lies in the range of every modelled distribution and density matrix"""
    return all(f.valid(p) for f in families([b.args[0] for b in list(p.vals) + list(nd.subst) if b.op == "sym"], nd.subst))


class Node:
    def __init__(self, syms, assume, n, subst=None):
        self.syms, self.assume, self.n = syms, assume, n
        self.subst = subst or {}        # entries of modelled objects that equations have fixed
        self.pts = []

    def take(self, atom, val):
        syms, assume, subst = self.syms, dict(self.assume), self.subst
        assume[atom] = val
        todo = solve(atom) if val else []
        for _ in range(16):
            if not todo:
                break
            (b, v), = todo
            m = FAMILY.match(b.args[0])
            if m:
                subst = dict({k: t.subst_term(x, b, v) for k, x in subst.items()})
                subst[b] = v
            elif subst and any(b in t.syms_of(x) for x in subst.values()):
                subst = {k: t.subst_term(x, b, v) for k, x in subst.items()}
            syms = {k: sub_value(x, b, v) for k, x in syms.items()}
            new = {}
            if b.args[0].endswith("!nonneg") and not t.is_nonneg(v):
                assume[t._lt0(t.neg(v))] = False
            for a, q in assume.items():
                a2 = t.subst_term(a, b, v)
                if a2.op == "allclose" or a2.op == "eq0" or a2.op == "lt":
                    a2 = renorm(a2)
                if a2 in (TRUE, FALSE):
                    if (a2 is TRUE) != q:
                        return None
                    continue
                if new.get(a2, q) != q:
                    return None
                new[a2] = q
            assume = new
            todo = [(x, ZERO) for f in families([k.args[0] for k in subst], subst) for x in f.forced()][:1] if subst else []
            for a, q in assume.items() if not todo else ():
                if q:
                    todo = solve(a)
                    if todo:
                        break
        return Node(syms, assume, self.n + 1, subst)


def renorm(a):
    E = Ev({})
    try:
        if a.op == "allclose":
            x = a.args[0]
            return E.close(A(x.args[0], x.args[1]) if x.op == "arr" else x, ())
        return E.eq00(a.args[0]) if a.op == "eq0" else E.lt0(a.args[0])
    except Unsup:
        return a


def differing(a, b, path="", ev=None):
    """[(path, x, y)] of scalar entries that differ; raises Unsup when the structures cannot be compared"""
    if isinstance(a, Fn) and isinstance(b, Fn):
        if ev is None:
            raise Unsup("functions")
        x = sym("arg!t", "real")
        return differing(ev[0].apply(a, [x]), ev[1].apply(b, [x]), path + "(t)", ev)
    if isinstance(a, Fn) or isinstance(b, Fn):
        raise Unsup("functions")
    if isinstance(a, L) and isinstance(b, L):
        if {a.kind, b.kind} == {"set"}:
            a, b = [L("list", sorted(v.xs, key=lambda z: S.key(z).dig)) for v in (a, b)]
        if len(a.xs) != len(b.xs):
            return [(path + ".length", num(len(a.xs)), num(len(b.xs)))]
        out = []
        for i, (x, y) in enumerate(zip(a.xs, b.xs)):
            out += differing(x, y, path + f"[{i}]", ev)
        return out
    if isinstance(a, L) and isinstance(b, A) or isinstance(a, A) and isinstance(b, L):
        return differing(S.as_array(a), S.as_array(b), path)
    if isinstance(a, A) and isinstance(b, A):
        if a.shape != b.shape:
            return [(path + ".shape", mk("str", str(a.shape)), mk("str", str(b.shape)))]
        return [(path + "[" + ",".join(map(str, ix)) + "]", x, y)
                for ix, x, y in zip(itertools.product(*[range(n) for n in a.shape]), a.d, b.d) if x is not y]
    if isinstance(a, T) and isinstance(b, T):
        return [] if a is b else [(path, a, b)]
    if not isinstance(a, (A, L, T)) or not isinstance(b, (A, L, T)):
        x, y = S.key(a), S.key(b)
        return [] if x is y else [(path, x, y)]
    # array against scalar
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (A, L)) and isinstance(y, T):
            if y.op in ("num", "none", "true", "false", "str") or t.is_bool(y):
                return [(path, mk("str", "an array"), y)] if x is a else [(path, y, mk("str", "an array"))]
            raise Unsup("array against unknown value")
    raise Unsup("structures")


def source(z):
    """entries of one random object are independent values"""
    while z.op == "index" and (z.args[0].op in ("index", "draw") or z.args[0].op == "app" and z.args[0].args[0].startswith("ff.random_")):
        z = z.args[0]
    return z


def flatten(vs):
    for v in vs:
        if isinstance(v, T):
            yield v
        elif isinstance(v, A):
            yield from flatten(v.d)
        elif isinstance(v, L):
            yield from flatten(v.xs)


def draws_in(xs):
    acc = set()
    for x in xs:
        for z in soft(x, set()) if isinstance(x, T) else ():
            if is_draw(z):
                acc.add(source(z))
    return acc


def is_draw(z):
    return z.op == "draw" or z.op == "index" and z.args[0].op == "draw"


TEXT = {"fstr", "strmod", "format", "str", "concat", "join", "strcat"}


def letters(parts):
    """letters of the literal pieces that no formatted real number contains (None: not a sequence of such pieces)"""
    out = []
    for u in parts:
        if isinstance(u, T) and u.op == "str":
            out += [c for c in u.args[0] if c.isalpha() and c not in "infaeEINFA"]
        elif not isinstance(u, T) or u.op == "num":
            continue
        elif not (u.op == "app" and u.args[0] == "format" and t.is_real(u.args[1][0])):
            return None
    return sorted(out)


def text_pairs(x, y):
    """differences of two formatted texts: True (different literals), pairs of numbers that are printed alike, or [] (cannot tell)"""
    if x.op != "app" or y.op != "app" or x.args[0] not in TEXT or y.args[0] != x.args[0]:
        return []
    from .compare import flat
    a, b = flat(x.args[1:]), flat(y.args[1:])
    if len(a) != len(b):
        return letters(a) != letters(b) if None not in (letters(a), letters(b)) else []
    out = []
    for u, v in zip(a, b):
        if u is v or u == v:
            continue
        if not isinstance(u, T) or not isinstance(v, T):
            return []
        if u.op == v.op == "str":
            return True
        if u.op == v.op == "app" and u.args[0] in TEXT:
            r = text_pairs(u, v)
            if not r or r is True:
                return r
            out += r
        elif soft(u, set()) == soft(v, set()) and u.op != "str" and v.op != "str":
            out.append((u, v))
        else:
            return []
    return out


def thresholds(assume):
    """constants against which a single real unknown is compared"""
    out = {}
    for a in assume:
        if a.op != "lt":
            continue
        md = t.monos(a.args[0])
        if len(md) != 2 or () not in md:
            continue
        (m, k), = [z for z in md.items() if z[0] != ()]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and t.is_real(m[0][0]) and not k[1] and not md[()][1]:
            v = float(-Fraction(md[()][0]) / Fraction(k[0]))
            if abs(v) > 1e-4:
                out.setdefault(m[0][0], []).append(v)
    return out


def holds(p, a, q):
    try:
        if a.op in ("lt", "eq0", "allclose") or a.op == "truthy" and numeric(a.args[0]):
            return p.truth(a) == q
        if a.op == "sym" and t.is_bool(a):
            return p.vals.setdefault(a, q) == q
        return True
    except (Bad, ArithmeticError, ValueError, TypeError, IndexError):
        return False


def satisfies(p, assume):
    return all(holds(p, a, q) for a, q in assume.items())


def distribution(x, inst, deadline):
    """{result: probability} when every draw in x has finitely many outcomes"""
    out = {}
    stack = [({}, Fraction(1))]
    n = 0
    while stack:
        oc, pr = stack.pop()
        n += 1
        if n > 3000 or time.time() > deadline:
            raise Unsup("time")
        e = Ev(inst.syms, {}, deadline)
        e.outcome = oc
        try:
            v = S.key(e.ev(x))
        except S.NeedDraw as d:
            for o in d.options:
                stack.append(({**oc, d.base: o}, pr / len(d.options)))
            continue
        if not constant(v):
            raise Unsup("free entries")
        out[v] = out.get(v, 0) + pr
    return out


def constant(v):
    todo = [v]
    while todo:
        y = todo.pop()
        if y.op in ("sym", "opaque", "draw", "app", "index"):
            return False
        todo += t.children(y)
    return True


def distributions(x, y, insts, deadline):
    """None, or what shows that the random results x and y are distributed differently"""
    for inst in insts:
        try:
            a, b = distribution(x, inst, deadline), distribution(y, inst, deadline)
        except (Unsup, Split):
            continue
        for v in list(a) + list(b):
            if a.get(v, 0) != b.get(v, 0):
                return [f"for ({inst.label})", f"{t.show(v)[:120]} is returned with probability {a.get(v, 0)}; by the definition with probability {b.get(v, 0)}"]
    return None


class Refuter:
    def __init__(self, budget=20.0, leaves=48, models=None, care=None, canon=None, accept=None):
        self.same_stream = False        # both sides start from the same generator state: different draws are different values
        self.canon, self.accept = canon, accept
        self.deadline = time.time() + budget
        self.leaves = leaves
        self.models = MODELS if models is None else models
        self.stats = {"instances": 0, "cases": 0, "unsupported": {}}

    def run(self, pairs, care, insts):
        """pairs: [(label, cur term, ref term)]; care: (conditions of cur, conditions of ref) under which the value is not compared"""
        same = 0
        insts = list(insts)
        more = []                                   # a first look at the generic cases of every instance, then the others
        for n, inst in itertools.chain(((2, x) for x in insts), ((self.leaves, x) for x in more)):
            if time.time() > self.deadline:
                break
            self.big = self.left = False
            r = self.instance(pairs, care, inst, n)
            if not r and self.big and time.time() < self.deadline:
                S.SHARE[0] = True
                try:
                    r = self.instance(pairs, care, inst, n) or r
                finally:
                    S.SHARE[0] = False
            if n < self.leaves and self.left and not r:
                more.append(inst)
            if r is None:
                continue
            self.stats["instances"] += 1
            if r == []:
                same += 1
                continue
            return DIFF, r
        return (SAME if same else UNKNOWN), None

    def note(self, e):
        if DEBUG:
            import traceback
            print("NOTE", traceback.format_exc(-3) if isinstance(e, Exception) else e)
        k = str(e)[:60]
        self.stats["unsupported"][k] = self.stats["unsupported"].get(k, 0) + 1

    def points(self, assume, n, tries, subst=None):
        """points at which the literals of a case hold"""
        out = []
        fams = families([k.args[0] for k in subst], subst) if subst else []
        rnd = random.Random(777 + len(assume))
        hints = thresholds(assume)
        for _ in range(tries):
            if time.time() > self.deadline or len(out) >= n:
                break
            p = Point(rnd, hints)
            if satisfies(p, assume) and all(f.valid(p) for f in fams):
                out.append(p)
        return out

    def child(self, nd, atom, q):
        n2 = nd.take(atom, q)
        if n2 is None:
            return None
        if n2.assume.get(atom) == q and len(n2.assume) == len(nd.assume) + 1:
            n2.pts = [p for p in nd.pts if holds(p, atom, q)]
            if not n2.pts and nd.pts and (not q or thresholds({atom: q})):
                n2.pts = self.points(n2.assume, 4, 40, n2.subst)
        else:                                       # an equation was solved: other free entries
            n2.pts = self.points(n2.assume, 12, 60, n2.subst)
        return n2

    def instance(self, pairs, care, inst, leaves):
        stack = [Node(inst.syms, {}, 0)]
        stack[0].pts = self.points({}, 24, 24)
        rest = []
        cases = 0
        done = 0
        while stack or rest:
            if time.time() > self.deadline or cases >= leaves:
                self.left = True
                break
            nd = stack.pop() if stack else rest.pop()
            dl = min(self.deadline, time.time() + 8)
            c, f = Ev(nd.syms, nd.assume, dl, self.models), Ev(nd.syms, nd.assume, dl, self.models)
            c.subst = f.subst = nd.subst
            try:
                skip = False
                for pc in care[0]:
                    if c.cond(pc):
                        skip = True
                        break
                for pc in care[1] if not skip else ():
                    if f.cond(pc):
                        skip = True
                        break
                if skip:
                    cases += 1
                    continue
                diffs, whole = [], ([], [])
                for lab, x, y in pairs:
                    if isinstance(x, tuple):        # boolean condition
                        a, b = c.cond(x[0]), f.cond(y[0])
                        if a != b:
                            diffs.append((lab, TRUE if a else FALSE, TRUE if b else FALSE))
                        continue
                    a, b = c.ev(x), f.ev(y)
                    whole[0].append(a), whole[1].append(b)
                    if self.canon:
                        a, b = self.canon(a), self.canon(b)
                    for p, u, v in differing(a, b, "", (c, f)):
                        diffs.append((lab + p, u, v))
            except Split as s:
                if nd.n >= 14:
                    cases += 1
                    continue
                ns = [n2 for n2 in (self.child(nd, s.atom, q) for q in ((True, False) if leaves < self.leaves else (False, True))) if n2 is not None]
                live = [n2 for n2 in ns if n2.pts]
                if len(live) == 1 and len(nd.assume) < 60:       # the only way on that is known to be taken
                    live[0].n = nd.n
                for n2 in ns:
                    (stack if n2.pts else rest).append(n2)
                continue
            except Unsup as e:
                self.note(e)
                cases += 1
                continue
            except (t.TooBig, t.OutOfTime, RecursionError) as e:
                self.note(type(e).__name__)
                self.big = self.big or isinstance(e, t.TooBig)
                cases += 1
                continue
            cases += 1
            done += 1
            self.stats["cases"] += 1
            if diffs:
                w = self.confirm(diffs, nd, c, f, whole)
                if w:
                    return [f"for ({inst.label})" + (" when " + ", ".join(show_lit(a, q) for a, q in list(nd.assume.items())[:4]) if nd.assume else "")] + w
        return [] if done else None

    def more_draws(self, whole):
        """parts of the result come from separate draws on one side, from the same draws on the other"""
        a, b = (draws_in(flatten(vs)) for vs in whole)
        return a < b or b < a

    def confirm(self, diffs, nd, c, f, whole=((), ())):
        # an independent random number that only one side uses may be tested by that side
        dc, df = draws_in(list(c.used) + [x for l, x, y in diffs]), draws_in(list(f.used) + [y for l, x, y in diffs])
        mine = (dc - df) | (df - dc) if dc <= df or df <= dc or self.same_stream else set()
        for a in nd.assume:
            if a.op in ("lt", "eq0") and mine and all(source(z) in mine for z in soft(a, set())):
                continue
            free = a.op in FREE or a.op not in ("lt", "eq0", "allclose") or soft(a, set())
            if free and (a in c.used) != (a in f.used):
                self.note("condition only on one side: " + t.show(a)[:60])
                return None
        good = []
        rnd = random.Random(12345)
        cand = []
        for lab, x, y in diffs[:40]:
            if x.op in ("str", "none", "true", "false") or y.op in ("str", "none", "true", "false"):
                if x.op == y.op == "str" or {x.op, y.op} <= {"none", "true", "false", "num", "str"}:
                    cand.append((lab, x, y, True))
                continue
            sx, sy = soft(x, set()), soft(y, set())
            inf = c.infinite(x), c.infinite(y)
            if inf != (None, None):
                if inf[0] != inf[1] and (not sy if inf[1] is None else not sx if inf[0] is None else True):
                    cand.append((lab, x, y, False))
                continue
            if sx != sy:
                ps = text_pairs(x, y)
                if ps is True:
                    cand.append((lab, x, y, True))
                    continue
                if ps:
                    cand += [(lab, u, v, False) for u, v in ps]
                    continue
                sx, sy = set(map(source, sx)), set(map(source, sy))
                ex = sx ^ sy
                if ex and not ((sx < sy or sy < sx or self.same_stream or self.more_draws(whole)) and all(is_draw(z) for z in ex)):      # an independent random number is used by one side only
                    self.note("uninterpreted operations differ: " + ", ".join(t.show(z)[:50] for z in list(ex)[:3]))
                    continue
            cand.append((lab, x, y, False))
        if self.accept:
            cand = [c for c in cand if not c[3]]
        if not cand:
            return None
        found = 0
        for k in range(300):
            if time.time() > self.deadline + 5:
                break
            p = nd.pts[k] if k < len(nd.pts) else Point(rnd, thresholds(nd.assume))
            if not satisfies(p, nd.assume):
                continue
            found += 1
            for lab, x, y, hard in cand:
                if hard:
                    good.append((lab, x, y))
                    continue
                inf = c.infinite(x), c.infinite(y)
                if inf != (None, None):
                    if inf[0] == inf[1] or self.accept:
                        continue
                    try:
                        u, v = (math.copysign(math.inf, i) if i else p.val(z) for i, z in zip(inf, (x, y)))
                    except (Bad, ArithmeticError, ValueError, TypeError, IndexError):
                        continue
                    if u == u and v == v and u != v:
                        good.append((lab, x, y))
                    continue
                try:
                    u, v = p.val(x), p.val(y)
                except (Bad, ArithmeticError, ValueError, TypeError, IndexError):
                    continue
                if isinstance(u, bool) or isinstance(v, bool):
                    if bool(u) != bool(v):
                        good.append((lab, x, y))
                    continue
                if u != u or v != v or abs(u) > 1e12 or abs(v) > 1e12:
                    continue
                eps = 1e-9 if x.op == y.op == "num" else 1e-6       # exact values
                if abs(u - v) > eps * (1 + abs(u) + abs(v)) and (self.accept is None or self.accept(u, v)):
                    good.append((lab, x, y))
            if good and not drawn_as_model(p, nd):
                good = []
                found -= 1
            if good or found >= 6:
                break
        if not good:
            self.note("difference not confirmed" if found else "case not shown reachable")
            return None
        return [f"{lab or 'the result'} is {t.show(x)[:160]}; by the definition {t.show(y)[:160]}" for lab, x, y in good[:3]]


def show_lit(a, q):
    return ("" if q else "not ") + t.show(a)[:80]
