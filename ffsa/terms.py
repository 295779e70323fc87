"""Hash-consed value terms with a normal form.

A term denotes the value a Python expression has for *every* input; two
expressions with the same normal form have the same value.  Terms are built
only through the smart constructors below, which keep them normalised:

  poly      commutative (element-wise) linear combinations of monomials
  dot       non-commutative matrix products, distributed over sums
  kron      Kronecker products as (factor, count) segments
  gamma     gated values (canonically ordered decision diagrams)
  bigsum .. binders over integer ranges, alpha-normalised
"""
from fractions import Fraction
import hashlib
import time

F0, F1 = Fraction(0), Fraction(1)


class TooBig(Exception):
    """normal form exceeded its size budget: the value is left undecided"""


class T:
    __slots__ = ("op", "args", "dig", "fvs", "lvl", "size", "_ops", "_rank", "_real", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
MAXSIZE = 60000


def _walk(a, f):
    if isinstance(a, T):
        f(a)
    elif isinstance(a, tuple):
        for x in a:
            _walk(x, f)


class OutOfTime(Exception):
    pass


DEADLINE = [None]
_ticks = [0]


def mk(op, *args):
    _ticks[0] += 1
    if not _ticks[0] & 4095 and DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime()
    k = (op, args)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    fv, lvl, size = set(), 0, 1
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())

    def feed(a):
        nonlocal lvl, size
        if isinstance(a, T):
            h.update(b"t" + a.dig)
            fv.update(a.fvs)
            if a.lvl > lvl:
                lvl = a.lvl
            size += a.size
        elif isinstance(a, tuple):
            h.update(b"(")
            for x in a:
                feed(x)
            h.update(b")")
        else:
            h.update((type(a).__name__ + ":" + str(a) + ";").encode())

    for a in args:
        feed(a)
    if op == "fv":
        fv.add(t)
    if op in BINDERS:
        lvl = max(lvl, args[0])
    if size > 10**7:
        size = 10**7
    t.dig = h.digest()
    t.fvs = frozenset(fv)
    t.lvl, t.size = lvl, size
    t._ops = None
    t._rank = t._real = 0
    _tab[k] = t
    return t


def ops_of(t):
    """set of (op, name) heads used anywhere in t"""
    if t._ops is None:
        s = {t.op if t.op not in ("app", "fn") else (t.op, t.args[0])}
        if t.op == "opaque":
            s.add(("opaque", t.args[1]))

        def f(x):
            s.update(ops_of(x))

        _walk(t.args, f)
        t._ops = frozenset(s)
    return t._ops


# binder op -> args = (level, lo, hi, body, ...)
BINDERS = {"bigsum", "bigprod", "bigkron", "bigdot", "exists", "comp", "lcomp", "lam", "fold", "ucomp", "firstof"}


# ---------------------------------------------------------------- basics
def num(re, im=0):
    return mk("num", Fraction(re), Fraction(im))


ZERO, ONE, TWO = num(0), num(1), num(2)
IMAG = num(0, 1)
NONE, TRUE, FALSE = mk("none"), mk("true"), mk("false")


def string(s):
    return mk("str", s)


def sym(name, kind="any"):
    return mk("sym", name, kind)


_fresh = [0]
RANGE = {}  # fv -> (lo, hi)  half-open integer range


def fresh(lo=None, hi=None, hint="i"):
    _fresh[0] += 1
    v = mk("fv", _fresh[0])
    if lo is not None or hi is not None:
        RANGE[v] = (lo, hi)
    return v


_opq = [0]


def opaque(reason):
    _opq[0] += 1
    return mk("opaque", _opq[0], reason)


def isnum(t):
    return t.op == "num"


def const_value(t):
    """exact (re, im) if t is a plain number"""
    if t.op == "num":
        return t.args
    return None


def as_int(t):
    if t.op == "num" and t.args[1] == 0 and t.args[0].denominator == 1:
        return int(t.args[0])
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    return None


# ---------------------------------------------------------------- poly
def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def _cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


C1 = (F1, F0)


def _exp_add(a, b):
    if isinstance(a, T) or isinstance(b, T):
        s = add(a if isinstance(a, T) else num(a), b if isinstance(b, T) else num(b))
        if s.op == "num" and s.args[1] == 0:
            return s.args[0]
        return s
    return a + b


def _exp_key(e):
    return e.dig if isinstance(e, T) else str(e).encode()


def monos(t):
    """t as dict mono -> coeff"""
    if t.op == "num":
        if t.args == (F0, F0):
            return {}
        return {(): t.args}
    if t is TRUE:
        return {(): C1}
    if t is FALSE:
        return {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, F1),): C1}


def _mono_key(m):
    return tuple((a.dig, _exp_key(e)) for a, e in m)


def from_monos(d):
    d = {m: c for m, c in d.items() if c != (F0, F0)}
    # zero arrays vanish next to another array term
    if len(d) > 1:
        zs = [m for m in d if any(a.op == "zeros" for a, _ in m)]
        if zs:
            others = [m for m in d if m not in zs]
            keep = others and any(not mono_scalar(m) for m in others)
            if keep:
                for m in zs:
                    del d[m]
            elif len(zs) > 1:
                for m in sorted(zs, key=_mono_key)[1:]:
                    del d[m]
    d = _fold_arrays(d)
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", *c)
        if len(m) == 1 and m[0][1] == F1 and c == C1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: _mono_key(kv[0])))
    if len(items) > 400:
        raise TooBig("poly")
    return mk("poly", *items)


def mono_scalar(m):
    return all(rank(a) == 0 for a, _ in m)


def _split_scalar(m):
    s = tuple((a, e) for a, e in m if rank(a) == 0)
    r = tuple((a, e) for a, e in m if rank(a) != 0)
    return s, r


_FOLDING = [False]


def _fold_arrays(d):
    """combine explicit arrays / blocks / comprehensions that occur linearly"""
    if _FOLDING[0] or len(d) < 1:
        return d
    groups = {}
    for m in d:
        s, r = _split_scalar(m)
        if len(r) == 1 and r[0][1] == F1 and r[0][0].op in ("arr", "block", "comp"):
            a = r[0][0]
            if a.op == "arr":
                k = ("arr", a.args[0])
            elif a.op == "block":
                k = ("block", tuple(len(x) for x in a.args[0]), _block_shape_key(a))
            else:
                k = ("comp", comp_shape(a))
            groups.setdefault(k, []).append(m)
    changed = False
    out = dict(d)
    for k, ms in groups.items():
        if len(ms) == 1:
            m = ms[0]
            s, r = _split_scalar(m)
            if not s and d[m] == C1:
                continue
        parts = []
        for m in ms:
            s, r = _split_scalar(m)
            coeff = _poly_raw({s: d[m]})
            parts.append((coeff, r[0][0]))
            del out[m]
        if k[0] == "arr":
            n = len(parts[0][1].args[1])
            ent = []
            for i in range(n):
                ent.append(addn([mul(c, a.args[1][i]) for c, a in parts]))
            res = arr(k[1], tuple(ent))
        elif k[0] == "block":
            rows = parts[0][1].args[0]
            new = []
            for i in range(len(rows)):
                new.append(tuple(addn([mul(c, a.args[0][i][j]) for c, a in parts]) for j in range(len(rows[i]))))
            res = block(tuple(new), parts[0][1].args[1])
        else:
            res = _comp_zip(parts)
        for m2, c2 in monos(res).items():
            out[m2] = _cadd(out.get(m2, (F0, F0)), c2)
        changed = True
    if changed:
        out = {m: c for m, c in out.items() if c != (F0, F0)}
    return out


def _block_shape_key(b):
    return b.args[1]


def _poly_raw(d):
    d = {m: c for m, c in d.items() if c != (F0, F0)}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", *c)
        if len(m) == 1 and m[0][1] == F1 and c == C1:
            return m[0][0]
    return mk("poly", *tuple(sorted(d.items(), key=lambda kv: _mono_key(kv[0]))))


def _factor_int(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 10000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _norm_mono(factors, coeff):
    """factors: list of (atom, exp) -> (mono, coeff) normalised"""
    d = {}
    for a, e in factors:
        if a in d:
            d[a] = _exp_add(d[a], e)
        else:
            d[a] = e
    out = []
    for a, e in d.items():
        if not isinstance(e, T) and e == 0:
            if rank(a) == 0:
                continue
            continue
        if a.op == "num":
            # integer base > 1 with fractional or symbolic exponent
            base = a.args[0]
            if isinstance(e, T):
                em = monos(e)
                c = em.pop((), (F0, F0))
                ip = c[0].numerator // c[0].denominator
                fr = c[0] - ip
                coeff = _cmul(coeff, (Fraction(base) ** ip, F0))
                rest = dict(em)
                if fr:
                    rest[()] = (fr, F0)
                e2 = _poly_raw(rest)
                if e2.op == "num":
                    e2 = e2.args[0]
                if e2 != 0:
                    out.append((a, e2))
            else:
                ip = e.numerator // e.denominator
                fr = e - ip
                coeff = _cmul(coeff, (Fraction(base) ** ip, F0))
                if fr:
                    out.append((a, fr))
            continue
        out.append((a, e))
    out.sort(key=lambda ae: (ae[0].dig, _exp_key(ae[1])))
    return tuple(out), coeff


def _lift2(f, x, y):
    if x.op == "gamma" or y.op == "gamma":
        return lift(f, (x, y))
    return None


def lift(f, xs):
    """apply f under the gates of its arguments"""
    tops = [x.args[0] for x in xs if x.op == "gamma"]
    if not tops:
        return f(*xs)
    c = min(tops, key=lambda a: a.dig)
    hi = lift(f, tuple(cof(x, c, True) for x in xs))
    lo = lift(f, tuple(cof(x, c, False) for x in xs))
    return gamma(c, hi, lo)


def add(x, y):
    if x.op == "gamma" or y.op == "gamma":
        return lift(add, (x, y))
    if x.op == "opaque":
        return x
    if y.op == "opaque":
        return y
    d = dict(monos(x))
    for m, c in monos(y).items():
        d[m] = _cadd(d.get(m, (F0, F0)), c)
    if not d or all(c == (F0, F0) for c in d.values()):
        sh = zeros_of(x) or zeros_of(y)
        if sh is not None:
            return sh
    return from_monos(d)


def zeros_of(t):
    """a zero array of t's shape when the shape is known"""
    if t.op == "zeros":
        return t
    return None


def addn(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def neg(x):
    return mul(num(-1), x)


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    if x.op == "gamma" or y.op == "gamma":
        return lift(mul, (x, y))
    if x.op == "opaque":
        return x
    if y.op == "opaque":
        return y
    if x.op == "num" and x.args == C1:
        return y
    if y.op == "num" and y.args == C1:
        return x
    mx, my = monos(x), monos(y)
    if not mx or not my:
        z = zeros_of(x) or zeros_of(y)
        if z is None:
            o = y if not mx else x
            if rank(o) not in (0,) and o.op not in ("num",):
                if rank(o) is not None:
                    return zeros_like(o)
        return z if z is not None else ZERO
    if len(mx) * len(my) > 2000:
        raise TooBig("mul")
    d = {}
    for m1, c1 in mx.items():
        for m2, c2 in my.items():
            c = _cmul(c1, c2)
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m, c = _mono_mul(m1, m2, c)
                if m is None:
                    continue
            d[m] = _cadd(d.get(m, (F0, F0)), c)
    return from_monos(d)


def _mono_mul(m1, m2, c):
    f = list(m1) + list(m2)
    zs = [a for a, _ in f if a.op == "zeros"]
    if zs:
        return ((zs[0], F1),), C1
    # element-wise product of explicit arrays
    m, c = _norm_mono(f, c)
    arrs = [a for a, e in m if a.op == "arr" and e == F1]
    if len(arrs) >= 2 and arrs[0].args[0] == arrs[1].args[0]:
        a, b = arrs[:2]
        prod = arr(a.args[0], tuple(mul(p, q) for p, q in zip(a.args[1], b.args[1])))
        rest = [(x, e) for x, e in m if x is not a and x is not b]
        p = monos(prod)
        if len(p) == 1:
            (mm, cc), = p.items()
            return _norm_mono(rest + list(mm), _cmul(c, cc))
    return m, c


def power(x, e):
    """x ** e (element-wise)"""
    if x.op == "gamma" or e.op == "gamma":
        return lift(power, (x, e))
    if x.op == "opaque":
        return x
    if e.op == "opaque":
        return e
    ei = as_int(e)
    if e.op == "num" and e.args[1] == 0:
        ev = e.args[0]
    else:
        ev = None
    if ei == 1:
        return x
    if ei == 0:
        return ONE
    if x.op == "num":
        if ei is not None and abs(ei) <= 64:
            if x.args == (F0, F0):
                return ZERO if ei > 0 else opaque("0**neg")
            c = C1
            for _ in range(abs(ei)):
                c = _cmul(c, x.args)
            if ei < 0:
                n2 = c[0] ** 2 + c[1] ** 2
                c = (c[0] / n2, -c[1] / n2)
            return mk("num", *c)
        if x.args[1] == 0 and x.args[0] > 0:
            fs = []
            for p, k in _factor_int(x.args[0].numerator).items():
                fs.append((num(p), _exp_scale(e, k)))
            for p, k in _factor_int(x.args[0].denominator).items():
                fs.append((num(p), _exp_scale(e, -k)))
            m, c = _norm_mono(fs, C1)
            return _poly_raw({m: c})
        if x is ZERO and ev is not None and ev > 0:
            return ZERO
        if x.args == (Fraction(-1), F0) and ev is None:
            return mk("poly", ((((x, e),), C1))) if False else mk("app", "pow", (x, e), ())
    md = monos(x)
    if not md:
        return mk("app", "pow", (x, e), ())
    if len(md) == 1:
        (m, c), = md.items()
        if ei is not None:
            cc = C1
            for _ in range(abs(ei)):
                cc = _cmul(cc, c)
            if ei < 0:
                n2 = cc[0] ** 2 + cc[1] ** 2
                cc = (cc[0] / n2, -cc[1] / n2)
            m2, cc = _norm_mono([(a, _exp_mulf(k, Fraction(ei))) for a, k in m], cc)
            return from_monos({m2: cc})
        # fractional or symbolic exponent: pull out positive parts only
        if c[1] == 0 and c[0] > 0:
            cf = power(num(c[0]), e) if c != C1 else ONE
            pos = [(a, k) for a, k in m if is_nonneg(a)]
            rest = [(a, k) for a, k in m if not is_nonneg(a)]
            if ev is not None:
                m2 = [(a, _exp_mulf(k, ev)) for a, k in pos]
            else:
                m2 = [(a, _to_exp(mul(e, k if isinstance(k, T) else num(k)))) for a, k in pos]
            mm, c2 = _norm_mono(m2, C1)
            r = mul(cf, from_monos({mm: c2}))
            if rest:
                ra = _poly_raw({tuple(rest): C1})
                eatom = ev if ev is not None else e
                if len(rest) == 1 and rest[0][1] == F1:
                    r = mul(r, from_monos({((rest[0][0], eatom),): C1}))
                else:
                    r = mul(r, from_monos({((mk("group", ra), eatom),): C1}))
            return r
    if ei is not None and 0 < ei <= 4 and len(md) ** ei <= 64:
        r = x
        for _ in range(ei - 1):
            r = mul(r, x)
        return r
    # normalise the content so that (2x)^-1 and (x)^-1/2 agree
    eatom = ev if ev is not None else e
    lead = min(md.items(), key=lambda kv: _mono_key(kv[0]))[1]
    if ei is not None or (lead[1] == 0 and lead[0] > 0):
        n2 = lead[0] ** 2 + lead[1] ** 2
        inv = (lead[0] / n2, -lead[1] / n2)
        xx = from_monos({m: _cmul(c, inv) for m, c in md.items()})
        g = mk("group", xx)
        return mul(power(mk("num", *lead), e), from_monos({((g, eatom),): C1}))
    return from_monos({((mk("group", x), eatom),): C1})


def _to_exp(t):
    if t.op == "num" and t.args[1] == 0:
        return t.args[0]
    return t


def _exp_scale(e, k):
    r = mul(e, num(k))
    return _to_exp(r)


def _exp_mulf(k, f):
    if isinstance(k, T):
        return _to_exp(mul(k, num(f)))
    return k * f


def div(x, y):
    if y.op == "num" and y.args == (F0, F0):
        return opaque("div by zero")
    return mul(x, power(y, num(-1)))


# ---------------------------------------------------------------- kinds
SCALAR_APPS = {
    "trace", "det", "norm", "sumall", "prodall", "len", "dim", "rank", "entropy", "factorial",
    "maxall", "minall", "anyall", "allall", "count_nonzero", "inversions", "int", "beta", "randint", "exponential", "argmax", "argmin", "min", "max", "abs0", "size",
}
ELEMENTWISE = {"log2", "round0", "floordiv", "mod", "land", "lor", "lnot"}
MATRIX_APPS = {"diagm", "expm", "logm", "inv", "randn2", "special_ortho_group", "unitary_group", "sqrtm"}
RANK_OF_APP = {}  # name -> rank, filled by library model / reference tables
REAL_APPS = {"norm", "len", "dim", "log2", "factorial", "count_nonzero", "int", "entropy"}
NONNEG_APPS = {"norm", "len", "dim", "count_nonzero", "factorial", "size"}


def rank(t):
    if t._rank != 0:
        return t._rank if t._rank != -1 else 0
    r = _rank(t)
    t._rank = r if r != 0 else -1
    return r


def brank(t):
    """rank of a comparison applied to arrays"""
    return rank(t.args[0]) if t.op in ("lt", "eq0") else rank(t)


def _rank(t):
    op = t.op
    if op in ("num", "true", "false", "lt", "eq0", "isnone", "exists", "fv", "bv", "len", "dim", "allclose", "isinst", "truthy"):
        return 0
    if op == "sym":
        return {"int": 0, "real": 0, "scalar": 0, "mat": 2, "vec": 1, "col": 2, "seed": 0, "bool": 0, "str": 0}.get(t.args[1])
    if op == "poly":
        rs = []
        for m, c in t.args:
            r = 0
            for a, e in m:
                ra = rank(a)
                if ra is None:
                    r = None
                    break
                r = max(r, ra)
            rs.append(r)
        known = [r for r in rs if r is not None]
        if len(known) == len(rs):
            return max(known)
        return max(known) if known and max(known) == 2 else None
    if op == "group":
        return rank(t.args[0])
    if op in ("tr", "eye", "kron", "bigkron", "block", "diagm"):
        return 2
    if op == "dot":
        a, b = rank(t.args[0]), rank(t.args[-1])
        if a == 1 and b == 1:
            return 0
        if a == 1 or b == 1:
            return 1
        if a is None or b is None:
            return None
        return 2
    if op in ("zeros", "ones"):
        return len(t.args[0])
    if op == "arr":
        return len(t.args[0])
    if op == "comp":
        r = rank(t.args[3])
        return None if r is None else r + 1
    if op == "bigdot":
        return 2
    if op in ("bigsum", "bigprod"):
        return rank(t.args[3])
    if op in ("conj",):
        return rank(t.args[0])
    if op == "fn":
        return rank(t.args[1])
    if op == "gamma":
        a, b = rank(t.args[1]), rank(t.args[2])
        return a if a == b else None
    if op == "index":
        base, idx = t.args
        br = base_rank(base)
        if br is None:
            # two scalar indices address a matrix element
            if len(idx) == 2 and all(i.op != "slice" and rank(i) == 0 for i in idx):
                return 0
            return None
        nsc = sum(1 for i in idx if i.op not in ("slice", "newaxis") and rank(i) == 0)
        if any(i.op == "newaxis" for i in idx):
            return br - nsc + sum(1 for i in idx if i.op == "newaxis")
        if isinstance(br, tuple):
            # list of something
            if nsc == 0:
                return br
            r = br[1]
            if r is None:
                return None
            return r - (nsc - 1)
        return max(0, br - nsc)
    if op == "upd":
        return rank(t.args[0])
    if op == "app":
        n = t.args[0]
        if n == "fold_get":
            return rank(t.args[1][0].args[4].args[as_int(t.args[1][1])])
        if n in ELEMENTWISE:
            rs = [brank(a) for a in t.args[1]]
            return None if None in rs else max(rs)
        if n in SCALAR_APPS:
            return 0
        if n in MATRIX_APPS:
            return 2
        r = RANK_OF_APP.get(n)
        if r is not None:
            if callable(r):
                return r(t)
            return r
        return None
    if op == "draw":
        return t.args[2]
    return None


def base_rank(t):
    if t.op == "sym" and t.args[1].startswith("list:"):
        return ("list", {"mat": 2, "scalar": 0, "int": 0, "any": None}[t.args[1][5:]])
    if t.op == "list":
        rs = {rank(x) for x in list_bodies(t)}
        return ("list", rs.pop() if len(rs) == 1 else None)
    if t.op == "app" and t.args[0] in LIST_APPS:
        r = LIST_APPS[t.args[0]]
        return ("list", r(t) if callable(r) else r)
    if t.op == "index":
        b = base_rank(t.args[0])
        if isinstance(b, tuple) and all(i.op == "slice" for i in t.args[1]):
            return b
    return rank(t)


LIST_APPS = {"ff.jordan_wigner_lowering": 2, "ff.jordan_wigner_alphas": 2, "ff.jordan_wigner_majoranas": 2,
             "ff.rotate_operators": 2, "ff.generate_pauli_group": 2, "ff.pauli_matrices": 2,
             "itertools.permutations": lambda x: _tuples_of_ints(x), "itertools.combinations": lambda x: _tuples_of_ints(x),
             "itertools.product": lambda x: _tuples_of_ints(x)}


def _tuples_of_ints(x):
    b = x.args[1][0]
    if b.op == "app" and b.args[0] == "arange":
        return 1
    if b.op == "list" and b.args[0] and all(i.op == "item" and i.args[0].op == "num" for i in b.args[0]):
        return 1
    return None


def _int_items(x):
    """elements of (nested) x are integers"""
    if x.op == "app":
        if x.args[0] in ("arange", "ff.permutation_inverse", "argsort"):
            return all(is_int(a) for a in x.args[1]) or x.args[0] != "arange"
        if x.args[0] in ("itertools.permutations", "itertools.combinations", "itertools.product"):
            return _int_items(x.args[1][0])
    if x.op == "list":
        return bool(x.args[0]) and all(i.op == "item" and is_int(i.args[0]) for i in x.args[0])
    if x.op == "index":
        return _int_items(x.args[0])
    return False


def is_real(t):
    if t._real != 0:
        return t._real == 1
    r = _is_real(t)
    t._real = 1 if r else 2
    return r


REAL_FNS = {"abs", "re", "im", "sign", "floor", "ceil", "angle", "abs2"}


def _is_real(t):
    op = t.op
    if op == "num":
        return t.args[1] == 0
    if op in ("true", "false", "fv", "bv", "len", "dim", "eye", "zeros", "ones", "exists", "lt", "eq0"):
        return True
    if op == "sym":
        return t.args[1] in ("int", "real", "seed", "bool") or t.args[0].endswith("!real")
    if op == "poly":
        if all(c[1] == 0 and all(is_real(a) and (not isinstance(e, Fraction) or e.denominator == 1 or is_nonneg(a)) for a, e in m) for m, c in t.args):
            return True
        if not 2 <= len(t.args) <= 40:
            return False
        t._real = 2
        try:
            return conj(t) is t
        except TooBig:
            return False
        finally:
            t._real = 0
    if op in ("tr", "conj", "group"):
        return is_real(t.args[0])
    if op == "dot":
        return all(is_real(a) for a in t.args)
    if op == "kron":
        return all(is_real(f) for f, _ in t.args[0])
    if op == "block":
        return all(is_real(x) for r in t.args[0] for x in r)
    if op == "arr":
        return all(is_real(x) for x in t.args[1])
    if op in ("bigsum", "bigprod", "bigkron", "bigdot", "comp"):
        return is_real(t.args[3])
    if op == "gamma":
        return is_real(t.args[1]) and is_real(t.args[2])
    if op == "fn":
        if t.args[0] in REAL_FNS:
            return True
        if t.args[0] in ("exp", "round", "sin", "cos"):
            return is_real(t.args[1])
        if t.args[0] == "log":
            return is_nonneg(t.args[1])
        return False
    if op == "index":
        return is_real(t.args[0])
    if op == "upd":
        return is_real(t.args[0]) and all(is_real(e.args[-1]) if e.op != "ucomp" else is_real(_ubody(e)) for e in t.args[1])
    if op == "draw":
        return t.args[3]
    if op == "app":
        n = t.args[0]
        if n in REAL_APPS:
            return True
        if n in ("trace", "sumall", "diagv", "diagm", "diag", "sort", "reshape", "mean", "cumsum", "prodall", "flatten", "flip", "triu", "tril", "maxall", "minall", "round0", "floordiv", "mod", "min", "max", "transpose", "det"):
            return all(is_real(a) for a in t.args[1][:1])
        if n in ("schur_T", "schur_Z") and t.args[1][0].op == "arr":
            return is_real(t.args[1][0])
        return n in EXTRA_REAL
    return False


EXTRA_REAL = set()


def _ubody(e):
    b = e.args[3]
    while b.op == "ucomp":
        b = b.args[3]
    return b.args[-1]


KNOWN_NN = set()       # products x conj(x)


def known_nonneg(x):
    KNOWN_NN.add(x)
    x._real = 1


def is_nonneg(t):
    op = t.op
    if op in ("group", "poly") and t in KNOWN_NN:
        return True
    if op == "num":
        return t.args[1] == 0 and t.args[0] >= 0
    if op == "fn":
        return t.args[0] in ("abs", "abs2") or (t.args[0] == "exp" and is_real(t.args[1]))
    if op in ("len", "dim", "eye", "zeros", "ones"):
        return True
    if op == "app":
        if t.args[0] in NONNEG_APPS:
            return True
        if t.args[0] in ("sumall", "diagv", "diagm", "maxall", "minall"):
            return is_nonneg(t.args[1][0])
        return t.args[0] in EXTRA_NONNEG
    if op == "sym":
        return t.args[0].endswith("!nonneg") or t.args[1] in ("int",) and t.args[0] in SIZE_SYMS
    if op == "group":
        return is_nonneg(t.args[0])
    if op == "poly":
        return all(c[1] == 0 and c[0] > 0 and all(_fac_nonneg(a, e) for a, e in m) for m, c in t.args)
    if op == "bigsum":
        return is_nonneg(t.args[3])
    if op == "index":
        return is_nonneg(t.args[0])
    return False


SIZE_SYMS = set()
DIMS = {}        # symbol -> shape (contract of the argument)
LENS = {}        # list symbol -> length
ELEM_DIMS = {}   # list symbol -> shape of its elements
EXTRA_NONNEG = set()


def _fac_nonneg(a, e):
    if is_nonneg(a):
        return True
    return isinstance(e, Fraction) and e.denominator == 1 and e % 2 == 0 and is_real(a)


# ---------------------------------------------------------------- gating
def cof(t, atom, val):
    """cofactor of the top gates of t"""
    if t is atom:
        return TRUE if val else FALSE
    if t.op != "gamma":
        return t
    c, a, b = t.args
    if c is atom:
        return a if val else b
    if c.dig > atom.dig:
        return t
    na, nb = cof(a, atom, val), cof(b, atom, val)
    if na is a and nb is b:
        return t
    return gamma(c, na, nb)


def gamma(c, a, b):
    """gate on an *atomic* condition; callers keep the order (use ite)"""
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a.op == "gamma" and a.args[0] is c:
        a = a.args[1]
    if b.op == "gamma" and b.args[0] is c:
        b = b.args[2]
    if c in gates_of(a):
        a = deep_cof(a, c, True)
    if c in gates_of(b):
        b = deep_cof(b, c, False)
    if c.op == "eq0":
        for g in gates_of(a):
            if g.op == "eq0" and abs(g.size - c.size) <= 2:
                k = const_value(sub(g.args[0], c.args[0]))
                if k:
                    a = deep_cof(a, g, False)
    if a is b:
        return a
    r = _negligible(c, a, b)
    if r is not None:
        return r
    if a is b:
        return a
    return mk("gamma", c, a, b)


_gates = {}
_NOG = frozenset()


def gates_of(t):
    """conditions of the gates anywhere inside t"""
    r = _gates.get(t)
    if r is None:
        if not has_gamma(t):
            r = _NOG
        else:
            acc = set()
            _walk(t.args, lambda x: acc.update(gates_of(x)))
            if t.op == "gamma":
                acc.add(t.args[0])
            r = frozenset(acc)
        _gates[t] = r
    return r


def has_gamma(t):
    return "gamma" in ops_of(t)


def deep_cof(t, c, val):
    """t under the assumption that c has the given truth value"""
    memo = {}

    def go(x):
        if c not in gates_of(x):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "gamma" and x.args[0] is c:
                r = go(x.args[1] if val else x.args[2])
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def gpart(c, x):
    """list part x present only where c holds"""
    return mk("gpart", c, restrict(x, c))


def restrict(f, care):
    """simplify f where only `care` matters (generalised cofactor)"""
    if care is TRUE or care is FALSE or f.op != "gamma":
        return f
    cg = care if care.op == "gamma" else None
    x = cg.args[0] if cg is not None else care
    chi, clo = (cg.args[1], cg.args[2]) if cg is not None else (TRUE, FALSE)
    if chi is FALSE or clo is FALSE:
        v = clo is FALSE
        g = cof(f, x, v)
        if x in gates_of(g):
            g = deep_cof(g, x, v)
        return restrict(g, chi if v else clo)
    y = f.args[0]
    if y is x:
        return ite(y, restrict(f.args[1], chi), restrict(f.args[2], clo))
    if x.dig < y.dig:
        return restrict(f, b_or(chi, clo))
    return ite(y, restrict(f.args[1], care), restrict(f.args[2], care))


def _negligible(c, a, b):
    """`x.real if imag is negligible else x` is x; dropping tiny coefficients is a no-op"""
    if c.op == "allclose" and c.args[1] == ():
        p = c.args[0]
        # condition says: p ~ 0.  a and b agree modulo p
        for x, y in ((a, b),):
            if _eq_mod(x, y, p):
                return y
    if c.op == "lt":
        # 0 < eps - |q|
        q = small_test(c)
        if q is not None:
            if _eq_mod(a, b, q):
                return b
        q = small_test_neg(c)
        if q is not None and _eq_mod(b, a, q):
            return a
    return None


SMALL = Fraction(1, 10**6)


def small_test(c):
    """c is 0 < eps - |q| with a tiny eps: returns q"""
    md = monos(c.args[0])
    k = md.get(())
    if k is None or k[1] != 0 or not (0 < k[0] <= SMALL) or len(md) != 2:
        return None
    (m, cc), = [(m, v) for m, v in md.items() if m != ()]
    if cc[1] == 0 and cc[0] < 0 and len(m) == 1 and m[0][1] == F1 and m[0][0].op == "fn" and m[0][0].args[0] == "abs":
        return m[0][0].args[1]
    if cc[1] == 0 and cc[0] < 0 and len(m) == 1 and m[0][1] == F1 and m[0][0].op == "app" and m[0][0].args[0] in ("norm", "maxall"):
        a = m[0][0].args[1][0]
        if m[0][0].args[0] == "maxall":
            if a.op == "fn" and a.args[0] == "abs":
                return a.args[1]
            return None
        return a
    return None


def small_test_neg(c):
    """c is 0 < |q| - eps with a tiny eps: returns q (c false means q negligible)"""
    md = monos(c.args[0])
    k = md.get(())
    if k is None or k[1] != 0 or not (-SMALL <= k[0] < 0) or len(md) != 2:
        return None
    (m, cc), = [(m, v) for m, v in md.items() if m != ()]
    if cc[1] == 0 and cc[0] > 0 and len(m) == 1 and m[0][1] == F1 and m[0][0].op == "fn" and m[0][0].args[0] == "abs":
        return m[0][0].args[1]
    return None


def _drop_re(x, z):
    """replace the real part of z (or of parts of z) by z itself"""
    memo = {}
    rz = fn("re", z)

    def go(u):
        if u is rz:
            return z
        if u.op == "fn" and u.args[0] == "re":
            w = u.args[1]
            while w.op in ("index", "tr", "conj") and w is not z:
                w = w.args[0]
            if w is z:
                return u.args[1]
        if u.size < z.size:
            return u
        r = memo.get(u)
        if r is None:
            r = memo[u] = rebuild(u, go)
        return r
    return go(x)


def _eq_mod(x, y, q):
    """x == y when q == 0 (syntactic)"""
    if x is y:
        return True
    if x.op == "opaque" or y.op == "opaque" or q.op == "opaque":
        return False
    if q.op == "app" and q.args[0] == "norm":
        q = q.args[1][0]
    # q = im(z) (or norm of it): x = re(z)-ish
    zs = None
    if q.op == "fn" and q.args[0] == "im":
        z = q.args[1]
        try:
            if _drop_re(x, z) is _drop_re(y, z):
                return True
        except TooBig:
            return False
    # q = z - re(z)  up to sign
    md = monos(q)
    if len(md) == 2:
        for m, c in md.items():
            if len(m) == 1 and m[0][1] == F1 and m[0][0].op == "fn" and m[0][0].args[0] == "re":
                z = m[0][0].args[1]
                try:
                    if z in [mm[0][0] for mm in md if len(mm) == 1] or sub(z, m[0][0]) in (q, neg(q)):
                        if _drop_re(x, z) is _drop_re(y, z):
                            return True
                except TooBig:
                    return False
    # q occurs as a factor
    if q.op in ("index", "fv", "sym", "app", "conj"):
        try:
            d = sub(x, y)
        except TooBig:
            return False
        if d.op in ("gamma", "opaque"):
            return False
        dm = monos(d)
        rel = {q, conj(q), fn("abs", q), fn("re", q), fn("im", q)}
        if dm and all(any(a in rel and e == F1 for a, e in m) for m in dm):
            return True
    # x and y differ by an entry of the negligible matrix q
    if rank(q) in (1, 2) and x.op not in ("gamma", "tuple", "list") and y.op not in ("gamma", "tuple", "list") and rank(x) == 0:
        try:
            d = sub(x, y)
            idxs = {a.args[1] for m in monos(d) for a, e in m if a.op == "index" and len(a.args[1]) == rank(q)}
            for ix in sorted(idxs, key=str)[:4]:
                e = index(q, ix)
                if d is e or d is neg(e):
                    return True
        except TooBig:
            return False
    return False


def ite(c, a, b):
    """gate on an arbitrary boolean term"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "opaque":
        return mk("gamma", mk("truthy", c), a, b) if True else a
    tops = []
    for x in (c, a, b):
        if x.op == "gamma":
            tops.append(x.args[0])
    if c.op != "gamma":
        tops.append(c)
    if is_bool(a) and is_bool(b):
        tops += [x for x in (a, b) if x.op not in ("gamma", "true", "false")]
    t = min(tops, key=lambda z: z.dig)
    if c.op != "gamma" and t is c:
        return gamma(t, cof(a, t, True), cof(b, t, False))
    hi = ite(cof(c, t, True), cof(a, t, True), cof(b, t, True))
    lo = ite(cof(c, t, False), cof(a, t, False), cof(b, t, False))
    return gamma(t, hi, lo)


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def is_bool(t):
    if t.op in ("true", "false", "lt", "eq0", "isnone", "isinst", "truthy", "allclose", "exists", "in"):
        return True
    if t.op == "gamma":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op == "app":
        return t.args[0] in BOOL_APPS
    return False


BOOL_APPS = {"land", "lor", "lnot", "anyall", "allall", "array_equal", "hasattr", "nx.is_planar", "nx.is_connected", "nx.is_tree", ".isnumeric", "isscalar",
             "ff.is_symp", "ff.check_canonical_form", "ff.is_matchgate", "ff.is_symp", "isfinite", "iscomplexobj", "bool_eq", "str_startswith"}


def truth(t):
    """truth value of t as a boolean term"""
    if t.op == "gamma":
        return lift(truth, (t,))
    if is_bool(t):
        return t
    if t is NONE:
        return FALSE
    if t.op == "num":
        return FALSE if t.args == (F0, F0) else TRUE
    if t.op == "str":
        return TRUE if t.args[0] else FALSE
    if t.op in ("list", "tuple"):
        if t.op == "tuple":
            return TRUE if t.args else FALSE
        n = length(t)
        if isnum(n):
            return truth(n)
        return lt(ZERO, n)
    if t.op in ("len", "dim") or (t.op in ("poly", "fv", "bv", "index") and is_int(t)) or (t.op == "app" and t.args[0] in ("mod", "floordiv")):
        return b_not(eq(t, ZERO))
    if t.op == "lam":
        return TRUE
    return mk("truthy", t)


# ---------------------------------------------------------------- comparisons
def is_int(t):
    op = t.op
    if op == "num":
        return t.args[1] == 0 and t.args[0].denominator == 1
    if op in ("fv", "bv", "len", "dim"):
        return True
    if op == "sym":
        return t.args[1] == "int"
    if op == "poly":
        return all(c[1] == 0 and c[0].denominator == 1 and all(is_int(a) and ((isinstance(e, Fraction) and e.denominator == 1 and e >= 0) or (isinstance(e, T) and a.op == "num")) for a, e in m) for m, c in t.args)
    if op == "app":
        return t.args[0] in ("int", "floordiv", "mod", "count_nonzero", "factorial", "randint", "inversions", "size")
    if op == "bigsum":
        return is_int(t.args[3])
    if op == "index":
        if rank(t) != 0:
            return False
        return (t.args[0].op == "sym" and t.args[0].args[1] == "list:int") or _int_items(t.args[0])
    if op == "gamma":
        return is_int(t.args[1]) and is_int(t.args[2])
    return False


def _bound(t, upper, depth=0):
    """a bound of the polynomial t (upper or lower), or None"""
    if depth > 8:
        return None
    for v in sorted(t.fvs, key=lambda x: x.dig):
        if v not in RANGE:
            continue
        lo, hi = RANGE[v]
        md = monos(t)
        cs = [(m, c) for m, c in md.items() if any(a is v or (v in a.fvs) for a, _ in m)]
        if len(cs) != 1:
            continue
        m, c = cs[0]
        if m != ((v, F1),) or c[1] != 0:
            continue
        want_hi = (c[0] > 0) == upper
        rep = sub(hi, ONE) if want_hi and hi is not None else (lo if not want_hi else None)
        if rep is None:
            continue
        rest = {mm: cc for mm, cc in md.items() if mm != m}
        nt = add(from_monos(rest), mul(num(c[0]), rep))
        if nt.op == "gamma":
            return None
        return _bound(nt, upper, depth + 1)
    if t.fvs - {v for v in t.fvs if v not in RANGE}:
        pass
    return t


FACTS = []  # terms known to be > 0 (integers)


def prove_pos(t):
    """True when 0 < t is certain, False when t <= 0 is certain, else None (integers)"""
    if t.op == "num":
        return t.args[0] > 0 if t.args[1] == 0 else None
    lo = _bound(t, False)
    if lo is not None and _sure_pos(lo):
        return True
    hi = _bound(t, True)
    if hi is not None and _sure_nonpos(hi):
        return False
    return None


def _min_atom(a, e):
    """lower bound of atom**e"""
    if a.op == "num" and isinstance(e, T):
        return F1 if _sure_pos(add(e, ONE)) else F0
    if a in SIZEPOS:
        return F1
    if is_nonneg(a):
        return F0
    return None


SIZEPOS = set()


def _sure_pos(t):
    md = monos(t)
    s = F0
    for m, c in md.items():
        if c[1] != 0:
            return False
        lb = F1
        for a, e in m:
            x = _min_atom(a, e)
            if x is None:
                return False
            lb *= x
        if c[0] < 0:
            if m == ():
                s += c[0]
                continue
            return False
        s += c[0] * lb
    return s > 0


def _sure_nonpos(t):
    # -t >= 0  <=>  0 < 1 - t
    return _sure_pos(sub(ONE, t))


def _int_scaled(p):
    from math import lcm, gcd
    md = monos(p)
    l = 1
    for c in md.values():
        l = lcm(l, c[0].denominator)
    return mul(num(l), p) if l != 1 else p


def lt(a, b):
    """a < b"""
    if a.op == "gamma" or b.op == "gamma":
        return lift(lt, (a, b))
    if a.op == "opaque":
        return mk("truthy", a)
    if b.op == "opaque":
        return mk("truthy", b)
    return _lt0(sub(b, a))


def _lt0(p):
    if p.op == "gamma":
        return lift(_lt0, (p,))
    if p is TRUE or p is FALSE:
        return p
    if p.op == "num":
        return TRUE if p.args[0] > 0 else FALSE
    if p.op == "opaque":
        return mk("truthy", p)
    r = prove_pos(p) if is_int(p) else None
    if r is not None:
        return TRUE if r else FALSE
    md = monos(p)
    # canonical orientation for integers: choose sign of the leading monomial positive
    lead = min((m for m in md if m != ()), key=_mono_key)
    if is_int(p) and md[lead][0] < 0:
        # 0 < p  <=>  not (0 < 1 - p)
        return gamma_not(mk("lt", sub(ONE, p)))
    if not is_int(p):
        if all(c[1] == 0 for c in md.values()) and md[lead][0] < 0:
            # real: 0 < p ; normalise scale only
            s = -md[lead][0]
            return mk("lt", mul(num(1 / s), p)) if s != 1 and len(md) == 1 else mk("lt", p)
    return mk("lt", p)


def gamma_not(atom):
    return mk("gamma", atom, FALSE, TRUE)


def le(a, b):
    if a.op == "gamma" or b.op == "gamma":
        return lift(le, (a, b))
    if is_int(a) and is_int(b):
        return lt(a, add(b, ONE))
    return b_not(lt(b, a))


CONST_OPS = ("str", "none", "true", "false", "tuple", "pytype")


def eq(a, b):
    if a.op == "gamma" or b.op == "gamma":
        return lift(eq, (a, b))
    if a is b:
        return TRUE
    if a.op == "opaque":
        return mk("truthy", a)
    if b.op == "opaque":
        return mk("truthy", b)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = b_and(r, eq(x, y))
        return r
    if a.op == "app" and a.args[0] == "shape" and b.op == "tuple":
        r = eq(mk("app", "ndim", a.args[1], ()), num(len(b.args))) if False else TRUE
        for k, y in enumerate(b.args):
            r = b_and(r, eq(dim(a.args[1][0], k), y))
        return r
    if b.op == "app" and b.args[0] == "shape" and a.op == "tuple":
        return eq(b, a)
    if a.op in CONST_OPS and b.op in CONST_OPS:
        if {a.op, b.op} & {"true", "false"} and {a.op, b.op} <= {"true", "false"}:
            return FALSE
        return FALSE
    if a.op in CONST_OPS or b.op in CONST_OPS:
        if a is NONE:
            return isnone(b)
        if b is NONE:
            return isnone(a)
        if a in (TRUE, FALSE) and is_bool(b):
            return b if a is TRUE else b_not(b)
        if b in (TRUE, FALSE) and is_bool(a):
            return a if b is TRUE else b_not(a)
        x, y = sorted((a, b), key=lambda z: z.dig)
        if isnum(x) or isnum(y):
            if {x.op, y.op} & {"str", "none", "tuple"}:
                return FALSE
        return mk("app", "bool_eq", (x, y), ())
    if is_bool(a) and is_bool(b):
        return ite(a, b, b_not(b))
    return _eq0(sub(a, b))


def _eq0(p):
    if p.op == "gamma":
        return lift(_eq0, (p,))
    if p.op == "num":
        return TRUE if p.args == (F0, F0) else FALSE
    if p.op == "opaque":
        return mk("truthy", p)
    if p.op == "zeros":
        return TRUE
    if is_int(p):
        if prove_pos(p) is True or prove_pos(neg(p)) is True:
            return FALSE
    md = monos(p)
    # canonical scale
    lead = min((m for m in md if m != ()), key=_mono_key)
    c = md[lead]
    n2 = c[0] ** 2 + c[1] ** 2
    inv = (c[0] / n2, -c[1] / n2)
    if inv != C1:
        p = mul(mk("num", *inv), p)
    return mk("eq0", p)


def isnone(t):
    if t.op == "gamma":
        return lift(isnone, (t,))
    if t is NONE:
        return TRUE
    if t.op in ("sym",):
        if t.args[1] in NOTNONE_KINDS or t.args[0] in NOTNONE:
            return FALSE
        return mk("isnone", t)
    if t.op in ("index", "app", "opaque", "fold"):
        if t.op == "app" and (t.args[0].startswith("ff.") or t.args[0] in NEVER_NONE):
            if t.args[0] in MAYBE_NONE:
                return mk("isnone", t)
            return FALSE
        if t.op == "app" and (t.args[0].startswith("np.") or t.args[0] in RANK_OF_APP or t.args[0] in SCALAR_APPS or t.args[0] in ELEMENTWISE):
            return FALSE
        return mk("isnone", t)
    return FALSE


NOTNONE_KINDS = {"mat", "vec", "col", "int", "list:mat", "list:any", "list:int", "scalar", "real"}
NOTNONE = set()
NEVER_NONE = set()
MAYBE_NONE = {"ff.permutation_to_matrix", "ff.generate_random_bitstring", "ff.generate_random_planar_graph", "ff.dt_eigen", "ff.complete_face"}


def close_const(d, tol):
    """whether a constant difference is within the tolerance; None when that depends on the size of the operands"""
    if d.args == (F0, F0):
        return True
    atol, rtol = Fraction(1, 10 ** 8), Fraction(1, 10 ** 5)
    for k, v in tol:
        if k not in ("atol", "rtol"):
            continue
        if v.op != "num" or v.args[1]:
            return None
        if k == "atol":
            atol = v.args[0]
        else:
            rtol = v.args[0]
    if max(abs(d.args[0]), abs(d.args[1])) > atol + 30 * rtol:
        return False
    if abs(d.args[0]) + abs(d.args[1]) <= atol:
        return True
    return None


def allclose(a, b, tol=()):
    if a.op == "gamma" or b.op == "gamma":
        return lift(lambda x, y: allclose(x, y, tol), (a, b))
    try:
        d = sub(a, b)
    except TooBig:
        d = opaque("allclose")
    if d.op == "gamma":
        return lift(lambda x: allclose(x, ZERO, tol), (d,))
    if d.op == "num":
        q = close_const(d, tol)
        return mk("allclose", d, tol) if q is None else TRUE if q else FALSE
    if d.op == "zeros":
        return TRUE
    if d.op == "app" and d.args[0] == "norm" and not d.args[2] and len(d.args[1]) == 1:
        d = d.args[1][0]
    md = monos(d)
    if not md:
        return TRUE
    lead = min(md, key=_mono_key)
    c = md[lead]
    # unit phase only: scale matters for a tolerance
    if c[1] == 0 and c[0] < 0:
        d = neg(d)
    elif c[0] == 0:
        d = mul(num(0, -1 if c[1] > 0 else 1), d)
    # z - re(z)  ==> i*im(z)
    md = monos(d)
    if len(md) == 2:
        for m, c in md.items():
            if len(m) == 1 and m[0][0].op == "fn" and m[0][0].args[0] == "re" and m[0][1] == F1 and abs(c[0]) == 1:
                z = m[0][0].args[1]
                if sub(z, m[0][0]) in (d, neg(d)):
                    d = fn("im", z)
                    break
    # z - conj(z) ==> im(z)
    if d.op == "poly" and len(d.args) == 2:
        for m, c in d.args:
            if len(m) == 1 and m[0][1] == F1 and m[0][0].op == "conj":
                z = m[0][0].args[0]
                if sub(z, m[0][0]) in (d, neg(d)):
                    d = fn("im", z)
                    break
    return mk("allclose", d, tol)


# ---------------------------------------------------------------- element-wise functions
_conj_arr = {}


def conj(t):
    if t.op == "gamma":
        return lift(conj, (t,))
    op = t.op
    if op == "opaque":
        return t
    if is_real(t):
        return t
    if op == "num":
        return mk("num", t.args[0], -t.args[1])
    if op == "conj":
        return t.args[0]
    if op == "poly":
        r = ZERO
        for m, c in t.args:
            x = mk("num", c[0], -c[1])
            for a, e in m:
                ca = conj(a)
                x = mul(x, power(ca, e if isinstance(e, T) else num(e)))
            r = add(r, x)
        return r
    if op == "group":
        return mk("group", conj(t.args[0])) if True else t
    if op == "dot":
        return dot([conj(a) for a in t.args])
    if op == "tr":
        return transpose(conj(t.args[0]))
    if op == "kron":
        return kron_segs([(conj(f), k) for f, k in t.args[0]])
    if op == "block":
        return block(tuple(tuple(conj(x) for x in r) for r in t.args[0]), t.args[1])
    if op == "arr":
        r = _conj_arr.get(t)
        if r is None:
            r = _conj_arr[t] = arr(t.args[0], tuple(conj(x) for x in t.args[1]))
        return r
    if op in ("comp", "bigsum", "bigprod", "bigdot", "bigkron"):
        v, lo, hi, body = open_binder(t)
        return bind(op, v, lo, hi, conj(body))
    if op == "index":
        b = conj(t.args[0])
        if b.op == "conj":
            return mk("conj", t)
        return index(b, t.args[1])
    if op == "fn" and t.args[0] in ("exp", "sin", "cos"):
        return fn(t.args[0], conj(t.args[1]))
    if op == "app" and t.args[0] in ("expm", "inv", "diagm", "diagv", "trace", "sumall", "diag", "det", "flatten", "prodall"):
        return app(t.args[0], tuple(conj(a) for a in t.args[1]), t.args[2])
    if op == "app" and t.args[0] in ("reshape", "triu", "tril", "flip"):
        return app(t.args[0], (conj(t.args[1][0]),) + t.args[1][1:], t.args[2])
    return mk("conj", t)


def fn(name, x):
    """element-wise function"""
    if x.op == "gamma":
        return lift(lambda y: fn(name, y), (x,))
    if x.op == "opaque":
        return x
    if name == "re":
        if is_real(x):
            return x
        if x.op == "num":
            return num(x.args[0])
        if x.op == "fn" and x.args[0] in REAL_FNS:
            return x
        if x.op == "poly":
            # real coefficients factor out of single monomials
            if len(x.args) == 1:
                (m, c), = x.args
                rf = [(a, e) for a, e in m if is_real(a)]
                cf = [(a, e) for a, e in m if not is_real(a)]
                if rf and cf:
                    return mul(from_monos({tuple(rf): C1}), fn("re", from_monos({tuple(cf): c})))
                if c != C1 and c[1] == 0:
                    return mul(num(c[0]), fn("re", from_monos({m: C1})))
                if c[0] == 0 and c[1] != 0:
                    return mul(num(-c[1]), fn("im", from_monos({m: C1})))
        if x.op == "dot":
            pass
        if x.op == "arr":
            return arr(x.args[0], tuple(fn("re", e) for e in x.args[1]))
        if x.op == "app" and x.args[0] in ("diagv", "diagm", "trace") and x.args[0] != "trace":
            return app(x.args[0], (fn("re", x.args[1][0]),), x.args[2])
        if x.op == "conj":
            return fn("re", x.args[0])
    if name == "im":
        if is_real(x):
            return zeros_like(x) if rank(x) not in (0, None) else ZERO
        if x.op == "num":
            return num(x.args[1])
        if x.op == "poly" and len(x.args) == 1:
            (m, c), = x.args
            rf = [(a, e) for a, e in m if is_real(a)]
            cf = [(a, e) for a, e in m if not is_real(a)]
            if not cf:
                return mul(num(c[1]), from_monos({m: C1}))
            if rf:
                return mul(from_monos({tuple(rf): C1}), fn("im", from_monos({tuple(cf): c})))
            if c != C1 and c[1] == 0:
                return mul(num(c[0]), fn("im", from_monos({m: C1})))
            if c[0] == 0 and c[1] != 0:
                return mul(num(c[1]), fn("re", from_monos({m: C1})))
        if x.op == "app" and x.args[0] in ("diagv",):
            return app(x.args[0], (fn("im", x.args[1][0]),), x.args[2])
        if x.op == "conj":
            return neg(fn("im", x.args[0]))
    if name == "abs":
        if x.op == "num":
            if x.args[1] == 0:
                return num(abs(x.args[0]))
            return power(num(x.args[0] ** 2 + x.args[1] ** 2), num(Fraction(1, 2)))
        if is_nonneg(x):
            return x
        if x.op == "conj":
            return fn("abs", x.args[0])
        if x.op == "poly":
            if len(x.args) == 1:
                (m, c), = x.args
                r = fn("abs", mk("num", *c))
                for a, e in m:
                    r = mul(r, power(fn("abs", a), e if isinstance(e, T) else num(e)))
                if not (len(m) == 1 and m[0][1] == F1 and c == C1):
                    return r
            else:
                md = dict(x.args)
                lead = min(md, key=_mono_key)
                c = md[lead]
                if c[1] == 0 and c[0] < 0:
                    return fn("abs", neg(x))
        if x.op == "arr":
            return arr(x.args[0], tuple(fn("abs", e) for e in x.args[1]))
    if name == "log":
        if x is ONE:
            return ZERO
        md = monos(x)
        if len(md) == 1:
            (m, c), = md.items()
            if c[1] == 0 and c[0] > 0 and (len(m) > 1 or c != C1 or (m and m[0][1] != F1)) and all(is_nonneg(a) or rank(a) is not None and is_real(a) for a, e in m) and m:
                if all(is_nonneg(a) for a, e in m):
                    r = fn("log", num(c[0]))
                    for a, e in m:
                        r = add(r, mul(e if isinstance(e, T) else num(e), fn("log", a)))
                    return r
            if m == () and c[1] == 0 and c[0] > 0 and c[0] != 1:
                fs = _factor_int(c[0].numerator)
                gs = _factor_int(c[0].denominator)
                if len(fs) + len(gs) > 1 or list(fs.values()) + list(gs.values()) != [1] or gs:
                    r = ZERO
                    for p, k in fs.items():
                        r = add(r, mul(num(k), mk("fn", "log", num(p))))
                    for p, k in gs.items():
                        r = add(r, mul(num(-k), mk("fn", "log", num(p))))
                    return r
    if name == "exp" and x is ZERO:
        return ONE
    if name in ("square",):
        return power(x, TWO)
    if name == "sqrt":
        return power(x, num(Fraction(1, 2)))
    if x.op == "comp" and name in ("re", "im", "abs", "exp", "log"):
        v, lo, hi, body = open_binder(x)
        return bind("comp", v, lo, hi, fn(name, body))
    if x.op == "zeros" and name in ("re", "abs", "round"):
        return x
    return mk("fn", name, x)


# ---------------------------------------------------------------- arrays
def arr(shape, entries):
    """explicit array with constant shape"""
    gs = [e for e in entries if e.op == "gamma"]
    if gs and len(set(g.args[0] for g in gs)) <= 3:
        return lift(lambda *xs: arr(shape, tuple(xs)), tuple(entries))
    if len(shape) == 2 and shape[0] == shape[1]:
        n = shape[0]
        d = entries[0]
        if all(entries[i * n + j] is (d if i == j else ZERO) for i in range(n) for j in range(n)):
            if d is ONE:
                return eye(num(n))
            if d is ZERO:
                return zeros((num(n), num(n)))
            if rank(d) == 0:
                return mul(d, eye(num(n)))
    if all(e is ZERO for e in entries) and entries:
        return zeros(tuple(num(s) for s in shape))
    # pull out a common numeric factor
    nz = [e for e in entries if e is not ZERO]
    if nz:
        md = monos(nz[0])
        lead = min(md, key=_mono_key)
        if isnum(nz[0]) and all(isnum(e) for e in nz):
            c = nz[0].args
            if c != C1:
                n2 = c[0] ** 2 + c[1] ** 2
                inv = mk("num", c[0] / n2, -c[1] / n2)
                a = mk("arr", shape, tuple(mul(inv, e) if e is not ZERO else e for e in entries))
                return _poly_raw({((a, F1),): c})
        elif all(len(monos(e)) == 1 for e in nz):
            # common surd factors
            ms = [list(monos(e).items())[0] for e in nz]
            common = set(ms[0][0])
            for m, c in ms[1:]:
                common &= set(m)
            common = {ae for ae in common if ae[0].op == "num"}
            c0 = ms[0][1]
            if common or c0 != C1:
                k = mul(mk("num", *c0), from_monos({tuple(sorted(common, key=lambda ae: ae[0].dig)): C1}) if common else ONE)
                ik = power(k, num(-1))
                a = mk("arr", shape, tuple(mul(ik, e) if e is not ZERO else e for e in entries))
                return mul(k, a) if a.args[1] != entries else a
    return mk("arr", shape, entries)


def arr_entries(t):
    """entries of an explicit array, including coefficient, or None: (shape, entries)"""
    if t.op == "arr":
        return t.args
    if t.op == "eye" and as_int(t.args[0]) is not None and as_int(t.args[0]) <= 8:
        n = as_int(t.args[0])
        return (n, n), tuple(ONE if i == j else ZERO for i in range(n) for j in range(n))
    if t.op == "zeros":
        s = [as_int(x) for x in t.args[0]]
        if all(x is not None for x in s):
            k = 1
            for x in s:
                k *= x
            if k <= 64:
                return tuple(s), (ZERO,) * k
    if t.op == "poly":
        shp, ent = None, None
        for m, c in t.args:
            s, r = _split_scalar(m)
            if len(r) != 1 or r[0][1] != F1:
                return None
            ae = arr_entries(r[0][0])
            if ae is None or (shp is not None and ae[0] != shp):
                return None
            k = _poly_raw({s: c})
            e2 = [mul(k, x) for x in ae[1]]
            shp = ae[0]
            ent = e2 if ent is None else [add(p, q) for p, q in zip(ent, e2)]
        return shp, tuple(ent)
    return None


def merge_explicit(t):
    """fold a linear combination of explicit arrays/eyes into one array"""
    if t.op == "poly" and len(t.args) > 1:
        ae = arr_entries(t)
        if ae is not None:
            return arr(*ae)
    return t


def eye(n):
    if n.op == "gamma":
        return lift(eye, (n,))
    return mk("eye", n)


def zeros(shape, dtype="float"):
    return mk("zeros", tuple(shape))


def zeros_like(t):
    if t.op == "zeros":
        return t
    if t.op == "eye":
        return zeros((t.args[0], t.args[0]))
    r = rank(t)
    if r in (1, 2):
        return zeros(tuple(dim(t, k) for k in range(r)))
    return mk("zeros", (dim(t, 0), dim(t, 1))) if r is None else zeros(())


def ones(shape):
    return mk("ones", tuple(shape))


def transpose(t):
    if t.op == "gamma":
        return lift(transpose, (t,))
    op = t.op
    if op == "opaque":
        return t
    r = rank(t)
    if r in (0, 1):
        return t
    if op == "tr":
        return t.args[0]
    if op == "poly":
        out = ZERO
        for m, c in t.args:
            x = mk("num", *c)
            for a, e in m:
                x = mul(x, power(transpose(a) if rank(a) != 0 else a, e if isinstance(e, T) else num(e)))
            out = add(out, x)
        return out
    if op == "dot":
        return dot([transpose(a) for a in reversed(t.args)])
    if op == "eye":
        return t
    if op == "zeros":
        return zeros(tuple(reversed(t.args[0])))
    if op == "kron":
        return kron_segs([(transpose(f), k) for f, k in t.args[0]])
    if op == "block":
        rows = t.args[0]
        return block(tuple(tuple(transpose(rows[i][j]) for i in range(len(rows))) for j in range(len(rows[0]))), (t.args[1][1], t.args[1][0]))
    if op == "arr":
        (n, m), ent = t.args
        return arr((m, n), tuple(ent[i * m + j] for j in range(m) for i in range(n)))
    if op == "comp" and t.args[3].op == "comp":
        v, lo, hi, b = open_binder(t)
        if b.op == "comp":
            w, lo2, hi2, b2 = open_binder(b)
            if v not in lo2.fvs and v not in hi2.fvs:
                return bind("comp", w, lo2, hi2, bind("comp", v, lo, hi, b2))
    if op in ("bigsum",):
        v, lo, hi, b = open_binder(t)
        return bind("bigsum", v, lo, hi, transpose(b))
    if op == "bigkron":
        v, lo, hi, b = open_binder(t)
        return bind("bigkron", v, lo, hi, transpose(b))
    if op == "app" and t.args[0] in ("expm", "inv", "logm"):
        return app(t.args[0], (transpose(t.args[1][0]),), t.args[2])
    if op == "app" and t.args[0] in ("diagm",):
        return t
    if op == "fn":
        return fn(t.args[0], transpose(t.args[1]))
    if op == "conj":
        return _tr_conj(t)
    return mk("tr", t)


def _tr_conj(t):
    """transpose of an atomic conjugate: the transpose stays outermost"""
    b = transpose(t.args[0])
    return mk("tr", t) if b.op == "tr" else conj(b)


def adj(t):
    return transpose(conj(t))


def dot(fs):
    fs = list(fs)
    if any(f.op == "gamma" for f in fs):
        return lift(lambda *xs: dot(xs), tuple(fs))
    for f in fs:
        if f.op == "opaque":
            return f
    # expand sums
    terms = [(C1, (), [])]
    for f in fs:
        f = merge_explicit(f)
        md = monos(f)
        if not md:
            return ZERO
        if any(not _split_scalar(m)[1] for m in md):
            # scalar summand broadcast: keep the factor whole
            if len(md) == 1 and rank(f) == 0:
                # scalar factor in a product chain (np.dot with a scalar)
                (m, c), = md.items()
                terms = [(_cmul(c, c0), s0 + m, fl) for c0, s0, fl in terms]
                continue
            new = []
            for c0, s0, fl in terms:
                new.append((c0, s0, fl + [mk("group", f)]))
            terms = new
            continue
        new = []
        for c0, s0, fl in terms:
            for m, c in md.items():
                s, r = _split_scalar(m)
                if len(r) == 1 and r[0][1] == F1:
                    a = r[0][0]
                else:
                    a = _poly_raw({r: C1})
                new.append((_cmul(c0, c), s0 + s, fl + [a]))
        terms = new
        if len(terms) > 600:
            raise TooBig("dot")
    out = ZERO
    for c, s, fl in terms:
        m, c = _norm_mono(list(s), c)
        coeff = _poly_raw({m: c})
        out = add(out, mul(coeff, _dot_atoms(fl)))
    return out


def _dot_atoms(fl):
    flat = []
    for a in fl:
        if a.op == "dot":
            flat.extend(a.args)
        else:
            flat.append(a)
    zs = [a for a in flat if a.op == "zeros"]
    if zs:
        sh = []
        if rank(flat[0]) != 1:
            sh.append(dim(flat[0], 0))
        if rank(flat[-1]) not in (1,):
            sh.append(dim(flat[-1], 1))
        return zeros(tuple(sh))
    changed = True
    while changed:
        changed = False
        for i, a in enumerate(flat):
            if a.op == "eye" and len(flat) > 1:
                flat = flat[:i] + flat[i + 1:]
                changed = True
                break
        if changed:
            continue
        for i in range(len(flat) - 1):
            p = _dot_pair(flat[i], flat[i + 1])
            if p is not None:
                if p.op in ("poly", "num", "gamma", "zeros"):
                    return dot(flat[:i] + [p] + flat[i + 2:])
                flat = flat[:i] + [p] + flat[i + 2:]
                changed = True
                break
    if len(flat) == 1:
        return flat[0]
    return mk("dot", *flat)


def _dot_pair(a, b):
    if a.op == "arr" and b.op == "arr" and len(a.args[0]) == 2 and len(b.args[0]) == 2 and a.args[0][1] == b.args[0][0]:
        n, k = a.args[0]
        m = b.args[0][1]
        return arr((n, m), tuple(addn([mul(a.args[1][i * k + l], b.args[1][l * m + j]) for l in range(k)]) for i in range(n) for j in range(m)))
    if a.op == "block" and b.op == "block" and a.args[1][1] == b.args[1][0]:
        A, B = a.args[0], b.args[0]
        return block(tuple(tuple(addn([dot([A[i][k], B[k][j]]) for k in range(len(B))]) for j in range(len(B[0]))) for i in range(len(A))), (a.args[1][0], b.args[1][1]))
    if a.op == "kron" and b.op == "kron":
        sa, sb = a.args[0], b.args[0]
        if [k for _, k in sa] == [k for _, k in sb] and all(_same_dims(f, g) for (f, _), (g, _) in zip(sa, sb)):
            return kron_segs([(dot([f, g]), k) for (f, k), (g, _) in zip(sa, sb)])
    if a.op == "app" and a.args[0] == "expm" and b.op == "app" and b.args[0] == "expm" and a.args[1][0] is neg(b.args[1][0]):
        return eye(dim(a.args[1][0], 0))
    u = UNITARY_PAIRS(a, b)
    if u is not None:
        return u
    return None


def UNITARY_PAIRS(a, b):
    return None


def _same_dims(f, g):
    ae, be = arr_entries(f), arr_entries(g)
    return ae is not None and be is not None and ae[0] == be[0]


def kron2(a, b):
    if a.op == "gamma" or b.op == "gamma":
        return lift(kron2, (a, b))
    for f in (a, b):
        if f.op == "opaque":
            return f
    a, b = merge_explicit(a), merge_explicit(b)
    ma, mb = monos(a), monos(b)
    if not ma or not mb:
        return ZERO
    out = ZERO
    for m1, c1 in ma.items():
        for m2, c2 in mb.items():
            s1, r1 = _split_scalar(m1)
            s2, r2 = _split_scalar(m2)
            m, c = _norm_mono(list(s1 + s2), _cmul(c1, c2))
            k = _poly_raw({m: c})
            fa = _mono_atom(r1)
            fb = _mono_atom(r2)
            if fa is None and fb is None:
                x = ONE
            elif fa is None:
                x = fb
            elif fb is None:
                x = fa
            else:
                x = kron_segs(_segs(fa) + _segs(fb))
            out = add(out, mul(k, x))
    return out


def _mono_atom(r):
    if not r:
        return None
    if len(r) == 1 and r[0][1] == F1:
        return r[0][0]
    return _poly_raw({r: C1})


def _segs(t):
    if t.op == "kron":
        return list(t.args[0])
    if t.op == "eye":
        e = log2_exact(t.args[0])
        if e is not None:
            return [(eye(TWO), e)]
    return [(t, ONE)]


def log2_exact(n):
    """exponent k with n == 2**k, symbolically"""
    md = monos(n)
    if len(md) != 1:
        return None
    (m, c), = md.items()
    if c[1] != 0 or c[0] <= 0:
        return None
    k = 0
    x = c[0]
    while x.numerator % 2 == 0:
        x /= 2
        k += 1
    while x.denominator % 2 == 0:
        x *= 2
        k -= 1
    if x != 1:
        return None
    e = num(k)
    for a, ex in m:
        if a is not TWO:
            return None
        e = add(e, ex if isinstance(ex, T) else num(ex))
    return e


def kron_segs(segs):
    # scalar extraction
    coeff = ONE
    out = []
    for f, k in segs:
        if f.op == "gamma":
            return lift(lambda *fs: kron_segs([(g, kk) for g, (_, kk) in zip(fs, segs)]), tuple(f for f, _ in segs))
        if k is ZERO:
            continue
        if f.op == "opaque":
            return f
        f = merge_explicit(f)
        md = monos(f)
        if len(md) == 1:
            (m, c), = md.items()
            s, r = _split_scalar(m)
            if (s or c != C1) and r:
                coeff = mul(coeff, power(_poly_raw({s: c}), k))
                f = _mono_atom(r)
            elif not r:
                coeff = mul(coeff, power(f, k))
                continue
        elif k is ONE:
            # distribute over a sum
            res = ZERO
            rest_before = out
            idx = [i for i, (g, kk) in enumerate(segs) if g is f or True]
            pos = None
            for i, (g, kk) in enumerate(segs):
                if g.op == "poly" and len(monos(merge_explicit(g))) > 1 and kk is ONE:
                    pos = i
                    break
            if pos is not None:
                g = merge_explicit(segs[pos][0])
                for m, c in monos(g).items():
                    res = add(res, kron_segs(list(segs[:pos]) + [(_poly_raw({m: c}), ONE)] + list(segs[pos + 1:])))
                return res
        if f.op == "zeros":
            return ZERO
        if f.op == "kron" and k is ONE:
            out.extend(f.args[0])
            continue
        if f.op == "eye":
            e = log2_exact(f.args[0])
            if e is not None:
                f, k = eye(TWO), mul(e, k)
        out.append((f, k))
    merged = []
    for f, k in out:
        if merged and merged[-1][0] is f:
            merged[-1] = (f, add(merged[-1][1], k))
        else:
            merged.append((f, k))
    merged = [(f, k) for f, k in merged if k is not ZERO]
    if not merged:
        return mul(coeff, eye(ONE)) if coeff is not ONE else ONE
    if all(f.op == "eye" for f, k in merged):
        n = ONE
        for f, k in merged:
            n = mul(n, power(f.args[0], k))
        return mul(coeff, eye(n))
    if len(merged) == 1 and merged[0][1] is ONE:
        return mul(coeff, merged[0][0])
    # explicit small products of explicit arrays stay as segments
    return mul(coeff, mk("kron", tuple(merged)))


def block(rows, part):
    """block matrix; part = (row sizes, col sizes)"""
    gs = [x for r in rows for x in r if x.op == "gamma"]
    if gs:
        flat = tuple(x for r in rows for x in r)
        w = len(rows[0])
        return lift(lambda *xs: block(tuple(tuple(xs[i * w + j] for j in range(w)) for i in range(len(rows))), part), flat)
    for r in rows:
        for x in r:
            if x.op == "opaque":
                return x
    rows = tuple(tuple(zeros((part[0][i], part[1][j])) if x is ZERO or x.op == "zeros" else x for j, x in enumerate(r)) for i, r in enumerate(rows))
    flat = [x for r in rows for x in r]
    if all(x.op == "zeros" for x in flat):
        return zeros((addn(part[0]), addn(part[1])))
    n = len(rows)
    if n == len(rows[0]) and all(part[0][i] is part[1][i] for i in range(n)):
        d = rows[0][0]
        ok = True
        coef = None
        for i in range(n):
            for j in range(n):
                x = rows[i][j]
                if i != j:
                    if x.op != "zeros":
                        ok = False
                else:
                    c = _eye_coeff(x)
                    if c is None:
                        ok = False
                    elif coef is None:
                        coef = c
                    elif coef is not c:
                        ok = False
        if ok and coef is not None:
            return mul(coef, eye(addn(part[0])))
    # common scalar factor
    nz = [x for x in flat if x.op != "zeros"]
    ms = [monos(x) for x in nz]
    if all(len(m) == 1 for m in ms):
        sc = []
        for m in ms:
            (mm, c), = m.items()
            s, r = _split_scalar(mm)
            sc.append((set(s), c))
        common = set(sc[0][0])
        for s, c in sc[1:]:
            common &= s
        c0 = sc[0][1]
        if common or c0 != C1:
            k = _poly_raw({tuple(sorted(common, key=lambda ae: ae[0].dig)): c0})
            ik = power(k, num(-1))
            new = tuple(tuple(x if x.op == "zeros" else mul(ik, x) for x in r) for r in rows)
            if new != rows:
                b = mk("block", new, part)
                return _times(k, b)
    return mk("block", rows, part)


def _times(k, b):
    md = monos(k)
    (m, c), = md.items()
    m2, c2 = _norm_mono(list(m) + [(b, F1)], c)
    return _poly_raw({m2: c2})


def _eye_coeff(x):
    md = monos(x)
    if len(md) != 1:
        return None
    (m, c), = md.items()
    s, r = _split_scalar(m)
    if len(r) == 1 and r[0][1] == F1 and r[0][0].op == "eye":
        return _poly_raw({s: c})
    return None


def trace(x):
    if x.op == "gamma":
        return lift(trace, (x,))
    if x.op == "opaque":
        return x
    md = monos(x)
    if len(md) != 1 or list(md.values())[0] != C1 or any(_split_scalar(m)[0] for m in md):
        out = ZERO
        for m, c in md.items():
            s, r = _split_scalar(m)
            a = _mono_atom(r)
            if a is None:
                return mk("app", "trace", (x,), ())
            out = add(out, mul(_poly_raw({s: c}), trace(a)))
        return out
    if x.op == "eye":
        return x.args[0]
    if x.op == "zeros":
        return ZERO
    if x.op == "tr":
        return trace(x.args[0])
    if x.op == "block" and x.args[1][0] == x.args[1][1]:
        return addn([trace(x.args[0][i][i]) for i in range(len(x.args[0]))])
    if x.op == "kron":
        r = ONE
        for f, k in x.args[0]:
            r = mul(r, power(trace(f), k))
        return r
    if x.op == "arr":
        n, m = x.args[0]
        return addn([x.args[1][i * m + i] for i in range(min(n, m))])
    if x.op == "comp" and x.args[3].op == "comp":
        v, lo, hi, b = open_binder(x)
        return bind("bigsum", v, lo, hi, index(b, (v,)))
    if x.op == "bigsum":
        v, lo, hi, b = open_binder(x)
        return bind("bigsum", v, lo, hi, trace(b))
    if x.op == "app" and x.args[0] == "diagm":
        return app("sumall", x.args[1], ())
    if x.op == "dot":
        cands = []
        for fs in (list(x.args), [transpose(a) for a in reversed(x.args)]):
            if any(f.op in ("poly", "num", "gamma") for f in fs):
                continue
            for i in range(len(fs)):
                cands.append(tuple(fs[i:] + fs[:i]))
        best = min(cands, key=lambda c: [a.dig for a in c])
        return mk("app", "trace", (mk("dot", *best),), ())
    t2 = transpose(x)
    if t2.op not in ("poly", "num", "gamma") and t2.dig < x.dig:
        x = t2
    return mk("app", "trace", (x,), ())


# ---------------------------------------------------------------- shapes, indexing
def dim(t, k):
    if t.op == "gamma":
        return lift(lambda x: dim(x, k), (t,))
    op = t.op
    if op == "opaque":
        return t
    if op == "eye":
        return t.args[0]
    if op in ("zeros", "ones"):
        if k < len(t.args[0]):
            return t.args[0][k]
        return mk("dim", t, k)
    if op == "arr":
        if k < len(t.args[0]):
            return num(t.args[0][k])
        return opaque("dim")
    if op == "dot":
        if k == 0:
            return dim(t.args[0], 0)
        return dim(t.args[-1], 1 if rank(t.args[-1]) != 1 else 0)
    if op == "tr":
        return dim(t.args[0], 1 - k)
    if op in ("conj",):
        return dim(t.args[0], k)
    if op == "fn":
        return dim(t.args[1], k)
    if op == "group":
        return dim(t.args[0], k)
    if op == "poly":
        best = None
        for m, c in t.args:
            for a, e in m:
                if rank(a) not in (0,):
                    d = dim(a, k)
                    if best is None or (d.op != "dim" and best.op == "dim") or (d.op == best.op and d.dig < best.dig):
                        best = d
        return best if best is not None else mk("dim", t, k)
    if op == "block":
        return addn(t.args[1][k])
    if op == "kron":
        r = ONE
        for f, c in t.args[0]:
            r = mul(r, power(dim(f, k), c))
        return r
    if op == "comp":
        if k == 0:
            return sub(t.args[2], t.args[1])
        v, lo, hi, b = open_binder(t)
        return dim(b, k - 1)
    if op in ("list",):
        if k == 0:
            return length(t)
        b = list_bodies(t)
        if b:
            return dim(b[0], k - 1)
    if op == "upd":
        return dim(t.args[0], k)
    if op in ("bigsum", "bigdot"):
        v, lo, hi, b = open_binder(t)
        d = dim(b, k)
        if v not in d.fvs:
            return d
        if op == "bigdot":
            return mk("dim", t, k)
    if op == "sym":
        if t in DIMS and k < len(DIMS[t]):
            return DIMS[t][k]
        if t in PREV_INIT:
            return dim(PREV_INIT[t], k)
        if t in SQUARE and k == 1:
            return dim(t, 0)
        if t.args[1] == "col" and k == 1:
            return ONE
        return mk("dim", t, k)
    if op == "index" and t.args[0] in ELEM_DIMS and len(t.args[1]) == 1 and t.args[1][0].op != "slice":
        d = ELEM_DIMS[t.args[0]]
        if k < len(d):
            return d[k]
    if op == "app":
        n = t.args[0]
        if n in ("expm", "logm", "inv", "sort", "triu", "tril", "abs", "sqrtm"):
            return dim(t.args[1][0], k)
        if n in ("diagm",):
            return dim(t.args[1][0], 0)
        if n == "diagv":
            return dim(t.args[1][0], 0)
        if n in SQUARE_APPS and k == 1:
            return dim(t, 0)
        if n in DIM_OF_APP:
            d = DIM_OF_APP[n](t, k)
            if d is not None:
                return d
        if n == "reshape":
            sh = t.args[1][1]
            if sh.op == "tuple" and k < len(sh.args) and not (sh.args[k].op == "num" and sh.args[k].args[0] < 0):
                return sh.args[k]
    if op == "draw":
        sh = t.args[4] if len(t.args) > 4 else None
        if sh and k < len(sh):
            return sh[k]
    if op == "index":
        base, idx = t.args
        br = base_rank(base)
        if isinstance(br, tuple) and len(idx) == 1 and idx[0].op != "slice" and rank(idx[0]) == 0:
            # element of a list of same-sized operators
            if base.op == "sym" and base.args[1] == "list:mat" or base.op == "app" and base.args[0] in LIST_APPS:
                if idx[0] is not ZERO:
                    return dim(index(base, (ZERO,)), 0)
                return mk("dim", t, 0)
        j = 0
        pos = 0
        for i in idx:
            if i.op == "slice":
                if j == k:
                    lo, hi, st = i.args
                    if st is ONE:
                        return sub(hi, lo)
                    return mk("dim", t, k)
                j += 1
            elif rank(i) == 0:
                pass
            else:
                return mk("dim", t, k)
            pos += 1
        if not isinstance(br, tuple) and br is not None:
            return dim(base, pos + (k - j)) if pos + (k - j) < br else mk("dim", t, k)
    return mk("dim", t, k)


PREV_INIT = {}
PREV_DT = {}   # loop placeholder -> dtype of the cell it stands for  # loop placeholder -> value with the same shape
SQUARE = set()
SQUARE_APPS = {"ff.cast_to_density_matrix", "ff.build_H", "ff.build_V", "ff.build_Omega", "ff.build_K", "ff.build_op"}
DIM_OF_APP = {}


def length(t):
    if t.op == "gamma":
        return lift(length, (t,))
    if t.op == "opaque":
        return t
    if t.op == "tuple":
        return num(len(t.args))
    if t.op == "str":
        return num(len(t.args[0]))
    if t.op == "list":
        n = ZERO
        for p in t.args[0]:
            if p.op == "lcomp":
                v, lo, hi, b = open_binder(p)
                if b.op == "gpart":
                    n = add(n, bind("bigsum", v, lo, hi, ite(b.args[0], ONE, ZERO)))
                elif b.op == "flat":
                    n = add(n, bind("bigsum", v, lo, hi, length(mk("list", b.args[0]))))
                else:
                    n = add(n, sub(hi, lo))
            elif p.op == "item":
                n = add(n, ONE)
            elif p.op == "spread":
                n = add(n, length(p.args[0]))
            else:
                return mk("len", t)
        return n
    if t in LENS:
        return LENS[t]
    if t.op == "sym" and t.args[1] in ("mat", "vec", "col"):
        return dim(t, 0)
    if rank(t) in (1, 2):
        return dim(t, 0)
    if t.op == "app" and t.args[0] in LEN_OF_APP:
        return LEN_OF_APP[t.args[0]](t)
    if t.op == "index" and len(t.args[1]) == 1 and t.args[1][0].op == "slice" and t.args[1][0].args[2] is ONE:
        return sub(t.args[1][0].args[1], t.args[1][0].args[0])
    if t.op in ("conj",):
        return length(t.args[0])
    if t.op == "index" and len(t.args[1]) == 1 and t.args[0].op == "app" and len(t.args[0].args[1]) >= 2 and t.args[0].args[0] in ("itertools.product", "itertools.combinations"):
        return t.args[0].args[1][1]
    return mk("len", t)


LEN_OF_APP = {}
CLS = {}       # symbol -> names of its classes (contract of a specification)


def list_bodies(t):
    out = []
    for p in t.args[0]:
        if p.op == "item":
            out.append(p.args[0])
        elif p.op == "lcomp":
            b = open_binder(p)[3]
            if b.op == "flat":
                out.extend(list_bodies(mk("list", b.args[0])))
                continue
            if b.op == "gpart":
                b = b.args[1]
            out.append(b)
        elif p.op == "spread":
            out.append(index(p.args[0], (ZERO,)))
    return out


def mkflat(parts):
    """body of a list comprehension that contributes several parts each time (a list as body is one element)"""
    r = mklist(parts)
    if r.op != "list":
        return mk("flat", (mk("spread", r),))
    ps = r.args[0]
    if len(ps) == 1 and ps[0].op == "item":
        return ps[0].args[0]
    return mk("flat", ps)


def mklist(parts):
    out = []
    for p in parts:
        if p.op == "gamma":
            p = spread(lift(lambda q: mklist([q]), (p,)))
        if p.op == "spread" and p.args[0].op == "list":
            out.extend(p.args[0].args[0])
        elif p.op == "spread" and p.args[0].op == "tuple":
            out.extend(item(x) for x in p.args[0].args)
        else:
            out.append(p)
    flat = []
    for p in out:
        if p.op == "lcomp" and p.args[1] is p.args[2]:
            continue
        if p.op == "lcomp" and isnum(p.args[1]) and isnum(p.args[2]):
            v, lo, hi, b = open_binder(p)
            n = as_int(hi) - as_int(lo)
            if n <= 0:
                continue
            if n <= 4 and b.op not in ("gpart",):
                for k in range(n):
                    x = subst(b, {v: num(as_int(lo) + k)})
                    if b.op == "flat" and x.op == "flat":
                        flat.extend(x.args[0])
                    else:
                        flat.append(item(x))
                continue
        flat.append(p)
    if len(flat) == 1 and flat[0].op == "spread":
        return flat[0].args[0]
    # whole-list comprehension of element i of X is X itself
    if len(flat) == 1 and flat[0].op == "lcomp":
        v, lo, hi, b = open_binder(flat[0])
        if b.op == "index" and len(b.args[1]) == 1 and b.args[1][0] is v and v not in b.args[0].fvs and lo is ZERO and hi is length(b.args[0]) and base_rank(b.args[0]).__class__ is tuple:
            return b.args[0]
    return mk("list", tuple(flat))


def item(x):
    return mk("item", x)


def spread(x):
    if x.op == "gamma":
        return mk("spread", x)
    return mk("spread", x)


def slc(lo, hi, st=ONE):
    return mk("slice", lo, hi, st)


def norm_slice(s, d):
    """resolve None / negative constant bounds against the dimension d"""
    lo, hi, st = s.args
    if st is NONE:
        st = ONE
    if st.op == "num" and st.args[0] < 0:
        return mk("slice", lo, hi, st)
    if lo is NONE:
        lo = ZERO
    if hi is NONE:
        hi = d
    if isnum(lo) and lo.args[0] < 0:
        lo = add(d, lo)
    if isnum(hi) and hi.args[0] < 0:
        hi = add(d, hi)
    return mk("slice", lo, hi, st)


def index(t, idx):
    """t[idx], idx a tuple of terms"""
    idx = tuple(idx)
    if t.op == "gamma" or any(i.op == "gamma" for i in idx):
        return lift(lambda *xs: index(xs[0], xs[1:]), (t,) + idx)
    if t.op == "opaque":
        return t
    for i in idx:
        if i.op == "opaque":
            return i
    op = t.op
    if len(idx) == 1 and idx[0].op == "tuple" and op not in ("list", "tuple"):
        return index(t, idx[0].args)
    if any(i.op == "ellipsis" for i in idx):
        if all(i.op == "ellipsis" for i in idx):
            return t
        return mk("index", t, idx)
    # normalise slices
    new = []
    for k, i in enumerate(idx):
        if i.op == "slice":
            need = any(x is NONE or (isnum(x) and x.args[0] < 0) for x in i.args[:2]) or i.args[2] is NONE
            if need:
                d = length(t) if op in ("list", "tuple") else dim(t, k)
                i = norm_slice(i, d)
        elif isnum(i) and i.args[1] == 0 and i.args[0] < 0 and op not in ("tuple",):
            d = length(t) if op == "list" else (dim(t, k) if base_rank(t).__class__ is not tuple else length(t))
            if d.op != "opaque":
                i = add(d, i)
        new.append(i)
    idx = tuple(new)
    # full slices on a known-rank value
    if idx and all(i.op == "slice" and i.args[0] is ZERO and i.args[2] is ONE and i.args[1] is (length(t) if op in ("list", "tuple") else dim(t, k)) for k, i in enumerate(idx)):
        return t
    if op == "str" and len(idx) == 1 and as_int(idx[0]) is not None:
        s = t.args[0]
        k = as_int(idx[0])
        if -len(s) <= k < len(s):
            return string(s[k])
    if op == "tuple":
        k = as_int(idx[0])
        if k is not None:
            n = len(t.args)
            if -n <= k < n:
                r = t.args[k]
                return index(r, idx[1:]) if len(idx) > 1 else r
            return opaque("tuple index")
        if idx[0].op == "slice":
            a, b, c = [as_int(x) for x in idx[0].args]
            if None not in (a, b, c):
                return mk("tuple", *t.args[a:b:c])
        lst = mklist([item(x) for x in t.args])
        return index(lst, idx)
    if op == "list":
        r = _list_index(t, idx[0])
        if r is not None:
            return index(r, idx[1:]) if len(idx) > 1 else r
        return mk("index", t, idx)
    if op == "index":
        # chained indexing x[i][j] == x[i, j] for arrays
        base, i0 = t.args
        br = base_rank(base)
        if all(i.op not in ("slice", "newaxis") and rank(i) == 0 for i in i0):
            return mk("index", base, i0 + idx)
        # slice of slice (constant step 1)
        if len(i0) == len(idx) and all(i.op in ("slice",) or rank(i) == 0 for i in i0):
            out = []
            ok = True
            rem = list(idx)
            for i in i0:
                if i.op == "slice" and i.args[2] is ONE:
                    j = rem.pop(0)
                    if j.op == "slice" and j.args[2] is ONE:
                        out.append(mk("slice", add(i.args[0], j.args[0]), add(i.args[0], j.args[1]), ONE))
                    elif j.op != "slice" and rank(j) == 0:
                        out.append(add(i.args[0], j))
                    else:
                        ok = False
                        break
                else:
                    ok = False
                    break
            if ok:
                return index(base, tuple(out) + tuple(rem))
    if op == "comp":
        i = idx[0]
        v, lo, hi, b = open_binder(t)
        if i.op != "slice" and rank(i) == 0:
            r = subst(b, {v: add(i, lo)}) if lo is not ZERO else subst(b, {v: i})
            return index(r, idx[1:]) if len(idx) > 1 else r
        if i.op == "slice" and i.args[2] is ONE:
            w = fresh(ZERO, sub(i.args[1], i.args[0]))
            body = subst(b, {v: add(w, add(i.args[0], lo))})
            if len(idx) > 1:
                body = index(body, idx[1:])
            return bind("comp", w, ZERO, sub(i.args[1], i.args[0]), body)
    if op == "arr":
        shape, ent = t.args
        ks = [as_int(i) if i.op != "slice" else tuple(as_int(x) for x in i.args) for i in idx]
        if all(k is not None and (not isinstance(k, tuple) or None not in k) for k in ks) and len(ks) <= len(shape):
            ks = ks + [(0, shape[j], 1) for j in range(len(ks), len(shape))]
            sel, osh = [], []
            import itertools
            for k, s in zip(ks, shape):
                if isinstance(k, tuple):
                    r = list(range(s))[k[0]:k[1]:k[2]]
                    sel.append(r)
                    osh.append(len(r))
                else:
                    if not -s <= k < s:
                        return opaque("index out of range")
                    sel.append([k % s])
            out = []
            for combo in itertools.product(*sel):
                f = 0
                for k, s in zip(combo, shape):
                    f = f * s + k
                out.append(ent[f])
            if not osh:
                return out[0]
            return arr(tuple(osh), tuple(out))
    if op == "eye" and len(idx) == 2 and all(i.op != "slice" and rank(i) == 0 for i in idx):
        return ite(eq(idx[0], idx[1]), ONE, ZERO)
    if op == "zeros" and all(i.op != "slice" and rank(i) == 0 for i in idx):
        if len(idx) == len(t.args[0]):
            return ZERO
        if len(idx) < len(t.args[0]):
            return zeros(t.args[0][len(idx):])
    if op == "ones" and all(i.op != "slice" and rank(i) == 0 for i in idx) and len(idx) == len(t.args[0]):
        return ONE
    if op in ("zeros", "ones") and all(i.op == "slice" and i.args[2] is ONE for i in idx):
        sh = tuple(sub(i.args[1], i.args[0]) for i in idx) + t.args[0][len(idx):]
        return mk(op, sh)
    if op == "poly":
        out = ZERO
        for m, c in t.args:
            x = mk("num", *c)
            for a, e in m:
                y = index(a, idx) if rank(a) != 0 else a
                x = mul(x, power(y, e if isinstance(e, T) else num(e)))
            out = add(out, x)
        return out
    if op == "group":
        return index(t.args[0], idx)
    if op in ("conj",):
        return conj(index(t.args[0], idx))
    if op == "tr" and len(idx) == 2:
        return index_tr(t, idx)
    if op == "fn":
        return fn(t.args[0], index(t.args[1], idx))
    if op == "app" and t.args[0] == "diagv" and len(idx) == 1 and idx[0].op != "slice" and rank(idx[0]) == 0:
        return index(t.args[1][0], (idx[0], idx[0]))
    if op == "app" and t.args[0] == "shape" and as_int(idx[0]) is not None:
        return dim(t.args[1][0], as_int(idx[0]))
    if op == "app" and t.args[0] == "diagm" and len(idx) == 2 and all(i.op != "slice" and rank(i) == 0 for i in idx):
        return ite(eq(idx[0], idx[1]), index(t.args[1][0], (idx[0],)), ZERO)
    if op == "block" and len(idx) == 2:
        r = _block_index(t, idx)
        if r is not None:
            return r
    if op == "upd":
        r = upd_read(t, idx)
        if r is not None:
            return r
    # constant slices of a matrix become explicit arrays
    if len(idx) == 2 and all(i.op == "slice" for i in idx) and rank(t) == 2:
        ks = [tuple(as_int(x) for x in i.args) for i in idx]
        if all(None not in k for k in ks):
            r0, r1 = list(range(*ks[0])), list(range(*ks[1]))
            if 0 < len(r0) * len(r1) <= 36:
                return arr((len(r0), len(r1)), tuple(index(t, (num(a), num(b))) for a in r0 for b in r1))
    if op == "bigsum" and all(i.op != "slice" for i in idx):
        v, lo, hi, b = open_binder(t)
        return bind("bigsum", v, lo, hi, index(b, idx))
    return mk("index", t, idx)


def index_tr(t, idx):
    a = t.args[0]
    if all(i.op != "slice" and rank(i) == 0 for i in idx):
        return index(a, (idx[1], idx[0]))
    if all(i.op == "slice" for i in idx):
        return transpose(index(a, (idx[1], idx[0])))
    return index(a, (idx[1], idx[0]))


def _block_index(t, idx):
    rows, (pr, pc) = t.args
    if all(i.op == "slice" and i.args[2] is ONE for i in idx):
        sel = []
        for i, part in zip(idx, (pr, pc)):
            cuts = [ZERO]
            for s in part:
                cuts.append(add(cuts[-1], s))
            a = [k for k, c in enumerate(cuts) if c is i.args[0]]
            b = [k for k, c in enumerate(cuts) if c is i.args[1]]
            if not a or not b:
                return None
            sel.append((a[0], b[-1]))
        (a, b), (c, d) = sel
        if b - a == 1 and d - c == 1:
            return rows[a][c]
        return block(tuple(tuple(rows[i][j] for j in range(c, d)) for i in range(a, b)), (pr[a:b], pc[c:d]))
    if all(i.op != "slice" and rank(i) == 0 for i in idx):
        # locate by proof
        pos = []
        for i, part in zip(idx, (pr, pc)):
            off = ZERO
            found = None
            for k, s in enumerate(part):
                end = add(off, s)
                if le(off, i) is TRUE and lt(i, end) is TRUE:
                    found = (k, off)
                    break
                off = end
            if found is None:
                return None
            pos.append(found)
        (r, ro), (c, co) = pos
        return index(rows[r][c], (sub(idx[0], ro), sub(idx[1], co)))
    return None


def _list_index(t, i):
    parts = t.args[0]
    if i.op == "slice":
        a, b, c = [as_int(x) for x in i.args]
        if all(p.op == "item" for p in parts) and None not in (a, b, c):
            return mk("list", tuple(parts[a:b:c]))
        if i.args[2] is ONE:
            # cut at part boundaries
            off = ZERO
            out = []
            started = i.args[0] is ZERO
            for p in parts:
                if not started and off is i.args[0]:
                    started = True
                if off is i.args[1]:
                    return mklist(out)
                if p.op == "item":
                    n = ONE
                else:
                    n = length(mk("list", (p,)))
                if started:
                    out.append(p)
                off = add(off, n)
            if started and off is i.args[1]:
                return mklist(out)
            if len(parts) == 1 and parts[0].op == "lcomp":
                v, lo, hi, b = open_binder(parts[0])
                if b.op not in ("gpart", "flat"):
                    n = sub(i.args[1], i.args[0])
                    w = fresh(ZERO, n)
                    return mklist([bind("lcomp", w, ZERO, n, subst(b, {v: add(w, add(lo, i.args[0]))}))])
        return None
    off = ZERO
    k = as_int(i)
    cand = []
    for p in parts:
        if p.op == "item":
            n, el = ONE, p.args[0]
        elif p.op == "lcomp":
            v, lo, hi, b = open_binder(p)
            if b.op in ("gpart", "flat"):
                return None
            n = sub(hi, lo)
            el = subst(b, {v: add(sub(i, off), lo)})
        elif p.op == "spread":
            n = length(p.args[0])
            el = index(p.args[0], (sub(i, off),))
        else:
            return None
        if k is not None and k < 0:
            return None
        end = add(off, n)
        cand.append((end, el))
        off = end
    if not cand:
        return opaque("index of empty list")
    r = cand[-1][1]
    for end, el in reversed(cand[:-1]):
        r = ite(lt(i, end), el, r)
    return r


# ---------------------------------------------------------------- element updates
def upd(base, entries):
    """array with element assignments; entries are 'set' or nested 'ucomp' terms"""
    if base.op == "gamma":
        return lift(lambda b: upd(b, entries), (base,))
    if base.op == "opaque":
        return base
    for k, e in enumerate(entries):
        if e.op == "gamma":
            return lift(lambda z: upd(base, tuple(entries[:k]) + (z,) + tuple(entries[k + 1:])), (e,))
    if base.op == "upd":
        entries = base.args[1] + tuple(entries)
        base = base.args[0]
    # drop overwritten entries, order provably disjoint ones
    ents = []
    for e in entries:
        if e.op == "set":
            ents = [x for x in ents if not (x.op == "set" and x.args[0] == e.args[0])]
        ents.append(e)
    ents = _order_entries(ents)
    r = _upd_normal(base, ents)
    if r is not None:
        return r
    return mk("upd", base, tuple(ents))


def _set_of(e):
    while e.op in ("ucomp", "gpart"):
        e = e.args[3] if e.op == "ucomp" else e.args[1]
    return e


def _disjoint(e1, e2):
    try:
        i1, i2 = _open_all(e1), _open_all(e2)
    except Exception:
        return False
    if len(i1) != len(i2):
        return False
    for a, b in zip(i1, i2):
        if a.op == "slice" and b.op == "slice":
            if a.args[2] is ONE and b.args[2] is ONE:
                if le(a.args[1], b.args[0]) is TRUE or le(b.args[1], a.args[0]) is TRUE:
                    return True
        elif a.op != "slice" and b.op != "slice":
            if eq(a, b) is FALSE:
                return True
        else:
            s, x = (a, b) if a.op == "slice" else (b, a)
            if s.args[2] is ONE and (lt(x, s.args[0]) is TRUE or le(s.args[1], x) is TRUE):
                return True
    if len(i1) == 2 and all(x.op != "slice" for x in i1 + i2):
        d1, d2 = sub(i1[0], i1[1]), sub(i2[0], i2[1])
        if eq(d1, d2) is FALSE:
            return True
    return False


def _open_all(e):
    while e.op in ("ucomp", "gpart"):
        if e.op == "gpart":
            e = e.args[1]
        else:
            v, lo, hi, e = open_binder(e)
    return e.args[0]


def _order_entries(ents):
    out = list(ents)
    n = len(out)
    if n > 40:
        return out
    for i in range(n):
        for j in range(n - 1 - i):
            if out[j].dig > out[j + 1].dig and _disjoint(out[j], out[j + 1]):
                out[j], out[j + 1] = out[j + 1], out[j]
    return out


def _const_fill(v):
    """scalar c when the array v is c everywhere"""
    if v.op == "zeros":
        return ZERO
    if v.op == "ones":
        return ONE
    if v.op == "comp":
        w, lo, hi, b = open_binder(v)
        if w not in b.fvs:
            return b if rank(b) == 0 else _const_fill(b)
        return None
    if v.op == "poly":
        os = [a for m, c in v.args for a, e in m if rank(a) != 0]
        if os and all(a.op == "ones" for a in os) and all(sum(1 for a, e in m if a.op == "ones" and e == F1) == 1 for m, c in v.args):
            return _poly_raw({tuple(ae for ae in m if ae[0].op != "ones"): c for m, c in v.args}) if len({tuple(ae for ae in m if ae[0].op != "ones") for m, c in v.args}) == len(v.args) else None
    return None


def _upd_normal(base, ents):
    if any(e.op == "set" and any(i.op == "slice" for i in e.args[0]) and rank(e.args[1]) in (1, 2) and _const_fill(e.args[1]) is not None for e in ents):
        new = []
        for e in ents:
            if e.op == "set" and any(i.op == "slice" for i in e.args[0]) and rank(e.args[1]) in (1, 2):
                c = _const_fill(e.args[1])
                if c is not None:
                    e = mk("set", e.args[0], c)
            new.append(e)
        return upd(base, tuple(new))
    # whole-array overwrite
    for k in range(len(ents) - 1, -1, -1):
        e = ents[k]
        if e.op == "set" and e.args[0] and all(i.op == "slice" and i.args[0] is ZERO and i.args[2] is ONE and i.args[1] is dim(base, p) for p, i in enumerate(e.args[0])) and rank(base) == len(e.args[0]):
            v = e.args[1]
            if rank(v) == rank(base):
                rest = ents[k + 1:]
                return upd(v, tuple(rest)) if rest else v
    ae = arr_entries(base)
    if ae is not None and all(e.op == "set" for e in ents):
        shape, ent = ae
        ent = list(ent)
        ok = True
        for e in ents:
            ks = [as_int(i) for i in e.args[0]]
            if len(ks) == 1 and len(shape) == 2 and shape[1] == 1 and ks[0] is not None and rank(e.args[1]) == 0:
                ks = [ks[0], 0]
            if len(ks) != len(shape) or None in ks or rank(e.args[1]) not in (0,):
                ok = False
                break
            f = 0
            for k, s in zip(ks, shape):
                if not -s <= k < s:
                    return opaque("store out of range")
                f = f * s + (k % s)
            ent[f] = e.args[1]
        if ok:
            return arr(shape, tuple(ent))
    # single element of a column vector: index (k,) == (k, 0)
    if rank(base) == 2 and dim(base, 1) is ONE:
        ch = False
        new = []
        for e in ents:
            if e.op == "set" and len(e.args[0]) == 1 and e.args[0][0].op != "slice":
                e = mk("set", (e.args[0][0], ZERO), e.args[1])
                ch = True
            new.append(e)
        if ch:
            return upd(base, tuple(new))
    if base not in PREV_INIT and rank(base) == 2 and ents and all(e.op == "set" and len(e.args[0]) == 2 and all(i.op == "slice" and i.args[2] is ONE for i in e.args[0]) for e in ents):
        r = _upd_blocks(base, ents)
        if r is not None:
            return r
    # base array fully overwritten by one comprehension in index order
    if len(ents) == 1 and ents[0].op == "ucomp":
        r = _ucomp_to_comp(base, ents[0])
        if r is not None:
            return r
    # sparse additions on top of an array known to vanish there
    if base.op != "zeros" and ents:
        zero_there = all(_zero_at(base, e) for e in ents)
        if zero_there:
            z = zeros((dim(base, 0), dim(base, 1))) if rank(base) == 2 else zeros((dim(base, 0),))
            return add(base, upd(z, tuple(ents)))
    if base.op == "zeros" and len(ents) > 1 and all(_disjoint(ents[i], ents[j]) for i in range(len(ents)) for j in range(i)):
        return addn([upd(base, (e,)) for e in ents])
    if base.op == "zeros" and len(ents) == 1:
        # pull scalar coefficients out of a single sparse pattern
        e = ents[0]
        vs = []
        x = e
        while x.op == "ucomp":
            v, lo, hi, x = open_binder(x)
            vs.append((v, lo, hi))
        val = x.args[1]
        if len(vs) == 1 and x.args[0] == (vs[0][0], vs[0][0]) and vs[0][1] is ZERO and vs[0][2] is dim(base, 0) and dim(base, 0) is dim(base, 1) and rank(val) == 0:
            # all diagonal entries written
            if vs[0][0] not in val.fvs:
                return mul(val, mk("eye", dim(base, 0)))
            return app("diagm", (bind("comp", vs[0][0], ZERO, vs[0][2], val),), ())
        if rank(val) == 0 and val.op not in ("gamma",):
            md = monos(val)
            if val is ZERO:
                return base
            if len(md) == 1:
                (m, c), = md.items()
                out_f = tuple((a, ex) for a, ex in m if not any(v in a.fvs or (isinstance(ex, T) and v in ex.fvs) for v, _, _ in vs))
                in_f = tuple((a, ex) for a, ex in m if (a, ex) not in out_f)
                if out_f or c != C1:
                    inner = mk("set", x.args[0], _poly_raw({in_f: C1}))
                    for v, lo, hi in reversed(vs):
                        inner = bind("ucomp", v, lo, hi, inner)
                    return mul(_poly_raw({out_f: c}), upd(base, (inner,)))
            elif len(md) > 1:
                out = []
                for m, c in md.items():
                    inner = mk("set", x.args[0], _poly_raw({m: c}))
                    for v, lo, hi in reversed(vs):
                        inner = bind("ucomp", v, lo, hi, inner)
                    out.append(upd(base, (inner,)))
                return addn(out)
    return None


def _zero_at(base, e):
    x = e
    while x.op == "ucomp":
        v, lo, hi, x = open_binder(x)
    idx = x.args[0]
    if any(i.op == "slice" for i in idx):
        return False
    return _vanishes(base, idx)


def _vanishes(t, idx):
    if t.op == "zeros":
        return True
    if t.op == "eye" or (t.op == "app" and t.args[0] == "diagm"):
        return len(idx) == 2 and eq(idx[0], idx[1]) is FALSE
    if t.op == "poly":
        return all(any(_vanishes(a, idx) for a, e in m if rank(a) == 2 or a.op == "upd") for m, c in t.args)
    if t.op == "upd" and t.args[0].op == "zeros":
        probe = mk("set", tuple(idx), ZERO)
        return all(_disjoint(probe, e) for e in t.args[1])
    return False


def _ucomp_to_comp(base, e):
    vs = []
    x = e
    while x.op == "ucomp":
        v, lo, hi, x = open_binder(x)
        vs.append((v, lo, hi))
    if x.op != "set":
        return None
    idx, val = x.args
    if not all(i.op == "fv" for i in idx) or len(set(idx)) != len(idx):
        return None
    m = {v: (lo, hi) for v, lo, hi in vs}
    if set(idx) != set(m) or len(vs) != len(idx):
        return None
    if rank(base) is not None and rank(base) != len(idx):
        # rows of a matrix assigned as a whole
        if not (rank(base) == 2 and len(idx) == 1):
            return None
    for p, i in enumerate(idx):
        lo, hi = m[i]
        if lo is not ZERO or hi is not dim(base, p):
            return None
        if any(w in lo.fvs or w in hi.fvs for w in m):
            return None
    r = val
    for i in reversed(idx):
        lo, hi = m[i]
        r = bind("comp", i, lo, hi, r)
    return r


def _upd_blocks(base, ents):
    """zeros/any base with slice stores that tile a grid -> block matrix"""
    d = (dim(base, 0), dim(base, 1))
    cuts = []
    for ax in (0, 1):
        pts = [ZERO, d[ax]]
        for e in ents:
            for p in e.args[0][ax].args[:2]:
                if p not in pts:
                    pts.append(p)
        # order by proof
        out = []
        for p in pts:
            k = 0
            placed = False
            for k in range(len(out)):
                r = lt(p, out[k])
                if r is TRUE:
                    out.insert(k, p)
                    placed = True
                    break
                if r is not FALSE:
                    # try the weak order through non-negativity of sizes
                    if _sure_nonneg(sub(out[k], p)):
                        out.insert(k, p)
                        placed = True
                        break
                    if _sure_nonneg(sub(p, out[k])):
                        continue
                    return None
            if not placed:
                out.append(p)
        cuts.append(out)
    R, Cc = cuts
    if len(R) > 5 or len(Cc) > 5:
        return None
    rows = []
    for i in range(len(R) - 1):
        row = []
        for j in range(len(Cc) - 1):
            val = None
            for e in reversed(ents):
                a, b = e.args[0]
                ai, bi = R.index(a.args[0]), R.index(a.args[1])
                ci, di = Cc.index(b.args[0]), Cc.index(b.args[1])
                if ai <= i < bi and ci <= j < di:
                    v = e.args[1]
                    if bi - ai == 1 and di - ci == 1:
                        if rank(v) == 0:
                            v = mul(v, ones((sub(R[i + 1], R[i]), sub(Cc[j + 1], Cc[j])))) if v is not ZERO else zeros((sub(R[i + 1], R[i]), sub(Cc[j + 1], Cc[j])))
                        val = v
                    else:
                        val = index(v, (slc(sub(R[i], R[ai]), sub(R[i + 1], R[ai])), slc(sub(Cc[j], Cc[ci]), sub(Cc[j + 1], Cc[ci]))))
                    break
            if val is None:
                val = index(base, (slc(R[i], R[i + 1]), slc(Cc[j], Cc[j + 1])))
            row.append(val)
        rows.append(tuple(row))
    pr = tuple(sub(R[i + 1], R[i]) for i in range(len(R) - 1))
    pc = tuple(sub(Cc[i + 1], Cc[i]) for i in range(len(Cc) - 1))
    return block(tuple(rows), (pr, pc))


def _sure_nonneg(t):
    return _sure_pos(add(t, ONE)) or (t.op == "poly" and is_nonneg(t))


def upd_read(t, idx):
    """read one element through known-disjoint or equal stores"""
    if any(i.op == "slice" for i in idx):
        return None
    for e in reversed(t.args[1]):
        if e.op == "set":
            if e.args[0] == idx:
                return e.args[1]
            if _disjoint(mk("set", tuple(idx), ZERO), e):
                continue
            # same arity, decide by equality of indices
            if len(e.args[0]) == len(idx) and all(i.op != "slice" for i in e.args[0]):
                c = TRUE
                for a, b in zip(idx, e.args[0]):
                    c = b_and(c, eq(a, b))
                rest = upd(t.args[0], t.args[1][: t.args[1].index(e)]) if t.args[1].index(e) else t.args[0]
                if e is t.args[1][-1]:
                    return ite(c, e.args[1], index(rest, idx))
            return None
        else:
            if _disjoint(mk("set", tuple(idx), ZERO), e):
                continue
            return None
    return index(t.args[0], idx)


# ---------------------------------------------------------------- apps
def elementwise(c):
    """a comparison applied to every element of an array"""
    return c.op in ("lt", "eq0") and rank(c.args[0]) != 0 and not is_int(c.args[0])


def scalar_gate(x):
    """a gate of the decision tree x that is not applied element by element"""
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if y in seen or y.op != "gamma":
            continue
        seen.add(y)
        if not elementwise(y.args[0]):
            return y.args[0]
        todo += [y.args[1], y.args[2]]
    return None


def mask(x):
    """decision tree over tests of array elements -> elementwise and, or, not"""
    if x.op != "gamma" or not is_bool(x) or scalar_gate(x) is not None:
        return x
    c, a, b = x.args[0], mask(x.args[1]), mask(x.args[2])
    if a is TRUE:
        return c if b is FALSE else _lg("lor", c, b)
    if b is FALSE:
        return c if a is TRUE else _lg("land", c, a)
    n = app("lnot", (c,))
    if a is FALSE:
        return n if b is TRUE else _lg("land", n, b)
    if b is TRUE:
        return _lg("lor", n, a)
    return _lg("lor", _lg("land", c, a), _lg("land", n, b))


def _lg(op, a, b):
    return app(op, tuple(sorted((a, b), key=lambda z: z.dig)))


def gamma2(c, a, b):
    return ite(c, a, b)


def app(name, args, kw=()):
    args = tuple(args)
    if name == "trace":
        return trace(args[0])
    if name == "sumall" and len(args) == 1 and not kw and is_bool(args[0]) and (elementwise(args[0]) or args[0].op == "gamma" and scalar_gate(args[0]) is None):
        name = "count_nonzero"
    if name == "count_nonzero" and not kw and args[0].op == "gamma" and args[0].args[0].op == "eq0" and args[0].args[1:] == (FALSE, TRUE) and elementwise(args[0].args[0]):
        args = (args[0].args[0].args[0],)
    if any(a.op == "gamma" for a in args) and not any(a.op == "lam" for a in args):
        if name in ("anyall", "allall", "count_nonzero"):
            # a test of each element cannot leave the quantifier
            c = scalar_gate(args[0])
            if c is not None:
                return gamma2(c, app(name, (cof(args[0], c, True),), kw), app(name, (cof(args[0], c, False),), kw))
        elif len({a.args[0] for a in args if a.op == "gamma"}) <= 6:
            return lift(lambda *xs: app(name, xs, kw), args)
    for a in args:
        if a.op == "opaque":
            return a
    for k, v in kw:
        if v.op == "opaque":
            return v
    h = APP_RULES.get(name)
    if h is not None:
        r = h(args, kw)
        if r is not None:
            return r
    return mk("app", name, args, tuple(kw))


APP_RULES = {}


# ---------------------------------------------------------------- binders
def bind(op, v, lo, hi, body, *extra):
    """close a binder over the free variable v ranging over [lo, hi)"""
    if op in ("bigsum", "bigprod", "comp", "lcomp", "bigkron", "bigdot", "exists", "ucomp", "fold", "firstof"):
        for x in (lo, hi):
            if x.op == "gamma" and op != "fold":
                return lift(lambda a, b: bind(op, v, a, b, body, *extra), (lo, hi))
        if body.op == "opaque":
            return body
        if lo.op == "opaque":
            return lo
        if hi.op == "opaque":
            return hi
    if lo is not ZERO and lo is not None and op in SHIFTABLE and is_int(lo):
        # canonical ranges start at zero
        n = sub(hi, lo)
        w = fresh(ZERO, n)
        m = {v: add(w, lo)}
        return bind(op, w, ZERO, n, subst(body, m), *[subst(e, m) if isinstance(e, T) else e for e in extra])
    h = BIND_RULES.get(op)
    if h is not None:
        r = h(v, lo, hi, body)
        if r is not None:
            return r
    return close(op, v, lo, hi, body, *extra)


SHIFTABLE = {"bigsum", "bigprod", "lcomp", "exists", "ucomp", "bigkron", "bigdot", "fold"}


def close(op, v, lo, hi, body, *extra):
    l = max([body.lvl, lo.lvl if lo is not None else 0, hi.lvl if hi is not None else 0] + [e.lvl for e in extra if isinstance(e, T)]) + 1
    b = mk("bv", l)
    body2 = _subst_raw(body, v, b)
    ex2 = tuple(_subst_raw(e, v, b) if isinstance(e, T) else e for e in extra)
    return mk(op, l, lo, hi, body2, *ex2)


_syms = {}


def syms_of(t):
    """set of symbols occurring in t"""
    r = _syms.get(t)
    if r is None:
        if t.op == "sym":
            r = frozenset([t])
        else:
            s = set()
            _walk(t.args, lambda x: s.update(syms_of(x)))
            r = frozenset(s)
        _syms[t] = r
    return r


_sub_memo = {}


def _subst_raw(t, v, w):
    """replace the free variable v by w, rebuilding without re-normalising order-insensitive parts"""
    return subst(t, {v: w})


def open_binder(t):
    """(v, lo, hi, body) with a fresh variable"""
    l, lo, hi, body = t.args[:4]
    v = fresh(lo, hi)
    return v, lo, hi, subst(body, {mk("bv", l): v})


def open_binder_with(t, v):
    l, lo, hi, body = t.args[:4]
    return subst(body, {mk("bv", l): v})


def subst(t, m):
    """capture-free substitution of variables/leaf terms"""
    memo = {}
    keys = set(m)
    kfv = frozenset(k for k in keys if k.op == "fv")
    onlyfv = len(kfv) == len(keys)

    def go(x):
        if x in m:
            return m[x]
        if onlyfv and not (x.fvs & kfv):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def subst_term(t, old, new):
    memo = {}

    def go(x):
        if x is old:
            return new
        if x.size < old.size:
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def rebuild(t, go):
    """rebuild t with go applied to its children, re-normalising"""
    op, a = t.op, t.args
    if op in ("num", "sym", "fv", "bv", "str", "none", "true", "false", "opaque", "ellipsis", "newaxis", "pytype"):
        return t
    if op == "gpart":
        return gpart(go(a[0]), go(a[1]))
    if op == "poly":
        ch = False
        for m, c in a:
            for x, e in m:
                if go(x) is not x or (isinstance(e, T) and go(e) is not e):
                    ch = True
        if not ch:
            return t
        out = ZERO
        for m, c in a:
            y = mk("num", *c)
            for x, e in m:
                y = mul(y, power(go(x), go(e) if isinstance(e, T) else num(e)))
            out = add(out, y)
        return out
    if op == "group":
        n = go(a[0])
        if n is a[0]:
            return t
        return n if len(monos(n)) == 1 else (mk("group", n) if n.op == "poly" else n)
    if op in BINDERS:
        l, lo, hi, body = a[:4]
        bvt = mk("bv", l)
        nlo = go(lo) if lo is not None else None
        nhi = go(hi) if hi is not None else None
        v = fresh(nlo, nhi)
        # open first so that inner occurrences are renamed apart
        ob = subst_bv(body, bvt, v)
        nb = go(ob)
        ex = tuple(go(subst_bv(e, bvt, v)) if isinstance(e, T) else e for e in a[4:])
        if nlo is lo and nhi is hi and nb is ob and ex == tuple(subst_bv(e, bvt, v) if isinstance(e, T) else e for e in a[4:]):
            return t
        if op in ("lam", "fold"):
            return close(op, v, nlo, nhi, nb, *ex)
        return bind(op, v, nlo, nhi, nb, *ex)
    new = _map(a, go)
    if new == a:
        return t
    if op == "dot":
        return dot(new)
    if op == "tr":
        return transpose(new[0])
    if op == "conj":
        return conj(new[0])
    if op == "fn":
        return fn(new[0], new[1])
    if op == "kron":
        return kron_segs(list(new[0]))
    if op == "block":
        return block(new[0], new[1])
    if op == "arr":
        return arr(new[0], new[1])
    if op == "eye":
        return eye(new[0])
    if op == "zeros":
        return mk("zeros", new[0])
    if op == "gamma":
        return ite(new[0], new[1], new[2])
    if op == "lt":
        return _lt0(new[0])
    if op == "eq0":
        return _eq0(new[0])
    if op == "isnone":
        return isnone(new[0])
    if op == "truthy":
        return truth(new[0])
    if op == "allclose":
        return allclose(new[0], ZERO, new[1])
    if op == "index":
        return index(new[0], new[1])
    if op == "dim":
        return dim(new[0], new[1])
    if op == "len":
        return length(new[0])
    if op == "list":
        return mklist(new[0])
    if op == "flat":
        return mkflat(new[0])
    if op == "upd":
        return upd(new[0], new[1])
    if op == "app":
        return app(new[0], new[1], new[2])
    return mk(op, *new)


def _map(a, go):
    return tuple(go(x) if isinstance(x, T) else (_map(x, go) if isinstance(x, tuple) else x) for x in a)


_bvmemo = {}


def subst_bv(t, bvt, v):
    if t.lvl < bvt.args[0] and not _has_bv(t, bvt):
        return t
    return subst(t, {bvt: v})


def _has_bv(t, bvt):
    k = (t, bvt)
    r = _bvmemo.get(k)
    if r is None:
        if t is bvt:
            r = True
        else:
            r = False
            st = [t.args]
            while st and not r:
                x = st.pop()
                for y in x:
                    if isinstance(y, T):
                        if _has_bv(y, bvt):
                            r = True
                            break
                    elif isinstance(y, tuple):
                        st.append(y)
        _bvmemo[k] = r
    return r


BIND_RULES = {}


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.args
    if op == "num":
        re, im = a
        if im == 0:
            return str(re)
        if re == 0:
            return f"{im}j"
        return f"({re}+{im}j)"
    if op == "str":
        return repr(a[0])
    if op == "sym":
        return a[0]
    if op == "fv":
        return f"v{a[0]}"
    if op == "bv":
        return f"_{a[0]}"
    if op == "poly":
        out = []
        for m, c in a:
            f = "·".join(s(x) + ("" if e == F1 else f"^{s(e) if isinstance(e, T) else e}") for x, e in m)
            cs = show(mk("num", *c))
            out.append(f if c == C1 and f else (cs if not f else (("-" + f) if c == (-F1, F0) else cs + "·" + f)))
        return "(" + " + ".join(out) + ")"
    if op == "dot":
        return "(" + " @ ".join(s(x) for x in a) + ")"
    if op == "tr":
        return s(a[0]) + ".T"
    if op == "conj":
        return f"conj({s(a[0])})"
    if op == "gamma":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "lt":
        return f"0<{s(a[0])}"
    if op == "eq0":
        return f"{s(a[0])}==0"
    if op == "fn":
        return f"{a[0]}({s(a[1])})"
    if op == "app":
        return f"{a[0]}(" + ", ".join([s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]) + ")"
    if op == "index":
        return f"{s(a[0])}[" + ", ".join(s(i) for i in a[1]) + "]"
    if op == "slice":
        return f"{s(a[0])}:{s(a[1])}" + ("" if a[2] is ONE else ":" + s(a[2]))
    if op in BINDERS and op not in ("lam", "fold"):
        return f"{op}[_{a[0]} in {s(a[1])}..{s(a[2])}]({s(a[3])})"
    if op in ("list", "flat"):
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if op == "item":
        return s(a[0])
    if op == "dim":
        return f"{s(a[0])}.shape[{a[1]}]"
    if op == "kron":
        return "⊗(" + ", ".join(f"{s(f)}^{s(k)}" for f, k in a[0]) + ")"

    def sa(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ",".join(sa(y) for y in x) + ")"
        return str(x)

    return f"{op}(" + ", ".join(sa(x) for x in a) + ")"


def children(t):
    out = []
    _walk(t.args, out.append)
    return out
