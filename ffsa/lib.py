"""Models of numpy / scipy / math / itertools / builtins as normal-form terms."""
from fractions import Fraction
from . import terms as t
from . import rules as R
from .terms import (T, mk, num, string, ZERO, ONE, TWO, NONE, TRUE, FALSE, F1, add, sub, mul, div, neg, power, ite, lt, le, eq, b_and, b_or, b_not,
                    truth, rank, opaque, item, spread, mklist, subst, bind, fresh, index, length, dim, upd, as_int, is_real, is_int)

HALF = num(Fraction(1, 2))

ALIAS = {
    "numpy.matmul": "numpy.dot", "numpy.identity": "numpy.eye", "numpy.conjugate": "numpy.conj", "numpy.absolute": "numpy.abs", "math.fabs": "numpy.abs",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.around": "numpy.round", "numpy.round_": "numpy.round", "numpy.asanyarray": "numpy.asarray",
    "numpy.ascontiguousarray": "numpy.asarray", "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp", "math.log": "numpy.log", "math.log2": "numpy.log2",
    "math.log10": "numpy.log10", "math.cos": "numpy.cos", "math.sin": "numpy.sin", "cmath.exp": "numpy.exp", "cmath.sqrt": "numpy.csqrt", "numpy.concat": "numpy.concatenate",
    "scipy.linalg.norm": "numpy.linalg.norm", "scipy.linalg.det": "numpy.linalg.det", "scipy.linalg.inv": "numpy.linalg.inv", "scipy.linalg.eigvals": "numpy.linalg.eigvals",
    "scipy.linalg.eigvalsh": "numpy.linalg.eigvalsh", "scipy.linalg.eigh": "numpy.linalg.eigh", "scipy.linalg.svd": "numpy.linalg.svd", "scipy.linalg.qr": "numpy.linalg.qr",
    "math.prod": "numpy.prod", "scipy.special.factorial": "math.factorial", "math.floor": "numpy.floor0", "math.ceil": "numpy.ceil0",
    "numpy.true_divide": "numpy.divide", "numpy.linalg.multi_dot": "numpy.multi_dot", "operator.matmul": "numpy.dot", "operator.mul": "numpy.multiply", "operator.add": "operator.add",
    "numpy.ma.allclose": "numpy.allclose", "numpy.linalg.trace": "numpy.trace", "numpy.linalg.diagonal": "numpy.diagonal",
    "numpy.float_power": "numpy.power", "math.pow": "numpy.power", "builtins.pow": "numpy.power", "scipy.linalg.kron": "numpy.kron", "numpy.complex_": "builtins.complex",
    "numpy.complex128": "builtins.complex", "numpy.cdouble": "builtins.complex", "numpy.float64": "builtins.float", "numpy.double": "builtins.float",
    "numpy.int64": "builtins.int", "numpy.int_": "builtins.int", "numpy.bool_": "builtins.bool", "math.isclose": "numpy.isclose",
    "numpy.random.random": "numpy.random.random_sample",
}

INF = mk("app", "inf", (), ())
PI = mk("app", "pi", (), ())
CONSTS = {
    "numpy.pi": PI, "math.pi": PI, "numpy.inf": INF, "math.inf": INF, "numpy.newaxis": NONE, "numpy.e": t.fn("exp", ONE), "math.e": t.fn("exp", ONE),
}
t.EXTRA_REAL.update({"pi", "inf"})
t.RANK_OF_APP.update({"pi": 0, "inf": 0, "where": lambda x: rank(x.args[1][-1]), "fancy_store": lambda x: rank(x.args[1][0]), "select": 1, "np.empty": lambda x: len(x.args[1][0].args),
                      "matrix_power": 2, "like_cast": lambda x: rank(x.args[1][0]), "rev": lambda x: rank(x.args[1][0]), "schur_T": 2, "schur_Z": 2, "qr_q": 2, "qr_r": 2,
                      "svd_u": 2, "svd_vh": 2, "svd_s": 1, "eigh_v": 2, "eig_v": 2, "eig_w": 1, "vdot": 0, "fancy": None, "full": lambda x: len(x.args[1][0].args),
                      "block_diag": 2, "cast_int": lambda x: rank(x.args[1][0]), "concat": 1, "roundn": lambda x: rank(x.args[1][0]), "matrix_rank": 0})
t.EXTRA_REAL.update({"matrix_rank", "roundn", "svd_s"})
t.EXTRA_REAL.discard("roundn")
t.DIM_OF_APP["np.empty"] = lambda a, k: a.args[1][0].args[k] if k < len(a.args[1][0].args) else None
t.DIM_OF_APP["full"] = t.DIM_OF_APP["np.empty"]
t.DIM_OF_APP["where"] = lambda a, k: dim(a.args[1][-1], k)
t.DIM_OF_APP["fancy_store"] = lambda a, k: dim(a.args[1][0], k)
for _n in ("flip", "rev", "roundn", "cast_int", "like_cast", "schur_T", "schur_Z", "eigh_v", "qr_q"):
    t.DIM_OF_APP[_n] = lambda a, k: dim(a.args[1][0], k)
for _n in ("eigvals", "eigvalsh"):
    t.DIM_OF_APP[_n] = lambda a, k: dim(a.args[1][0], 0) if k == 0 else None
t.DIM_OF_APP["argsort"] = lambda a, k: dim(a.args[1][0], k)
t.SQUARE_APPS.update({"schur_T", "schur_Z", "eigh_v"})


def canon(d):
    while d in ALIAS:
        d = ALIAS[d]
    if d.startswith("scipy.linalg.") and d[13:] in ("expm", "logm", "schur", "block_diag", "sqrtm"):
        return "scipy.linalg." + d[13:]
    return d


LIB = {}


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


# ------------------------------------------------------------- figures
# what a figure shows: its curves by label (diag and eigenvalues), their number, scale of the y axis, title
FIGURE = {"diag(\u03c1)": -101, "eigenvalues": -102, "count": -103, "yscale": -104, "title": -105}
PLT = "matplotlib.pyplot."
UNSHOWN = {"xlabel", "ylabel", "legend", "grid", "tight_layout", "show", "draw", "minorticks_on", "xticks", "yticks"}


def record(st):
    from .vflow import Cell
    for k, i in FIGURE.items():
        st.heap[i] = Cell("fig", ZERO if k == "count" else NONE, None)
    return NONE


def figure(st):
    return mk("tuple", *[st.heap[i].val for i in FIGURE.values()])


def drawing(I, st, name, args, kw):
    """a drawing call while a figure is observed"""
    from .vflow import Cell

    def put(k, v):
        st.heap[FIGURE[k]] = Cell("fig", v, None)

    def lost():
        for k in FIGURE:
            put(k, opaque("figure"))
        return opaque("figure")
    if name in UNSHOWN:
        return NONE
    if name == "title" and len(args) == 1:
        put("title", I.tv(st, args[0]))
        return NONE
    if name == "yscale" and len(args) == 1 and not kw:
        put("yscale", I.tv(st, args[0]))
        return NONE
    if name not in ("stem", "plot", "semilogy") or not 1 <= len(args) <= 3:
        return lost()
    args = list(args)
    while args and isinstance(args[-1], T) and args[-1].op == "str":
        args.pop()
    lab = I.tv(st, kw["label"]) if "label" in kw else NONE
    if len(args) not in (1, 2) or lab.op != "str" or lab.args[0] not in ("diag(\u03c1)", "eigenvalues") or set(kw) & {"bottom", "scalex", "scaley", "data", "xdata", "ydata", "alpha", "visible"}:
        return lost()
    y = R.to_array(I.tv(st, args[-1]))
    x = args[0] if len(args) == 2 else call(I, st, "builtins.range", [length(y)], {})
    x = R.to_array(I.tv(st, _list(I, st, [x], {})))
    put(lab.args[0], mk("tuple", string("stem" if name == "stem" else "line"), x, y))
    put("count", add(st.heap[FIGURE["count"]].val, ONE))
    if name == "semilogy":
        put("yscale", string("log"))
    return opaque("artist")


def call(I, st, name, args, kw):
    name = canon(name)
    if name.startswith("matplotlib.") and FIGURE["count"] in st.heap or name == PLT + "ffsa_record":
        n = name[len(PLT):] if name.startswith(PLT) else name
        return record(st) if n == "ffsa_record" else figure(st) if n == "ffsa_figure" else drawing(I, st, n, args, kw)
    f = LIB.get(name)
    if any(isinstance(a, T) and a.op == "star" for a in args) and name not in ("itertools.product", "itertools.chain", "builtins.zip", "numpy.result_type", "numpy.linalg.multi_dot", "builtins.print"):
        return opaque("star call " + name)
    if f is not None:
        r = f(I, st, args, kw)
        if r is not None:
            return r
    ts = [I.tv(st, a) for a in args]
    ks = tuple((k, I.tv(st, v)) for k, v in sorted(kw.items()))
    if name.startswith("networkx.") and name.split(".")[-1].startswith(("add_", "set_", "remove_", "relabel_", "contracted_", "double_", "swap", "connected_double", "stochastic", "inverse_")):
        for a in args:
            if getattr(a, "id", None) is not None and a.id in st.heap and st.heap[a.id].kind == "graph":
                I.set_cell(st, a, opaque("graph changed by " + name))
    short = name
    for p, q in (("networkx.", "nx."), ("numpy.", "np.")):
        if name.startswith(p):
            short = q + name[len(p):]
    return t.app(short, tuple(ts), ks)


def tvs(I, st, args):
    return [I.tv(st, a) for a in args]


# ------------------------------------------------------------- dtypes
def dtype(I, st, v):
    from .vflow import Clo
    if v is None or v is NONE:
        return None
    if isinstance(v, Clo):
        if v.kind == "lib":
            n = canon(v.a)
            return {"builtins.complex": "complex", "builtins.float": "float", "builtins.int": "int", "builtins.bool": "bool", "builtins.object": "obj",
                    "numpy.complex64": None, "numpy.float32": "float", "numpy.int8": "int", "numpy.int32": "int", "numpy.uint8": "int"}.get(n)
        return None
    return dtype_term(I.tv(st, v))


def dtype_term(x):
    if x.op == "gamma":
        a, b = dtype_term(x.args[1]), dtype_term(x.args[2])
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple):
            return ("like", a[1] | b[1])
        return None
    if x.op == "str":
        return {"complex": "complex", "complex128": "complex", "float": "float", "float64": "float", "int": "int", "int64": "int", "bool": "bool", "D": "complex", "d": "float"}.get(x.args[0])
    if x.op == "app" and x.args[0] == ".dtype":
        return ("like", frozenset(dt_root(y) for y in x.args[1]))
    if x.op == "app" and x.args[0] == "result_type":
        s = set()
        for a in x.args[1]:
            if a.op == "pyfn":
                d = {"builtins.complex": "complex", "builtins.float": "float", "builtins.int": "int"}.get(a.args[0])
                if d == "complex":
                    return "complex"
                if d == "float":
                    s.add(mk("str", "float"))
            elif a.op == "spread":
                s.add(a.args[0])
            elif a.op == "app" and a.args[0] == ".dtype":
                s.update(a.args[1])
            else:
                s.add(a)
        return ("like", frozenset(dt_root(y) for y in s))
    return None


def dt_root(x):
    """term with the same dtype, smaller"""
    while x.op in ("conj", "tr") or (x.op == "index" and isinstance(rank(x), int)) or (x.op == "app" and x.args[0] in ("triu", "tril", "flip", "reshape", "diagv", "diagm")):
        if x.op == "index" and x.args[0].op == "list":
            break
        x = x.args[1][0] if x.op == "app" else x.args[0]
    return x


def arr_ref(I, st, val, dt):
    return I.new(st, "arr", val, dt)


def shape_tuple(x):
    if x.op == "tuple":
        return x.args
    its = R.list_items(x) if x.op == "list" else None
    if its is not None:
        return tuple(its)
    if x.op == "app" and x.args[0] == "shape":
        a = x.args[1][0]
        r = rank(a)
        if isinstance(r, int):
            return tuple(dim(a, k) for k in range(r))
        return None
    if rank(x) == 0:
        return (x,)
    return None


def _mkfill(kind):
    def f(I, st, args, kw):
        sh = shape_tuple(I.tv(st, args[0] if args else kw.get("shape", NONE)))
        dt = dtype(I, st, kw.get("dtype", args[1] if len(args) > 1 else None))
        if sh is None:
            return opaque("shape")
        if any(s.op == "gamma" for s in sh):
            return arr_ref(I, st, t.lift(lambda *s: mk(kind, tuple(s)), tuple(sh)), dt or "float")
        return arr_ref(I, st, mk(kind, tuple(sh)), dt or "float")
    return f


LIB["numpy.zeros"] = _mkfill("zeros")
LIB["numpy.ones"] = _mkfill("ones")


@lib("numpy.empty")
def _empty(I, st, args, kw):
    sh = shape_tuple(I.tv(st, args[0]))
    dt = dtype(I, st, kw.get("dtype", args[1] if len(args) > 1 else None))
    if sh is None:
        return opaque("shape")
    return arr_ref(I, st, t.app("np.empty", (mk("tuple", *sh),), ()), dt or "float")


@lib("numpy.full")
def _full(I, st, args, kw):
    sh = shape_tuple(I.tv(st, args[0]))
    v = I.tv(st, args[1] if len(args) > 1 else kw.get("fill_value"))
    if sh is None:
        return opaque("shape")
    if v is ZERO:
        return mk("zeros", sh)
    return arr_ref(I, st, mul(v, mk("ones", sh)), dtype(I, st, kw.get("dtype")))


@lib("numpy.zeros_like", "numpy.empty_like", "numpy.ones_like")
def _zl(I, st, args, kw):
    x = I.tv(st, args[0])
    dt = dtype(I, st, kw.get("dtype", args[1] if len(args) > 1 else None))
    if dt is None:
        dt = like_dt(I, st, args[0])
    return arr_ref(I, st, t.lift(t.zeros_like, (x,)) if x.op == "gamma" else t.zeros_like(x), dt)


@lib("numpy.ones_like")
def _ol(I, st, args, kw):
    x = I.tv(st, args[0])
    r = rank(x)
    if r not in (1, 2):
        return opaque("ones_like")
    return arr_ref(I, st, t.ones(tuple(dim(x, k) for k in range(r))), like_dt(I, st, args[0]))


LIB["numpy.empty_like"] = lambda I, st, args, kw: opaque("empty_like")


def like_dt(I, st, v):
    from .vflow import Ref
    if isinstance(v, Ref) and v.id in st.heap:
        c = st.heap[v.id]
        if c.kind == "view":
            return like_dt(I, st, c.val[0])
        if c.dt is not None:
            return c.dt
    x = I.tv(st, v)
    if x.op in ("eye", "zeros", "ones"):
        return "float"
    return ("like", frozenset([dt_root(x)]))


@lib("numpy.array", "numpy.asarray", "numpy.matrix", "numpy.asmatrix")
def _array(I, st, args, kw):
    from .vflow import Ref
    x = I.tv(st, args[0])
    dt = dtype(I, st, kw.get("dtype", args[1] if len(args) > 1 else None))
    y = R.to_array(x)
    if y.op == "app" and y.args[0] in ("zip", "enumerate", "arange"):
        if y.args[0] == "arange":
            pass
    if dt in ("int", "float", "bool"):
        y = I.cast(y, dt) if dt != "float" or is_real(y) else y
    if dt is None:
        ae = t.arr_entries(y) if y.op in ("arr", "eye", "poly", "zeros") else None
        if ae is not None and x.op in ("list", "tuple"):
            if all(is_int(e) for e in ae[1]):
                dt = "int"
            elif all(is_real(e) for e in ae[1]):
                dt = "float"
            else:
                dt = "complex"
        elif isinstance(args[0], Ref) and rank(y) is not None:
            dt = st.heap[args[0].id].dt if st.heap[args[0].id].kind == "arr" else None
        elif y.op == "sym":
            dt = ("like", frozenset([dt_root(y)]))
    if rank(y) == 0:
        return y
    return arr_ref(I, st, y, dt)


@lib("numpy.copy")
def _copy(I, st, args, kw):
    return m_copy(I, st, args[0], args[1:], kw)


@lib("copy.copy", "copy.deepcopy")
def _copy2(I, st, args, kw):
    return m_copy(I, st, args[0], args[1:], kw)


@lib("numpy.eye")
def _eye(I, st, args, kw):
    ts = tvs(I, st, args)
    if len(ts) > 1 and ts[1] not in (NONE, ts[0]) or "k" in kw or "M" in kw or len(ts) > 2:
        k = I.tv(st, kw["k"]) if "k" in kw else (ts[2] if len(ts) > 2 else ZERO)
        m = I.tv(st, kw["M"]) if "M" in kw else (ts[1] if len(ts) > 1 else NONE)
        if m in (NONE, ts[0]):
            return shifted_eye(ts[0], k)
        return None
    n = ts[0] if ts else I.tv(st, kw.get("N", kw.get("n", NONE)))
    return arr_ref(I, st, t.eye(n), dtype(I, st, kw.get("dtype")) or "float")


def shifted_eye(n, k):
    """np.eye(n, k=k): ones where j == i + k"""
    kk = as_int(k)
    if kk is None:
        return opaque("eye k")
    if kk == 0:
        return t.eye(n)
    m = sub(n, num(abs(kk)))
    v = fresh(ZERO, m)
    idx = (v, add(v, k)) if kk > 0 else (add(v, num(-kk)), v)
    return upd(t.zeros((n, n)), (bind("ucomp", v, ZERO, m, mk("set", idx, ONE)),))


@lib("numpy.diag", "numpy.diagonal", "numpy.diagflat")
def _diag(I, st, args, kw):
    x = R.to_array(I.tv(st, args[0]))
    k = I.tv(st, kw["k"]) if "k" in kw else (I.tv(st, args[1]) if len(args) > 1 else ZERO)
    if k is not ZERO:
        kk = as_int(k)
        if kk is not None and rank(x) == 1:
            m = length(x)
            n = add(m, num(abs(kk)))
            v = fresh(ZERO, m)
            idx = (v, add(v, k)) if kk > 0 else (add(v, num(-kk)), v)
            return upd(t.zeros((n, n)), (bind("ucomp", v, ZERO, m, mk("set", idx, index(x, (v,)))),))
        if kk is not None and rank(x) == 2 and t.dim(x, 0) is t.dim(x, 1):
            m = sub(t.dim(x, 0), num(abs(kk)))
            v = fresh(ZERO, m)
            return bind("comp", v, ZERO, m, index(x, (v, add(v, k)) if kk > 0 else (add(v, num(-kk)), v)))
        return None
    return t.app("diag", (x,), ())


@lib("numpy.trace")
def _trace(I, st, args, kw):
    if kw or len(args) > 1:
        return None
    return t.trace(I.tv(st, args[0]))


@lib("numpy.dot", "numpy.inner")
def _dot(I, st, args, kw):
    ts = [R.to_array(x) for x in tvs(I, st, args)]
    if len(ts) != 2:
        return None
    if any(rank(x) == 0 for x in ts):
        return mul(*ts)
    return t.dot(ts)


@lib("numpy.multi_dot")
def _mdot(I, st, args, kw):
    x = I.tv(st, args[0])
    its = R.list_items(x)
    if its is None:
        return None
    return t.dot(its)


@lib("numpy.vdot")
def _vdot(I, st, args, kw):
    a, b = tvs(I, st, args)
    if rank(a) == 1 and rank(b) == 1:
        return t.dot([t.conj(a), b])
    if rank(a) == 2 and rank(b) == 2:
        return t.trace(t.dot([t.adj(a), b]))
    return None


@lib("numpy.outer")
def _outer(I, st, args, kw):
    a, b = tvs(I, st, args)
    col = lambda x: x if rank(x) == 2 and dim(x, 1) is ONE else t.app("reshape", (x, mk("tuple", num(-1), ONE)), ())
    return t.dot([col(a), t.transpose(col(b))])


@lib("numpy.kron")
def _kron(I, st, args, kw):
    a, b = [R.to_array(x) for x in tvs(I, st, args)]
    return t.kron2(a, b)


def elementwise(name):
    def f(I, st, args, kw):
        if kw and set(kw) - {"dtype"}:
            return None
        x = R.to_array(I.tv(st, args[0]))
        return t.fn(name, x)
    return f


for _n, _f in (("real", "re"), ("imag", "im"), ("abs", "abs"), ("exp", "exp"), ("log", "log"), ("cos", "cos"), ("sin", "sin"), ("sign", "sign"), ("floor", "floor"),
               ("ceil", "ceil"), ("angle", "angle"), ("rint", "round")):
    LIB["numpy." + _n] = elementwise(_f)
LIB["builtins.abs"] = elementwise("abs")
LIB["numpy.conj"] = lambda I, st, args, kw: t.conj(R.to_array(I.tv(st, args[0])))


@lib("numpy.floor0")
def _fl0(I, st, args, kw):
    return t.app("int", (t.fn("floor", I.tv(st, args[0])),), ()) if not is_int(I.tv(st, args[0])) else I.tv(st, args[0])


@lib("numpy.ceil0")
def _ce0(I, st, args, kw):
    x = I.tv(st, args[0])
    return x if is_int(x) else t.app("ceil0", (x,), ())


@lib("numpy.log")
def _log(I, st, args, kw):
    x = I.tv(st, args[0])
    if len(args) == 2:
        b = I.tv(st, args[1])
        return t.app("log2", (x,), ()) if b is TWO else div(t.fn("log", x), t.fn("log", b))
    return t.fn("log", R.to_array(x))


@lib("numpy.log2")
def _log2(I, st, args, kw):
    x = I.tv(st, args[0])
    return t.app("log2", (x,), ())


@lib("numpy.log10")
def _log10(I, st, args, kw):
    return t.app("log10", (I.tv(st, args[0]),), ())


t.RANK_OF_APP["log10"] = lambda x: rank(x.args[1][0])
t.RANK_OF_APP["log2"] = lambda x: rank(x.args[1][0])


@lib("numpy.sqrt")
def _sqrt(I, st, args, kw):
    return power(R.to_array(I.tv(st, args[0])), HALF)


@lib("numpy.square")
def _square(I, st, args, kw):
    return power(R.to_array(I.tv(st, args[0])), TWO)


@lib("numpy.power")
def _power(I, st, args, kw):
    if len(args) != 2:
        return None
    return t.app("pow", tuple(tvs(I, st, args)), ())


def arith(f):
    def g(I, st, args, kw):
        if kw:
            return None
        a, b = [R.to_array(x) for x in tvs(I, st, args)]
        return f(a, b)
    return g


LIB["numpy.multiply"] = arith(mul)
LIB["numpy.add"] = arith(add)
LIB["operator.add"] = lambda I, st, args, kw: I.binop(__import__("ast").Add(), args[0], args[1], st)
LIB["numpy.subtract"] = arith(sub)
LIB["operator.sub"] = arith(sub)
LIB["numpy.divide"] = arith(div)
LIB["operator.truediv"] = arith(div)
LIB["numpy.logical_and"] = arith(lambda a, b: R.logic("land", a, b) if t.is_bool(a) and t.is_bool(b) else None)
LIB["numpy.logical_or"] = arith(lambda a, b: R.logic("lor", a, b) if t.is_bool(a) and t.is_bool(b) else None)
LIB["numpy.logical_not"] = lambda I, st, args, kw: (lambda x: R.logic("lnot", x) if t.is_bool(x) and len(args) == 1 and not kw else None)(I.tv(st, args[0]))
LIB["numpy.negative"] = lambda I, st, args, kw: neg(I.tv(st, args[0]))
LIB["numpy.floor_divide"] = arith(lambda a, b: t.app("floordiv", (a, b), ()))
LIB["numpy.mod"] = arith(lambda a, b: t.app("mod", (a, b), ()))
LIB["numpy.maximum"] = arith(lambda a, b: t.app("max", (a, b), ()) if rank(a) == 0 and rank(b) == 0 else t.app("maximum", (a, b), ()))
LIB["numpy.minimum"] = arith(lambda a, b: t.app("min", (a, b), ()) if rank(a) == 0 and rank(b) == 0 else t.app("minimum", (a, b), ()))
LIB["numpy.less"] = arith(lt)
LIB["numpy.greater"] = arith(lambda a, b: lt(b, a))


def allof(x):
    """conjunction over a boolean sequence/array"""
    if x.op == "gamma" and not t.is_bool(x):
        return t.lift(allof, (x,))
    r = seq_exists(x, True)
    if r is not None:
        return b_not(r)
    if t.is_bool(x):
        return b_not(t.app("anyall", (b_not(x),), ()))      # all(c) = not any(not c)
    return t.app("allall", (x,), ())


def anyof(x):
    r = seq_exists(x, False)
    if r is not None:
        return r
    return t.app("anyall", (x,), ())


def seq_exists(x, negate):
    if x.op == "tuple":
        x = mklist([item(y) for y in x.args])
    if x.op != "list":
        return None
    r = FALSE
    for p in x.args[0]:
        if p.op == "item":
            c = truth(p.args[0])
            r = b_or(r, b_not(c) if negate else c)
        elif p.op == "lcomp":
            v, lo, hi, b = t.open_binder(p)
            if b.op == "flat":
                inner = seq_exists(mk("list", b.args[0]), negate)
                if inner is None:
                    return None
                r = b_or(r, bind("exists", v, lo, hi, inner))
                continue
            g = TRUE
            if b.op == "gpart":
                g, b = b.args
            c = truth(b)
            r = b_or(r, bind("exists", v, lo, hi, b_and(g, b_not(c) if negate else c)))
        else:
            return None
    return r


def reduction(name, scalar):
    def f(I, st, args, kw):
        x = I.tv(st, args[0])
        rest = tvs(I, st, args[1:])
        ks = {k: I.tv(st, v) for k, v in kw.items() if k not in ("dtype",)}
        ax = ks.get("axis", rest[0] if rest else NONE)
        if ax is NONE and not (set(ks) - {"axis"}):
            return scalar(x)
        return t.app("np." + name, (R.to_array(x), ax), tuple(sorted((k, v) for k, v in ks.items() if k != "axis")))
    return f


LIB["numpy.sum"] = reduction("sum", lambda x: t.app("sumall", (R.to_array(x) if x.op != "list" else x,), ()))
LIB["numpy.prod"] = reduction("prod", lambda x: t.app("prodall", (x,), ()))
LIB["numpy.max"] = reduction("max", lambda x: t.app("maxall", (x,), ()))
LIB["numpy.min"] = reduction("min", lambda x: t.app("minall", (x,), ()))
LIB["numpy.mean"] = reduction("mean", lambda x: div(t.app("sumall", (R.to_array(x),), ()), length(x)) if rank(R.to_array(x)) == 1 else t.app("mean", (x,), ()))
LIB["numpy.all"] = reduction("all", lambda x: allof(x))
LIB["numpy.any"] = reduction("any", lambda x: anyof(x))
LIB["numpy.count_nonzero"] = reduction("count_nonzero", lambda x: t.app("count_nonzero", (x,), ()))


@lib("numpy.allclose", "numpy.isclose")
def _allclose(I, st, args, kw):
    a, b = [R.to_array(x) for x in tvs(I, st, args[:2])]
    names = ["rtol", "atol"]
    tol = {}
    for n_, v in zip(names, args[2:]):
        tol[n_] = I.tv(st, v)
    for k, v in kw.items():
        tol[{"rel_tol": "rtol", "abs_tol": "atol"}.get(k, k)] = I.tv(st, v)
    dflt = {"rtol": num(Fraction("1e-05")), "atol": num(Fraction("1e-08")), "equal_nan": FALSE}
    tol = tuple(sorted(((k, v) for k, v in tol.items() if dflt.get(k) is not v), key=lambda z: z[0]))
    return t.allclose(a, b, tol)


@lib("numpy.array_equal")
def _array_equal(I, st, args, kw):
    a, b = tvs(I, st, args)
    if a is b:
        return TRUE
    ea, eb = t.arr_entries(a), t.arr_entries(b)
    if ea is not None and eb is not None:
        r = TRUE if ea[0] == eb[0] else FALSE
        if r is TRUE:
            for x, y in zip(ea[1], eb[1]):
                r = b_and(r, eq(x, y))
        return r
    return t.app("array_equal", tuple(sorted((a, b), key=lambda z: z.dig)), ())


@lib("numpy.linalg.norm")
def _norm(I, st, args, kw):
    x = R.to_array(I.tv(st, args[0]))
    o = I.tv(st, kw["ord"]) if "ord" in kw else (I.tv(st, args[1]) if len(args) > 1 else NONE)
    if "axis" in kw or "keepdims" in kw or len(args) > 2:
        return None
    if o.op == "str" and o.args[0] == "fro" and rank(x) == 2:
        o = NONE
    return t.app("norm", (x, o) if o is not NONE else (x,), ())


LIB["numpy.linalg.eigvals"] = lambda I, st, args, kw: t.app("eigvals", (I.tv(st, args[0]),), ())
LIB["numpy.linalg.eigvalsh"] = lambda I, st, args, kw: t.app("eigvalsh", (I.tv(st, args[0]),), ())
LIB["numpy.linalg.det"] = lambda I, st, args, kw: det(I.tv(st, args[0]))
LIB["numpy.linalg.inv"] = lambda I, st, args, kw: t.app("inv", (I.tv(st, args[0]),), ())
LIB["numpy.linalg.matrix_rank"] = lambda I, st, args, kw: t.app("matrix_rank", tuple(tvs(I, st, args)), ())


def det(x):
    ae = t.arr_entries(x)
    if ae is not None and ae[0] == (2, 2):
        a, b, c, d = ae[1]
        return sub(mul(a, d), mul(b, c))
    if ae is not None and ae[0] == (1, 1):
        return ae[1][0]
    return t.app("det", (x,), ())


def _tupret(*names):
    def f(I, st, args, kw):
        from .vflow import TupV
        ts = tuple(tvs(I, st, args))
        ks = tuple((k, I.tv(st, v)) for k, v in sorted(kw.items()))
        return TupV([I.box(st, t.app(n, ts, ks)) for n in names])
    return f


LIB["numpy.linalg.eigh"] = _tupret("eigvalsh", "eigh_v")
LIB["numpy.linalg.eig"] = _tupret("eigvals", "eig_v")
LIB["numpy.linalg.qr"] = _tupret("qr_q", "qr_r")
LIB["numpy.linalg.svd"] = _tupret("svd_u", "svd_s", "svd_vh")


@lib("scipy.linalg.schur")
def _schur(I, st, args, kw):
    from .vflow import TupV
    ts = tuple(tvs(I, st, args))
    ks = tuple((k, I.tv(st, v)) for k, v in sorted(kw.items()))
    # sort function changes the ordering only; it is part of the identity of the result
    names = ["schur_T", "schur_Z"] + (["schur_sdim"] if "sort" in kw else [])
    return TupV([I.box(st, t.app(n, ts, ks)) for n in names])


LIB["scipy.linalg.expm"] = lambda I, st, args, kw: t.app("expm", (I.tv(st, args[0]),), ())
LIB["scipy.linalg.logm"] = lambda I, st, args, kw: t.app("logm", (I.tv(st, args[0]),), ())
LIB["scipy.linalg.sqrtm"] = lambda I, st, args, kw: t.app("sqrtm", (I.tv(st, args[0]),), ())


@lib("scipy.linalg.block_diag")
def _bd(I, st, args, kw):
    ms = tvs(I, st, args)
    if any(rank(m) != 2 for m in ms) or not ms:
        return None
    pr, pc = tuple(dim(m, 0) for m in ms), tuple(dim(m, 1) for m in ms)
    return t.block(tuple(tuple(m if i == j else t.zeros((pr[i], pc[j])) for j in range(len(ms))) for i, m in enumerate(ms)), (pr, pc))


@lib("numpy.block")
def _block(I, st, args, kw):
    x = I.tv(st, args[0])
    rows = R.list_items(x)
    if rows is None:
        return None
    rr = [R.list_items(r) if r.op in ("list", "tuple") else [r] for r in rows]
    if any(r is None for r in rr) or len({len(r) for r in rr}) != 1:
        return None
    return mkblock(rr)


def mkblock(rr):
    def size(xs, ax):
        ds = [dim(x, ax) for x in xs if rank(x) != 0]
        if not ds:
            return ONE
        ds.sort(key=lambda d: (d.op == "dim", d.size, d.dig))
        return ds[0]
    pr = tuple(size(r, 0) for r in rr)
    pc = tuple(size([r[j] for r in rr], 1) for j in range(len(rr[0])))
    if len(pr) == 1 and len(pc) == 1:
        return rr[0][0]
    return t.block(tuple(tuple(r) for r in rr), (pr, pc))


def stack(axis):
    def f(I, st, args, kw):
        x = I.tv(st, args[0])
        its = R.list_items(x)
        if its is None:
            return None
        its = [R.to_array(y) for y in its]
        if all(rank(y) == 2 for y in its):
            return mkblock([its] if axis == 1 else [[y] for y in its])
        if all(rank(y) == 1 for y in its) and axis == 1:
            return concat1(its)
        return t.app("hstack" if axis == 1 else "vstack", tuple(its), ())
    return f


LIB["numpy.hstack"] = stack(1)
LIB["numpy.vstack"] = stack(0)


@lib("numpy.concatenate")
def _concat(I, st, args, kw):
    x = I.tv(st, args[0])
    its = R.list_items(x)
    ax = as_int(I.tv(st, kw["axis"])) if "axis" in kw else (as_int(I.tv(st, args[1])) if len(args) > 1 else 0)
    if its is None:
        return None
    its = [R.to_array(y) for y in its]
    if all(rank(y) == 1 for y in its) and ax == 0:
        return concat1(its)
    if all(rank(y) == 2 for y in its) and ax in (0, 1):
        return mkblock([its] if ax == 1 else [[y] for y in its])
    return t.app("concatenate", tuple(its), (("axis", num(ax or 0)),))


@lib("numpy.append")
def _append(I, st, args, kw):
    if kw:
        return None
    its = [R.to_array(x) for x in tvs(I, st, args)]
    return concat1([mk("arr", (1,), (x,)) if rank(x) == 0 and x.op not in ("gamma", "opaque") else x for x in its])


def concat1(its):
    """concatenation of vectors, as an index comprehension by parts"""
    its = [t.app("reshape", (x, mk("tuple", ONE)), ()) if False else x for x in its]
    if any(rank(x) != 1 for x in its):
        return t.app("append", tuple(its), ())
    n = ZERO
    parts = []
    for x in its:
        m = length(x)
        if m is ZERO:
            continue
        parts.append((n, x))
        n = add(n, m)
    if not parts:
        return t.zeros((ZERO,))
    v = fresh(ZERO, n)
    body = index(parts[0][1], (v,))
    for off, x in parts[1:]:
        body = ite(lt(v, off), body, index(x, (sub(v, off),)))
    return bind("comp", v, ZERO, n, body)


@lib("numpy.reshape")
def _reshape(I, st, args, kw):
    return m_reshape(I, st, args[0], args[1:], kw)


@lib("numpy.ravel")
def _ravel(I, st, args, kw):
    return m_flatten(I, st, args[0], [], {})


@lib("numpy.squeeze", "numpy.atleast_2d")
def _sq(I, st, args, kw):
    return None


@lib("numpy.arange")
def _arange(I, st, args, kw):
    ts = tvs(I, st, args)
    if kw and set(kw) != {"dtype"}:
        return None
    return mk_range(ts)


def mk_range(ts):
    if any(x.op == "gamma" for x in ts):
        return t.lift(lambda *xs: mk_range(list(xs)), tuple(ts))
    if len(ts) == 1:
        ts = [ZERO, ts[0]]
    if len(ts) == 3 and ts[2] is ONE:
        ts = ts[:2]
    return t.app("arange", tuple(ts), ())


def _r_arange_len(a):
    x = a.args[1]
    if len(x) == 2:
        return sub(x[1], x[0])
    return mk("len", a)


t.LEN_OF_APP["arange"] = _r_arange_len
t.DIM_OF_APP["arange"] = lambda a, k: _r_arange_len(a) if k == 0 and len(a.args[1]) == 2 else None

_old_index = t.index


def index2(x, idx):
    idx = tuple(idx)
    if isinstance(x, T) and x.op == "app" and len(idx) == 1 and idx[0].op not in ("slice", "gamma", "opaque") and rank(idx[0]) == 0:
        n = x.args[0]
        if n == "arange":
            a = x.args[1]
            i = idx[0]
            if not (i.op == "num" and i.args[0] < 0):
                return add(a[0], mul(i, a[2]) if len(a) > 2 else i)
        if n == "rev":
            return index2(x.args[1][0], (sub(sub(length(x.args[1][0]), ONE), idx[0]),))
        if n == "flip" and rank(x.args[1][0]) == 1:
            return index2(x.args[1][0], (sub(sub(length(x.args[1][0]), ONE), idx[0]),))
    return _old_index(x, idx)


t.index = index2
R.index = index2
index = index2


@lib("numpy.flip", "numpy.flipud", "numpy.fliplr")
def _flip(I, st, args, kw):
    from .vflow import rev
    x = R.to_array(I.tv(st, args[0]))
    if len(args) > 1 or kw:
        return None
    if rank(x) == 1:
        return rev(x)
    return t.app("flip", (x,), ())


LIB["numpy.fliplr"] = LIB["numpy.flipud"] = lambda I, st, args, kw: None


@lib("numpy.argsort")
def _argsort(I, st, args, kw):
    return t.app("argsort", (I.tv(st, args[0]),), tuple((k, I.tv(st, v)) for k, v in sorted(kw.items())))


@lib("numpy.sort")
def _sort(I, st, args, kw):
    return t.app("sort", (I.tv(st, args[0]),), tuple((k, I.tv(st, v)) for k, v in sorted(kw.items())))


def tri(name):
    def f(I, st, args, kw):
        x = I.tv(st, args[0])
        k = I.tv(st, kw["k"]) if "k" in kw else (I.tv(st, args[1]) if len(args) > 1 else ZERO)
        return t.app(name, (x,) if k is ZERO else (x, k), ())
    return f


LIB["numpy.triu"] = tri("triu")
LIB["numpy.tril"] = tri("tril")


@lib("numpy.round")
def _round(I, st, args, kw):
    x = I.tv(st, args[0])
    d = I.tv(st, kw["decimals"]) if "decimals" in kw else (I.tv(st, args[1]) if len(args) > 1 else ZERO)
    if d is ZERO:
        return t.fn("round", R.to_array(x))
    return t.app("roundn", (R.to_array(x), d), ())


@lib("builtins.round")
def _bround(I, st, args, kw):
    x = I.tv(st, args[0])
    if len(args) == 1:
        return x if is_int(x) else t.app("int", (t.fn("round", x),), ())
    return t.app("roundn", (x, I.tv(st, args[1])), ())


@lib("numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere")
def _nonzero(I, st, args, kw):
    return None


@lib("numpy.iscomplexobj")
def _ico(I, st, args, kw):
    x = I.tv(st, args[0])
    if x in t.CLS and {"builtins.int", "builtins.float", "builtins.complex", "numpy.number"} & t.CLS[x]:
        return TRUE if {"builtins.complex", "numpy.complexfloating"} & t.CLS[x] else FALSE
    if x in t.CLS and is_real(x):
        return FALSE
    return t.app("iscomplexobj", (x,), ())


@lib("numpy.real_if_close")
def _ric(I, st, args, kw):
    """the value itself as long as the tolerance is at rounding level"""
    x = R.to_array(I.tv(st, args[0]))
    tol = I.tv(st, args[1]) if len(args) > 1 else I.tv(st, kw["tol"]) if "tol" in kw else num(100)
    if tol.op != "num" or tol.args[1] or isinstance(rank(x), str) or rank(x) is None:
        return None
    eps = tol.args[0] * (Fraction(1, 2 ** 52) if tol.args[0] > 1 else 1)
    if eps < Fraction(1, 10 ** 9):
        return x
    m = t.fn("abs", t.fn("im", x))
    if rank(x) != 0:
        m = t.app("maxall", (m,), ())
    return t.ite(t.lt(m, num(eps)), t.fn("re", x), x)


@lib("numpy.isrealobj")
def _iro(I, st, args, kw):
    return t.b_not(t.truth(_ico(I, st, args, kw)))


@lib("numpy.set_printoptions")
def _spo(I, st, args, kw):
    return NONE


@lib("numpy.where")
def _where(I, st, args, kw):
    ts = tvs(I, st, args)
    if len(ts) == 3:
        c = ts[0]
        if t.is_bool(c) and all(rank(x) == 0 for x in ts[1:]) and not array_cond(c):
            return ite(c, ts[1], ts[2])
        return t.app("where", tuple(ts), ())
    return None


def array_cond(c):
    if c.op in ("lt", "eq0"):
        return rank(c.args[0]) != 0
    return True


@lib("numpy.result_type")
def _rt(I, st, args, kw):
    out = []
    for a in args:
        x = I.tv(st, a)
        out.append(spread(x.args[0]) if x.op == "star" else x)
    return t.app("result_type", tuple(out), ())


@lib("numpy.einsum")
def _einsum(I, st, args, kw):
    ts = tvs(I, st, args)
    if ts[0].op != "str" or kw:
        return None
    return einsum(ts[0].args[0].replace(" ", ""), [R.to_array(x) for x in ts[1:]])


def einsum(spec, xs):
    ins, _, out = spec.partition("->")
    subs = ins.split(",")
    if "->" not in spec or len(subs) != len(xs) or any(rank(x) != len(s) for x, s in zip(xs, subs)):
        return None
    letters = []
    ext = {}
    for s, x in zip(subs, xs):
        for k, ch in enumerate(s):
            if not ch.isalpha():
                return None
            if ch not in ext:
                ext[ch] = dim(x, k)
                letters.append(ch)
    if len(set(out)) != len(out):
        return None
    vs = {ch: fresh(ZERO, ext[ch]) for ch in letters}
    body = ONE
    for s, x in zip(subs, xs):
        body = mul(body, index(x, tuple(vs[ch] for ch in s)))
    for ch in letters:
        if ch not in out:
            body = bind("bigsum", vs[ch], ZERO, ext[ch], body)
    for ch in reversed(out):
        body = bind("comp", vs[ch], ZERO, ext[ch], body)
    return body


@lib("numpy.linalg.matrix_power")
def _mp(I, st, args, kw):
    x, k = tvs(I, st, args)
    if as_int(k) is not None and 0 < as_int(k) < 5:
        return t.dot([x] * as_int(k))
    return t.app("matrix_power", (x, k), ())


@lib("numpy.shape")
def _shape(I, st, args, kw):
    return t.app("shape", (I.tv(st, args[0]),), ())


@lib("numpy.size")
def _size(I, st, args, kw):
    return ATTRS["size"](I, st, args[0])


@lib("numpy.transpose")
def _tp(I, st, args, kw):
    x = R.to_array(I.tv(st, args[0]))
    if len(args) == 2 and not kw or len(args) == 1 and set(kw) == {"axes"}:
        ax = axes([I.tv(st, args[1] if len(args) == 2 else kw["axes"])])
        return permute(x, ax) if ax else None
    if len(args) > 1 or kw:
        return None
    return t.transpose(x)


@lib("numpy.swapaxes")
def _swx(I, st, args, kw):
    if len(args) != 3 or kw:
        return None
    return swapaxes(R.to_array(I.tv(st, args[0])), tvs(I, st, args[1:]))


# ------------------------------------------------------------- math / scipy.stats
LIB["math.factorial"] = lambda I, st, args, kw: factorial(I.tv(st, args[0]))


def factorial(x):
    k = as_int(x)
    if k is not None and 0 <= k <= 20:
        import math
        return num(math.factorial(k))
    return t.app("factorial", (x,), ())


@lib("scipy.stats.entropy")
def _entropy(I, st, args, kw):
    ts = tvs(I, st, args)
    names = ["pk", "qk", "base", "axis"]
    d = dict(zip(names, ts))
    d.update({k: I.tv(st, v) for k, v in kw.items()})
    out = tuple(d[k] for k in ("pk", "qk") if k in d and d[k] is not NONE)
    ks = tuple((k, d[k]) for k in ("base", "axis") if k in d and d[k] is not NONE and not (k == "axis" and d[k] is ZERO))
    return t.app("entropy", out, ks)


# ------------------------------------------------------------- random draws
def draw(I, st, name, args, rk, real, shape=()):
    key = (name,) + tuple(args)
    k = st.draws.get(key, 0)
    st.draws[key] = k + 1
    return mk("draw", name, tuple(args) + (num(k),) + tuple(getattr(I, "loop_vars", ())), rk, real, tuple(shape))


def size_args(x):
    if x is NONE:
        return ()
    s = shape_tuple(x)
    return s


def normal(I, st, shape):
    if shape is None:
        return opaque("draw shape")
    return draw(I, st, "normal", shape, len(shape), True, shape)


def _randn(I, st, args, kw):
    return normal(I, st, tuple(tvs(I, st, args)))


def _stdn(I, st, args, kw):
    x = I.tv(st, args[0]) if args else I.tv(st, kw.get("size", NONE))
    return normal(I, st, size_args(x))


def _normal(I, st, args, kw):
    d = dict(zip(("loc", "scale", "size"), tvs(I, st, args)))
    d.update({k: I.tv(st, v) for k, v in kw.items()})
    x = normal(I, st, size_args(d.get("size", NONE)))
    x = mul(d.get("scale", ONE), x)
    loc = d.get("loc", ZERO)
    return add(loc, x) if loc is not ZERO else x


def _simple_draw(nm, params, rk0, real, defaults=()):
    def f(I, st, args, kw):
        d = dict(defaults)
        d.update(dict(zip(params, tvs(I, st, args))))
        d.update({k: I.tv(st, v) for k, v in kw.items() if k != "dtype"})
        size = d.pop("size", NONE)
        sh = size_args(size)
        if sh is None:
            return opaque("draw shape")
        a = tuple(d.get(p, NONE) for p in params if p != "size")
        if rk0 == "vec":
            shape = sh + (length(a[0]),)
        elif rk0 == "sq":
            shape = sh + (a[0], a[0])
        elif rk0 == "choice":
            shape = sh
        else:
            shape = sh
        return draw(I, st, nm, a + sh, len(shape), real, shape)
    return f


DRAWS = {
    "randn": _randn, "standard_normal": _stdn, "normal": _normal,
    "rand": lambda I, st, args, kw: draw(I, st, "uniform01", tuple(tvs(I, st, args)), len(args), True, tuple(tvs(I, st, args))),
    "random_sample": lambda I, st, args, kw: draw(I, st, "uniform01", size_args(I.tv(st, args[0] if args else kw.get("size", NONE))) or (), len(size_args(I.tv(st, args[0] if args else kw.get("size", NONE))) or ()), True, size_args(I.tv(st, args[0] if args else kw.get("size", NONE))) or ()),
    "exponential": _simple_draw("exponential", ("scale", "size"), 0, True, (("scale", ONE),)),
    "dirichlet": _simple_draw("dirichlet", ("alpha", "size"), "vec", True),
    "choice": _simple_draw("choice", ("a", "size", "replace", "p"), "choice", True, (("replace", TRUE),)),
    "uniform": _simple_draw("uniform", ("low", "high", "size"), 0, True, (("low", ZERO), ("high", ONE))),
}


def _randint(I, st, args, kw):
    d = dict(zip(("low", "high", "size"), tvs(I, st, args)))
    d.update({k: I.tv(st, v) for k, v in kw.items() if k != "dtype"})
    lo, hi = d.get("low", ZERO), d.get("high", NONE)
    if hi is NONE:
        lo, hi = ZERO, lo
    sh = size_args(d.get("size", NONE))
    r = draw(I, st, "randint", (lo, hi) + (sh or ()), len(sh or ()), True, sh or ())
    return r


DRAWS["randint"] = DRAWS["integers"] = _randint


def _permutation(I, st, args, kw):
    x = I.tv(st, args[0])
    if t.rank(x) == 0 and t.is_int(x):
        return draw(I, st, "permutation", (x,), 1, True, (x,))
    if t.rank(x) == 1:
        n = dim(x, 0)
        return t.index(x, (draw(I, st, "permutation", (n,), 1, True, (n,)),))
    return opaque("permutation")


DRAWS["permutation"] = _permutation
for _n, _f in DRAWS.items():
    LIB["numpy.random." + _n] = _f
LIB["numpy.random.seed"] = lambda I, st, args, kw: NONE
LIB["random.seed"] = lambda I, st, args, kw: NONE
LIB["random.randint"] = lambda I, st, args, kw: draw(I, st, "randint", (I.tv(st, args[0]), add(I.tv(st, args[1]), ONE)), 0, True, ())


def group_draw(nm, real):
    def f(I, st, args, kw):
        d = dict(zip(("dim", "size", "random_state"), tvs(I, st, args)))
        d.update({k: I.tv(st, v) for k, v in kw.items()})
        n = d.get("dim", NONE)
        if d.get("size", ONE) not in (ONE, NONE):
            return opaque("group draw size")
        return draw(I, st, nm, (n,), 2, real, (n, n))
    return f


LIB["scipy.stats.unitary_group.rvs"] = group_draw("unitary_group", False)
LIB["scipy.stats.special_ortho_group.rvs"] = group_draw("special_ortho_group", True)
LIB["scipy.stats.ortho_group.rvs"] = group_draw("ortho_group", True)


def unitary_pairs(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "draw" and x.args[0] in ("unitary_group", "special_ortho_group", "ortho_group"):
            if t.adj(x) is y:
                return t.eye(dim(x, 0))
    return None


t.UNITARY_PAIRS = unitary_pairs
_old_is_int = t.is_int


def is_int2(x):
    if x.op == "draw" and x.args[0] == "randint" and x.args[2] == 0:
        return True
    return _old_is_int(x)


t.is_int = is_int2
R.is_int = is_int2
is_int = is_int2


@lib("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator")
def _gen(I, st, args, kw):
    return mk("rngobj", string("np"))


# ------------------------------------------------------------- builtins
@lib("builtins.range")
def _range(I, st, args, kw):
    return mk_range(tvs(I, st, args))


@lib("builtins.len")
def _len(I, st, args, kw):
    from .vflow import TupV
    if isinstance(args[0], TupV):
        return num(len(args[0].items))
    x = I.tv(st, args[0])
    return t.app("len", (x,), ())


@lib("builtins.sum")
def _bsum(I, st, args, kw):
    x = I.tv(st, args[0])
    s = I.tv(st, args[1]) if len(args) > 1 else I.tv(st, kw.get("start", ZERO))
    if s.op == "list":
        its = R.list_items(x)
        if its is None:
            return None
        return mklist([spread(s)] + [spread(i) for i in its])
    return add(s, t.app("sumall", (x,), ()))


@lib("builtins.min")
def _bmin(I, st, args, kw):
    if kw:
        return None
    return t.app("min", tuple(tvs(I, st, args)), ())


@lib("builtins.max")
def _bmax(I, st, args, kw):
    if kw:
        return None
    return t.app("max", tuple(tvs(I, st, args)), ())


@lib("builtins.int")
def _int(I, st, args, kw):
    if not args:
        return ZERO
    return t.app("int", (I.tv(st, args[0]),), ())


@lib("builtins.float")
def _float(I, st, args, kw):
    x = I.tv(st, args[0])
    if x.op == "str" and x.args[0] in ("inf", "infinity", "Inf"):
        return INF
    if is_real(x) and rank(x) == 0:
        return x
    return t.app("float", (x,), ())


@lib("builtins.complex")
def _complex(I, st, args, kw):
    ts = tvs(I, st, args)
    if len(ts) == 1:
        return ts[0]
    if len(ts) == 2:
        return add(ts[0], mul(t.IMAG, ts[1]))
    return ZERO


@lib("builtins.bool")
def _bool(I, st, args, kw):
    return truth(I.tv(st, args[0]))


@lib("builtins.list")
def _list(I, st, args, kw):
    if not args:
        return mklist([])
    from .loops import domain
    x = I.tv(st, args[0])
    if x.op == "list":
        return x
    if x.op == "tuple":
        return mklist([item(y) for y in x.args])
    if isinstance(t.base_rank(x), tuple) or x.op == "opaque":
        return mklist([spread(x)]) if x.op != "opaque" else x
    d = domain(I, st, args[0])
    if d is None:
        return opaque("list()")
    if d.items is not None:
        return mklist([item(I.tv(st, y)) for y in d.items])
    v = fresh(d.lo, d.hi)
    return mklist(R.list_comp(v, d.lo, d.hi, I.tv(st, d.elem(v))))


@lib("builtins.tuple")
def _tuple(I, st, args, kw):
    if not args:
        return mk("tuple")
    x = I.tv(st, args[0])
    if x.op == "tuple":
        return x
    its = R.list_items(x)
    if its is not None:
        return mk("tuple", *its)
    return _list(I, st, args, kw)


@lib("builtins.set", "builtins.frozenset")
def _set(I, st, args, kw):
    if not args:
        return I.new(st, "set", mklist([]))
    x = _list(I, st, args, kw)
    return I.new(st, "set", I.tv(st, x))


@lib("builtins.dict")
def _dict(I, st, args, kw):
    if len(args) == 1 and not kw:
        x = I.tv(st, args[0])
        if x.op == "app":
            return t.app("dictof", (x,), ())
    if args or kw:
        return opaque("dict()")
    return I.new(st, "dict", mk("dict", ()))


@lib("builtins.sorted")
def _sorted(I, st, args, kw):
    x = I.tv(st, args[0])
    return t.app("sorted", (x,), tuple((k, I.tv(st, v)) for k, v in sorted(kw.items())))


@lib("builtins.reversed")
def _reversed(I, st, args, kw):
    from .vflow import rev
    return rev(I.tv(st, args[0]))


@lib("builtins.enumerate")
def _enumerate(I, st, args, kw):
    x = I.tv(st, args[0])
    s = I.tv(st, args[1]) if len(args) > 1 else (I.tv(st, kw["start"]) if "start" in kw else ZERO)
    return mk("app", "enumerate", (x, s), ()) if x.op != "opaque" else x


@lib("builtins.zip")
def _zip(I, st, args, kw):
    ts = tvs(I, st, args)
    if any(x.op in ("star", "opaque") for x in ts):
        return opaque("zip")
    return mk("app", "zip", tuple(ts), ())


@lib("builtins.map")
def _map(I, st, args, kw):
    from .loops import domain
    if len(args) != 2:
        return opaque("map")
    d = domain(I, st, args[1])
    if d is None:
        return opaque("map")
    if d.items is not None:
        return mklist([item(I.tv(st, I.call_value(args[0], [y], {}, st, None))) for y in d.items])
    v = fresh(d.lo, d.hi)
    return mklist(R.list_comp(v, d.lo, d.hi, I.tv(st, I.call_value(args[0], [d.elem(v)], {}, st, None))))


@lib("builtins.any")
def _any(I, st, args, kw):
    return anyof(I.tv(st, args[0]))


@lib("builtins.all")
def _all(I, st, args, kw):
    return allof(I.tv(st, args[0]))


@lib("builtins.print", "builtins.repr_", "warnings.warn", "logging.warning")
def _print(I, st, args, kw):
    return NONE


@lib("builtins.str", "builtins.repr")
def _str(I, st, args, kw):
    return t.app("str", tuple(tvs(I, st, args)), ())


@lib("builtins.type")
def _type(I, st, args, kw):
    return t.app("type", (I.tv(st, args[0]),), ())


@lib("builtins.hasattr")
def _hasattr(I, st, args, kw):
    x, a = tvs(I, st, args)
    if x in t.CLS and a.op == "str" and a.args[0] in ("imag", "real", "shape", "dtype", "replace"):
        arr = bool({"numpy.ndarray", "numpy.number"} & t.CLS[x])
        number = bool({"builtins.int", "builtins.float", "builtins.complex"} & t.CLS[x])
        if a.args[0] in ("imag", "real"):
            return TRUE if arr or number else FALSE
        if a.args[0] in ("shape", "dtype"):
            return TRUE if arr else FALSE
        return TRUE if "builtins.str" in t.CLS[x] else FALSE
    return t.app("hasattr", tuple(tvs(I, st, args)), ())


@lib("builtins.getattr")
def _getattr(I, st, args, kw):
    n = I.tv(st, args[1])
    if n.op == "str":
        return I.get_attr(args[0], n.args[0], st)
    return opaque("getattr")


@lib("builtins.divmod")
def _divmod(I, st, args, kw):
    a, b = tvs(I, st, args)
    return mk("tuple", t.app("floordiv", (a, b), ()), t.app("mod", (a, b), ()))


KIND_TYPES = {
    "mat": {"numpy.ndarray"}, "vec": {"numpy.ndarray"}, "col": {"numpy.ndarray"}, "int": {"builtins.int"},
}


@lib("builtins.isinstance")
def _isinstance(I, st, args, kw):
    from .vflow import TupV, Clo, Ref
    x = I.tv(st, args[0])
    tys = args[1].items if isinstance(args[1], TupV) else [args[1]]
    r = FALSE
    for y in tys:
        n = canon(y.a) if isinstance(y, Clo) and y.kind == "lib" else "?"
        r = b_or(r, is_type(x, n, args[0], st))
    return r


def is_type(x, n, raw=None, st=None):
    if x.op == "gamma":
        return t.lift(lambda y: is_type(y, n), (x,))
    if x.op == "sym":
        k = x.args[1]
        if x in t.CLS:
            return TRUE if n in t.CLS[x] else FALSE
        if k in KIND_TYPES:
            return TRUE if n in KIND_TYPES[k] or (k == "int" and n in ("numpy.integer", "numbers.Integral")) else FALSE
        if k.startswith("list:"):
            return TRUE if n == "builtins.list" else FALSE
        if k == "bool":
            return TRUE if n in ("builtins.bool", "builtins.int") else FALSE
        if k == "real":
            return TRUE if n in ("builtins.float",) else FALSE
    if x.op == "list":
        return TRUE if n == "builtins.list" else FALSE
    if x.op == "tuple":
        return TRUE if n == "builtins.tuple" else FALSE
    if x.op == "str":
        return TRUE if n == "builtins.str" else FALSE
    if x is NONE:
        return FALSE
    if x.op == "lam" and n == "?":
        return opaque("isinstance")
    if rank(x) in (1, 2) and x.op != "sym":
        if n == "numpy.ndarray":
            return TRUE
        if n in ("builtins.list", "builtins.int", "builtins.str", "builtins.float", "builtins.complex", "builtins.tuple"):
            return FALSE
    if n in ("networkx.DiGraph", "networkx.MultiGraph", "networkx.MultiDiGraph"):
        g = mk("isinst", x, string("networkx.Graph"))
        if n == "networkx.MultiDiGraph":
            g = b_and(g, b_and(mk("isinst", x, string("networkx.DiGraph")), mk("isinst", x, string("networkx.MultiGraph"))))
        return b_and(g, mk("isinst", x, string(n)))
    return mk("isinst", x, string(n))


# ------------------------------------------------------------- functools / itertools
@lib("functools.reduce")
def _reduce(I, st, args, kw):
    from .loops import domain, closed, placeholder, ok_kind, weaken
    f, xs = args[0], args[1]
    d = domain(I, st, xs)
    if d is None:
        return opaque("reduce")
    if d.items is not None:
        its = list(d.items)
        acc = args[2] if len(args) > 2 else its.pop(0)
        for y in its:
            acc = I.call_value(f, [acc, y], {}, st, None)
        return acc
    lo = d.lo
    if len(args) > 2:
        acc = I.tv(st, args[2])
    else:
        acc = I.tv(st, d.elem(lo))
        lo = add(lo, ONE)
    v = fresh(lo, d.hi)
    kind = None
    for _ in range(3):
        p = placeholder(acc, None)
        if kind is not None:
            p = t.sym(p.args[0], kind)
        e = I.tv(st, I.call_value(f, [p, d.elem(v)], {}, st, None))
        if ok_kind(p, e):
            break
        kind = weaken(p, e)
    r = closed(p, acc, e, v, lo, d.hi)
    return r(d.hi) if r is not None else opaque("reduce")


@lib("functools.partial")
def _partial(I, st, args, kw):
    from .vflow import Clo
    return Clo("partial", args[0], list(args[1:]), dict(kw))


@lib("itertools.permutations")
def _perms(I, st, args, kw):
    ts = tvs(I, st, args)
    return t.app("itertools.permutations", tuple(ts), ())


@lib("itertools.combinations")
def _combs(I, st, args, kw):
    return t.app("itertools.combinations", tuple(tvs(I, st, args)), ())


@lib("itertools.product")
def _product(I, st, args, kw):
    ts = tvs(I, st, args)
    rep = I.tv(st, kw["repeat"]) if "repeat" in kw else ONE
    k = as_int(rep)
    if k is not None and 1 <= k <= 3 and not any(x.op == "star" for x in ts):
        seqs = ts * k
        ds = [dom_simple(I, st, x) for x in seqs]
        if all(d is not None and d.items is None for d in ds):
            vs = [fresh(d.lo, d.hi) for d in ds]
            body = mk("tuple", *[I.tv(st, d.elem(v)) for d, v in zip(ds, vs)])
            part = None
            for d, v in reversed(list(zip(ds, vs))):
                if part is None:
                    part = bind("lcomp", v, d.lo, d.hi, body)
                else:
                    part = bind("lcomp", v, d.lo, d.hi, mk("flat", (part,)))
            return mk("app", "product", tuple(seqs), ()) if False else mk("prodlist", tuple(seqs))
    if len(ts) == 1 and "repeat" in kw:
        return t.app("itertools.product", (ts[0], rep), ())
    return mk("prodlist", tuple(ts)) if not any(x.op in ("star", "opaque") for x in ts) and rep is ONE else opaque("product")


def dom_simple(I, st, x):
    from .loops import dom_term
    return dom_term(I, st, x)


@lib("itertools.chain")
def _chain(I, st, args, kw):
    parts = []
    for a in args:
        x = I.tv(st, a)
        if x.op == "star":
            parts.extend(flat_parts(x.args[0]))
        else:
            parts.append(spread(x))
    return mklist(parts)


@lib("itertools.chain.from_iterable")
def _chainfi(I, st, args, kw):
    return mklist(flat_parts(I.tv(st, args[0])))


def flat_parts(x):
    """parts of the concatenation of the elements of x"""
    its = R.list_items(x)
    if its is not None:
        return [spread(y) for y in its]
    if x.op == "list":
        out = []
        for p in x.args[0]:
            if p.op == "item":
                out.append(spread(p.args[0]))
            elif p.op == "lcomp":
                v, lo, hi, b = t.open_binder(p)
                out.append(bind("lcomp", v, lo, hi, t.mkflat([spread(b)])))
            else:
                out.extend(flat_parts(p.args[0]))
        return out
    n = length(x)
    v = fresh(ZERO, n)
    return [bind("lcomp", v, ZERO, n, t.mkflat([spread(index(x, (v,)))]))]


LIB["builtins.iter"] = lambda I, st, args, kw: args[0]
LIB["builtins.id"] = lambda I, st, args, kw: opaque("id")
LIB["builtins.slice"] = lambda I, st, args, kw: mk("slice", *( [NONE, I.tv(st, args[0]), ONE] if len(args) == 1 else tvs(I, st, args) + [ONE] * (3 - len(args))))
LIB["builtins.callable"] = lambda I, st, args, kw: opaque("callable")


@lib("builtins.next")
def _next(I, st, args, kw):
    return opaque("next")


# ------------------------------------------------------------- attributes
def a_shape(I, st, b):
    x = I.tv(st, b)
    return t.app("shape", (x,), ())


def a_size(I, st, b):
    x = I.tv(st, b)
    r = rank(x)
    if r == 1:
        return dim(x, 0)
    if r == 2:
        return mul(dim(x, 0), dim(x, 1))
    if x.op == "index" and False:
        pass
    return t.app("size", (x,), ())


def a_ndim(I, st, b):
    x = I.tv(st, b)
    r = rank(x)
    return num(r) if isinstance(r, int) else t.app("len", (t.app("shape", (x,), ()),), ())


ATTRS = {
    "T": lambda I, st, b: t.transpose(I.tv(st, b)),
    "H": lambda I, st, b: t.adj(I.tv(st, b)),
    "real": lambda I, st, b: t.fn("re", I.tv(st, b)),
    "imag": lambda I, st, b: t.fn("im", I.tv(st, b)),
    "shape": a_shape, "size": a_size, "ndim": a_ndim,
    "dtype": lambda I, st, b: t.app(".dtype", (I.tv(st, b),), ()),
    "nodes": lambda I, st, b: t.app("nodes", (I.tv(st, b),), ()),
    "edges": lambda I, st, b: t.app("edges", (I.tv(st, b),), ()),
}


# ------------------------------------------------------------- methods
METHODS = {}
PURE_METHODS = {"nodes", "edges", "degree", "subgraph", "neighbors", "is_directed", "get", "items", "keys", "values", "index", "count", "replace", "isnumeric",
                "format", "join", "split", "strip", "lower", "upper", "startswith", "endswith", "item", "dot", "sum", "prod", "mean", "max", "min", "all", "any", "trace", "nonzero",
                "to_state_vector", "number_of_nodes", "number_of_edges", "has_edge", "adjacency", "std", "cumsum", "repeat", "squeeze", "swapaxes", "argmax", "argmin", "argsort", "tobytes",
                "issubset", "union", "intersection", "difference", "isdisjoint", "toarray", "todense", "random", "from_iterable"}


def method(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
            PURE_METHODS.add(n)
        return f
    return d


@method("conj", "conjugate")
def m_conj(I, st, b, args, kw):
    return t.conj(I.tv(st, b))


@method("transpose")
def m_tr(I, st, b, args, kw):
    if args or kw:
        ts = tvs(I, st, args)
        if kw:
            return None
        ax = axes(ts)
        if ax != (1, 0):
            return permute(R.to_array(I.tv(st, b)), ax) if ax else None
    return t.transpose(I.tv(st, b))


def axes(ts):
    """axis numbers given one by one or as one tuple or list"""
    if len(ts) == 1 and ts[0].op in ("tuple", "list"):
        ts = ts[0].args if ts[0].op == "tuple" else [p.args[0] for p in ts[0].args[0]] if all(p.op == "item" for p in ts[0].args[0]) else [NONE]
    r = tuple(as_int(x) for x in ts)
    if None in r:
        return None
    r = tuple(k + len(r) if k < 0 else k for k in r)
    return r if sorted(r) == list(range(len(r))) else None


def permute(x, ax):
    if x.op == "gamma":
        return t.lift(lambda z: permute(z, ax), (x,))
    if ax == tuple(range(len(ax))):
        return x
    if ax == (1, 0):
        return t.transpose(x)
    if x.op == "list" and ax[0] == 0 and all(p.op in ("item", "lcomp") for p in x.args[0]):
        sub = tuple(k - 1 for k in ax[1:])
        out = []
        for p in x.args[0]:
            if p.op == "item":
                out.append(t.item(permute(p.args[0], sub)))
                continue
            v, lo, hi, b = t.open_binder(p)
            if b.op in ("flat", "gpart"):
                return t.app("permute", (x,) + tuple(map(num, ax)), ())
            out.append(t.bind("lcomp", v, lo, hi, permute(b, sub)))
        return t.mklist(out)
    if x.op == "app" and x.args[0] == "permute" and len(x.args[1]) == len(ax) + 1:
        q = [as_int(z) for z in x.args[1][1:]]
        return permute(x.args[1][0], tuple(q[k] for k in ax))
    if x.op == "conj":
        return t.conj(permute(x.args[0], ax))
    if x.op == "comp" and ax[0] == 0:
        v, lo, hi, b = t.open_binder(x)
        return t.bind("comp", v, lo, hi, permute(b, tuple(k - 1 for k in ax[1:])))
    return t.app("permute", (x,) + tuple(map(num, ax)), ())


@method("swapaxes")
def m_swap(I, st, b, args, kw):
    ts = tvs(I, st, args)
    return None if kw else swapaxes(R.to_array(I.tv(st, b)), ts)


def swapaxes(x, ts):
    ks = [as_int(z) for z in ts]
    if len(ks) != 2 or None in ks:
        return None
    n = rank(x)
    if not isinstance(n, int):
        n = 3 if max(abs(k) for k in ks) >= 2 else None     # only the axes of stacked matrices are modelled
    if n is None or x.op == "list" and not t_stack(x):
        return None
    ks = [k + n if k < 0 else k for k in ks]
    ax = list(range(n))
    if max(ks) >= n or min(ks) < 0:
        return None
    ax[ks[0]], ax[ks[1]] = ax[ks[1]], ax[ks[0]]
    return permute(x, tuple(ax))


def t_stack(x):
    return all(rank(p.args[0]) == 2 if p.op == "item" else p.op == "lcomp" and rank(t.open_binder(p)[3]) == 2 for p in x.args[0])


@method("getH")
def m_getH(I, st, b, args, kw):
    return t.adj(I.tv(st, b))


@method("copy")
def m_copy(I, st, b, args, kw):
    from .vflow import Ref
    x = I.tv(st, b)
    if isinstance(b, Ref):
        c = st.heap[b.id]
        if c.kind == "view":
            return I.new(st, "arr", x, like_dt(I, st, b))
        return I.new(st, c.kind, x if c.kind != "set" else c.val, c.dt)
    if x.op in ("list",):
        return I.new(st, "list", x)
    if rank(x) == 0:
        return x
    return I.new(st, "arr", x, ("like", frozenset([dt_root(x)])))


@method("astype")
def m_astype(I, st, b, args, kw):
    dt = dtype(I, st, args[0] if args else kw.get("dtype"))
    x = I.tv(st, b)
    if dt is None:
        return opaque("astype")
    y = x
    if dt in ("int", "bool"):
        y = x if is_int(x) else t.app("cast_int", (x,), ())
    elif dt == "float":
        y = I.cast(x, dt)
    if rank(y) == 0:
        return y
    return I.new(st, "arr", y, dt)


@method("dot")
def m_dot(I, st, b, args, kw):
    return _dot(I, st, [b] + list(args), kw)


@method("trace")
def m_trace(I, st, b, args, kw):
    return _trace(I, st, [b] + list(args), kw)


@method("diagonal")
def m_diag(I, st, b, args, kw):
    if args or kw:
        return None
    return t.app("diagv", (I.tv(st, b),), ())


@method("reshape")
def m_reshape(I, st, b, args, kw):
    x = R.to_array(I.tv(st, b))
    if kw:
        return None
    ts = tvs(I, st, args)
    sh = shape_tuple(ts[0]) if len(ts) == 1 else tuple(ts)
    if sh is None:
        return None
    if len(sh) == 1:
        if as_int(sh[0]) == -1:
            return m_flatten(I, st, x, [], {})
    return t.app("reshape", (x, mk("tuple", *sh)), ())


@method("flatten", "ravel")
def m_flatten(I, st, b, args, kw):
    if args or kw:
        return None
    x = R.to_array(I.tv(st, b))
    return flatten(x)


def flatten(x):
    if x.op == "gamma":
        return t.lift(flatten, (x,))
    if rank(x) == 1:
        return x
    if x.op == "app" and x.args[0] == "reshape":
        return flatten(x.args[1][0])
    return t.app("flatten", (x,), ())


def m_red(name):
    def f(I, st, b, args, kw):
        return LIB["numpy." + name](I, st, [b] + list(args), kw)
    return f


for _n in ("sum", "prod", "max", "min", "mean", "all", "any"):
    METHODS[_n] = m_red(_n)


@method("round")
def m_round(I, st, b, args, kw):
    return _round(I, st, [b] + list(args), kw)


@method("tolist")
def m_tolist(I, st, b, args, kw):
    return t.app(".tolist", (I.tv(st, b),), ())


@method("toarray", "todense")
def m_toarray(I, st, b, args, kw):
    return I.tv(st, b)


@method("item")
def m_item(I, st, b, args, kw):
    x = I.tv(st, b)
    if rank(x) == 0 and not args:
        return x
    if args:
        return index(x, tuple(tvs(I, st, args)))
    return None


@method("nodes", "edges")
def m_nodes(I, st, b, args, kw):
    return None


METHODS["nodes"] = lambda I, st, b, args, kw: t.app("nodes", (I.tv(st, b),), ()) if not args and not kw else None
METHODS["edges"] = lambda I, st, b, args, kw: t.app("edges", (I.tv(st, b),), ()) if not args and not kw else None


def rng_method(I, st, b, args, kw, name):
    return None


def _wrap_draw(n):
    old = METHODS.get(n)

    def f(I, st, b, args, kw):
        x = I.tv(st, b)
        if x.op == "rngobj":
            return DRAWS[n](I, st, args, kw)
        return old(I, st, b, args, kw) if old else None
    return f


for _n in DRAWS:
    METHODS[_n] = _wrap_draw(_n)


# ------------------------------------------------------------- mutators of boxed objects
def mu_append(I, st, ref, args, kw):
    I.share(st, args[0])
    v = I.tv(st, args[0])
    I.set_cell(st, ref, append_list(I.tv(st, ref), [item(v)]))
    return NONE


def append_list(x, parts):
    return mklist([spread(x)] + parts)


def mu_extend(I, st, ref, args, kw):
    x = _list(I, st, args, {})
    I.set_cell(st, ref, mklist([spread(I.tv(st, ref)), spread(I.tv(st, x))]))
    return NONE


def mu_insert(I, st, ref, args, kw):
    k = as_int(I.tv(st, args[0]))
    I.share(st, args[1])
    if k == 0:
        I.set_cell(st, ref, mklist([item(I.tv(st, args[1])), spread(I.tv(st, ref))]))
    else:
        I.set_cell(st, ref, opaque("insert"))
    return NONE


def mu_reverse(I, st, ref, args, kw):
    from .vflow import rev
    I.set_cell(st, ref, rev(I.tv(st, ref)))
    return NONE


def mu_pop(I, st, ref, args, kw):
    x = I.tv(st, ref)
    its = R.list_items(x)
    if its and not args:
        I.set_cell(st, ref, mklist([item(y) for y in its[:-1]]))
        return its[-1]
    if its and args and as_int(I.tv(st, args[0])) == 0:
        I.set_cell(st, ref, mklist([item(y) for y in its[1:]]))
        return its[0]
    k = as_int(I.tv(st, args[0])) if args else -1
    if k in (0, -1) and x.op != "opaque":
        v = I.get(x, (num(k),))
        I.set_cell(st, ref, I.get(x, (mk("slice", NONE, num(-1), ONE) if k else mk("slice", ONE, NONE, ONE),)))
        return v
    I.set_cell(st, ref, opaque("pop"))
    return opaque("pop")


def mu_opaque(I, st, ref, args, kw):
    I.set_cell(st, ref, opaque("mutation"))
    return NONE


def mu_fill(I, st, ref, args, kw):
    x = I.tv(st, ref)
    v = I.tv(st, args[0])
    I.set_cell(st, ref, t.zeros_like(x) if v is ZERO else opaque("fill"))
    return NONE


def mu_add(I, st, ref, args, kw):
    c = st.heap[ref.id]
    I.set_cell(st, ref, append_list(c.val, [item(I.tv(st, args[0]))]))
    return NONE


def mu_update(I, st, ref, args, kw):
    c = st.heap[ref.id]
    cur = c.val
    for a in args:
        x = _list(I, st, [a], {})
        cur = mklist([spread(cur), spread(I.tv(st, x))])
    I.set_cell(st, ref, cur)
    return NONE


# graphs built step by step: a list of the class name and then of the nodes and edges added
def g_build(cls):
    def f(I, st, args, kw):
        if kw or args and not (len(args) == 1 and args[0] is NONE):
            return None
        return I.new(st, "graph", mklist([item(string(cls))]))
    return f


for _n in ("Graph", "DiGraph"):
    LIB["networkx." + _n] = g_build(_n)


def g_event(I, st, ref, parts):
    I.set_cell(st, ref, append_list(st.heap[ref.id].val, parts))
    return NONE


def g_weight(I, st, kw):
    """attributes of an edge: (known?, weight or None)"""
    if set(kw) - {"weight"}:
        return opaque("edge attributes")
    return I.tv(st, kw["weight"]) if "weight" in kw else mk("tuple")


def mu_add_node(I, st, ref, args, kw):
    if kw or len(args) != 1:
        return mu_opaque(I, st, ref, args, kw)
    return g_event(I, st, ref, [item(mk("tuple", string("node"), I.tv(st, args[0])))])


def mu_add_edge(I, st, ref, args, kw):
    if len(args) != 2:
        return mu_opaque(I, st, ref, args, kw)
    return g_event(I, st, ref, [item(mk("tuple", string("edge"), I.tv(st, args[0]), I.tv(st, args[1]), g_weight(I, st, kw)))])


def g_many(head, weighted=False):
    def f(I, st, ref, args, kw):
        if len(args) != 1 or set(kw) - ({"weight"} if head == "edge" and not weighted else set()):
            return mu_opaque(I, st, ref, args, kw)
        x = I.tv(st, _list(I, st, args, {}))
        tail = () if head == "node" else (g_weight(I, st, kw),)
        its = R.list_items(x)

        def mkev(e):
            if head == "node":
                return mk("tuple", string("node" if rank(e) == 0 and not (e.op == "app") else "nodes"), e)
            if e.op == "tuple" and len(e.args) == (3 if weighted else 2):
                return mk("tuple", string("edge"), *e.args[:2], e.args[2] if weighted else tail[0])
            return mk("tuple", string("wedges" if weighted else "edges"), e, *tail)
        if its is not None:
            return g_event(I, st, ref, [item(mkev(e)) for e in its])
        if x.op == "list" and all(p.op in ("item", "lcomp") for p in x.args[0]):
            out = []
            for p in x.args[0]:
                if p.op == "item":
                    out.append(item(mkev(p.args[0])))
                    continue
                v, lo, hi, b = t.open_binder(p)
                if b.op in ("gpart", "flat"):
                    break
                out.append(bind("lcomp", v, lo, hi, mkev(b)))
            else:
                return g_event(I, st, ref, out)
        n = t.length(x)
        if n is None or n.op == "opaque":
            return mu_opaque(I, st, ref, args, kw)
        v = t.fresh(ZERO, n)
        return g_event(I, st, ref, [bind("lcomp", v, ZERO, n, mkev(index(x, (v,))))])
    return f


def g_class(x):
    if x.op == "gamma":
        a, b = g_class(x.args[1]), g_class(x.args[2])
        return a if a is b else None if a is None or b is None else ite(x.args[0], a, b)
    if x.op == "list" and x.args[0]:
        p = x.args[0][0]
        if p.op == "item":
            return TRUE if p.args[0] is string("DiGraph") else FALSE if p.args[0] is string("Graph") else None
        if p.op == "spread":
            return g_class(p.args[0])
    return None


def g_directed(I, st, ref, args, kw):
    r = g_class(st.heap[ref.id].val)
    return opaque("graph class") if r is None or args or kw else r


MUTATORS = {
    ("graph", "add_node"): mu_add_node, ("graph", "add_edge"): mu_add_edge, ("graph", "add_nodes_from"): g_many("node"), ("graph", "add_edges_from"): g_many("edge"),
    ("graph", "add_weighted_edges_from"): g_many("edge", True), ("graph", "is_directed"): g_directed,
    ("list", "append"): mu_append, ("list", "extend"): mu_extend, ("list", "insert"): mu_insert, ("list", "reverse"): mu_reverse, ("list", "pop"): mu_pop,
    ("list", "sort"): mu_opaque, ("list", "remove"): mu_opaque, ("list", "clear"): mu_opaque, ("arr", "sort"): mu_opaque, ("arr", "fill"): mu_fill,
    ("arr", "resize"): mu_opaque, ("arr", "put"): mu_opaque, ("set", "add"): mu_add, ("set", "update"): mu_update, ("set", "discard"): mu_opaque, ("set", "remove"): mu_opaque,
}
