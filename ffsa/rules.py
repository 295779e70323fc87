"""Normalisation rules for binders and library applications."""
from fractions import Fraction
from . import terms as t
from .terms import (ZERO, ONE, TWO, NONE, TRUE, FALSE, C1, F1, F0, mk, num, add, addn, sub, mul, power, div, neg,
                    bind, close, fresh, subst, monos, from_monos, rank, ite, lt, eq, gamma, index, dim, length, as_int,
                    open_binder, _poly_raw, _split_scalar, _norm_mono, conj, fn, lift, dot, transpose, is_real)

HALF = num(Fraction(1, 2))


# ------------------------------------------------------------- cut points
def cuts_of(v, lo, hi, body):
    """positions c where the truth of a condition on v changes, if the gates of
    body on v are comparisons of v with values not depending on v"""
    cs = []
    seen = set()

    def scan(x):
        if x in seen or v not in x.fvs:
            return True
        seen.add(x)
        if x.op == "gamma":
            c = x.args[0]
            if v in c.fvs:
                if c.op not in ("lt", "eq0"):
                    return False
                md = monos(c.args[0])
                ms = [(m, k) for m, k in md.items() if any(v in a.fvs or (isinstance(e, t.T) and v in e.fvs) for a, e in m)]
                if len(ms) != 1 or ms[0][0] != ((v, F1),) or ms[0][1][1] != 0 or abs(ms[0][1][0]) != 1:
                    return False
                k = ms[0][1][0]
                rest = from_monos({m: cc for m, cc in md.items() if m != ms[0][0]})
                if not t.is_int(rest):
                    return False
                # k*v + rest
                root = neg(rest) if k == 1 else rest
                if c.op == "eq0":
                    cs.extend([root, add(root, ONE)])
                elif k == 1:
                    cs.append(add(root, ONE))      # v > -rest : true from root+1
                else:
                    cs.append(root)                # v < rest
            return scan(x.args[1]) and scan(x.args[2])
        return True

    if not scan(body):
        return None
    out = []
    for c in cs:
        if c not in out:
            out.append(c)
    return out


def segments(v, lo, hi, body):
    """split [lo, hi) so that body is gate-free on each part; None if unordered"""
    cs = cuts_of(v, lo, hi, body)
    if not cs:
        return None
    pts = []
    for c in cs:
        # must lie inside [lo, hi]
        a, b = t.le(lo, c), t.le(c, hi)
        if a is FALSE or b is FALSE:
            # outside: irrelevant when it is beyond the range
            continue
        if a is not TRUE or b is not TRUE:
            return None
        pts.append(c)
    order = [lo]
    for c in pts:
        if c is lo or c is hi or c in order:
            continue
        for k in range(len(order) + 1):
            if k == len(order):
                order.append(c)
                break
            if t.le(c, order[k]) is TRUE:
                order.insert(k, c)
                break
            if t.le(order[k], c) is not TRUE:
                return None
    order.append(hi)
    segs = []
    for a, b in zip(order, order[1:]):
        n = sub(b, a)
        if n is ONE:
            segs.append((a, b, None, subst(body, {v: a})))
        else:
            w = fresh(a, b)
            segs.append((a, b, w, subst(body, {v: w})))
    return segs


# ------------------------------------------------------------- pointwise
def pointwise(vs, body):
    """body written element-wise over whole arrays, when every use of the index
    variables vs is as X[vs]; returns (expr, arrays used) or None"""
    used = []
    vset = set(vs)

    def go(x):
        if not (x.fvs & vset):
            return x
        if x.op == "index":
            b, idx = x.args
            if b.fvs & vset:
                return None
            if idx == tuple(vs):
                used.append(b)
                return b
            if len(vs) == 2 and idx == (vs[1], vs[0]):
                used.append(transpose(b))
                return transpose(b)
            return None
        if x.op == "poly":
            out = ZERO
            for m, c in x.args:
                y = mk("num", *c)
                dep = False
                for a, e in m:
                    if isinstance(e, t.T) and e.fvs & vset:
                        return None
                    if a.fvs & vset:
                        dep = True
                    elif rank(a) != 0:
                        return None
                    g = go(a)
                    if g is None:
                        return None
                    y = mul(y, power(g, e if isinstance(e, t.T) else num(e)))
                if not dep:
                    pass
                out = add(out, y)
            return out
        if x.op == "group":
            return go(x.args[0])
        if x.op == "fn":
            g = go(x.args[1])
            return None if g is None else fn(x.args[0], g)
        if x.op == "conj":
            g = go(x.args[0])
            return None if g is None else conj(g)
        return None

    r = go(body)
    if r is None or not used:
        return None
    return r, used


# ------------------------------------------------------------- bigsum
def _dep(x, v):
    return v in x.fvs


def r_bigsum(v, lo, hi, body):
    if lo is hi or body is ZERO:
        return ZERO if rank(body) in (0, None) or body is ZERO else t.zeros_like(subst(body, {v: lo}))
    if body.op == "zeros" and not _dep(body, v):
        return body
    n = sub(hi, lo)
    k = as_int(n)
    if k is not None:
        if k <= 0:
            return ZERO
        if k <= 8:
            return addn([subst(body, {v: add(lo, num(i))}) for i in range(k)])
    if body.op == "gamma":
        segs = segments(v, lo, hi, body)
        if segs is not None:
            return addn([b if w is None else bind("bigsum", w, a, e, b) for a, e, w, b in segs])
        c, x, y = body.args
        if not _dep(c, v):
            return ite(c, bind("bigsum", v, lo, hi, x), bind("bigsum", v, lo, hi, y))
        if x is not ZERO and y is not ZERO and x.op != "gamma" and y.op != "gamma":
            return add(bind("bigsum", v, lo, hi, mk("gamma", c, x, ZERO)), bind("bigsum", v, lo, hi, mk("gamma", c, ZERO, y)))
        # single guarded monomial: pull factors, spread sums
        for br, other in ((x, y), (y, x)):
            if other is ZERO and br.op == "poly" and len(br.args) > 1:
                out = ZERO
                for m, cc in br.args:
                    p = _poly_raw({m: cc})
                    g = mk("gamma", c, p, ZERO) if br is x else mk("gamma", c, ZERO, p)
                    out = add(out, bind("bigsum", v, lo, hi, g))
                return out
            if other is ZERO and br.op == "poly" and len(br.args) == 1:
                (m, cc), = br.args
                o = tuple((a, e) for a, e in m if not _dep(a, v) and not (isinstance(e, t.T) and _dep(e, v)) and rank(a) == 0)
                if o or cc != C1:
                    i = tuple(ae for ae in m if ae not in o)
                    p = _poly_raw({i: C1}) if i else ONE
                    g = mk("gamma", c, p, ZERO) if br is x else mk("gamma", c, ZERO, p)
                    return mul(_poly_raw({o: cc}), bind("bigsum", v, lo, hi, g))
            if other is ZERO and br.op == "num" and br is not ONE and br is not ZERO:
                g = mk("gamma", c, ONE, ZERO) if br is x else mk("gamma", c, ZERO, ONE)
                return mul(br, bind("bigsum", v, lo, hi, g))
        return None
    if not _dep(body, v):
        return mul(n, body)
    if body.op == "poly":
        pw = _sum_pointwise(v, lo, hi, body)
        if len(body.args) > 1:
            out = ZERO
            for m, c in body.args:
                out = add(out, bind("bigsum", v, lo, hi, _poly_raw({m: c})))
            return out
        (m, c), = body.args
        o = tuple((a, e) for a, e in m if not _dep(a, v) and not (isinstance(e, t.T) and _dep(e, v)))
        if o or c != C1:
            i = tuple(ae for ae in m if ae not in o)
            return mul(_poly_raw({o: c}), bind("bigsum", v, lo, hi, _poly_raw({i: C1})))
        if pw is not None:
            return pw
        r = _contract(v, lo, hi, m)
        if r is not None:
            return r
    if body is v:
        # sum of lo..hi-1
        return mul(HALF, mul(n, add(add(lo, hi), num(-1))))
    if body.op == "dot":
        fs = list(body.args)
        pre, post = [], []
        while fs and not _dep(fs[0], v):
            pre.append(fs.pop(0))
        while fs and not _dep(fs[-1], v):
            post.insert(0, fs.pop())
        if pre or post:
            inner = bind("bigsum", v, lo, hi, dot(fs))
            return dot(pre + [inner] + post)
    if body.op == "index":
        b, idx = body.args
        if idx == (v, v) and not _dep(b, v) and lo is ZERO and hi in (dim(b, 0), dim(b, 1)):
            return t.trace(b)
    pw = _sum_pointwise(v, lo, hi, body)
    if pw is not None:
        return pw
    if body.op == "bigsum":
        r = triangle("bigsum", v, lo, hi, body)
        if r is not None:
            return r
    # canonical order of nested independent sums
    if body.op == "bigsum":
        w, lo2, hi2, b2 = open_binder(body)
        if v not in lo2.fvs and v not in hi2.fvs:
            x = close("bigsum", v, lo, hi, body)
            inner = close("bigsum", v, lo, hi, b2)
            y = close("bigsum", w, lo2, hi2, inner)
            if y.dig < x.dig and inner.op == "bigsum":
                # keep normal form of inner
                inner2 = bind("bigsum", v, lo, hi, b2)
                if inner2 is inner:
                    return y
                return bind("bigsum", w, lo2, hi2, inner2)
    return None


def _sum_pointwise(v, lo, hi, body):
    if lo is not ZERO:
        return None
    p = pointwise((v,), body)
    if p is None:
        return None
    expr, used = p
    if any(hi is length(u) for u in used) and all(rank(u) == 1 for u in used):
        return t.app("sumall", (expr,), ())
    return None


def _contract(v, lo, hi, m):
    """sum_k A[i,k] B[k,j]  ->  (A@B)[i,j]"""
    if lo is not ZERO or len(m) != 2:
        # squared element: A[i,k]^2
        return None
    (a, e), (b, f) = m
    if e != F1 or f != F1 or a.op != "index" or b.op != "index":
        return None
    (A, i), (B, j) = a.args, b.args
    if _dep(A, v) or _dep(B, v) or len(i) != 2 or len(j) != 2 or rank(A) != 2 or rank(B) != 2:
        return None
    if sum(1 for x in i if x is v) != 1 or sum(1 for x in j if x is v) != 1:
        return None
    if any(_dep(x, v) and x is not v for x in i + j):
        return None
    if i[0] is v:
        A, i = transpose(A), (i[1], i[0])
    if j[1] is v:
        B, j = transpose(B), (j[1], j[0])
    if hi not in (dim(A, 1), dim(B, 0)):
        return None
    d1 = dot([A, B])
    r1 = index(d1, (i[0], j[1]))
    r2 = index(dot([transpose(B), transpose(A)]), (j[1], i[0]))
    return r1 if r1.dig <= r2.dig else r2


t.BIND_RULES["bigsum"] = r_bigsum


def r_bigprod(v, lo, hi, body):
    if lo is hi:
        return ONE
    k = as_int(sub(hi, lo))
    if k is not None:
        if k <= 0:
            return ONE
        if k <= 8:
            r = ONE
            for i in range(k):
                r = mul(r, subst(body, {v: add(lo, num(i))}))
            return r
    if not _dep(body, v) and rank(body) == 0:
        return power(body, sub(hi, lo))
    if body.op == "gamma":
        segs = segments(v, lo, hi, body)
        if segs is not None:
            r = ONE
            for a, e, w, b in segs:
                r = mul(r, b if w is None else bind("bigprod", w, a, e, b))
            return r
        c, x, y = body.args
        if not _dep(c, v):
            return ite(c, bind("bigprod", v, lo, hi, x), bind("bigprod", v, lo, hi, y))
    if body.op == "poly" and len(body.args) == 1:
        (m, c), = body.args
        if len(m) > 1 or c != C1 or m[0][1] != F1:
            r = power(mk("num", *c), sub(hi, lo)) if c != C1 else ONE
            for a, e in m:
                x = bind("bigprod", v, lo, hi, a)
                r = mul(r, power(x, e if isinstance(e, t.T) else num(e)))
            return r
    if lo is ZERO:
        p = pointwise((v,), body)
        if p is not None and any(hi is length(u) for u in p[1]) and all(rank(u) == 1 for u in p[1]):
            return t.app("prodall", (p[0],), ())
    return None


t.BIND_RULES["bigprod"] = r_bigprod


def r_comp(v, lo, hi, body):
    if lo is not ZERO:
        w = fresh(ZERO, sub(hi, lo))
        return bind("comp", w, ZERO, sub(hi, lo), subst(body, {v: add(w, lo)}))
    k = as_int(hi)
    if k is not None and 0 < k <= 6:
        es = [subst(body, {v: num(i)}) for i in range(k)]
        r = {rank(e) for e in es}
        if r == {0}:
            return t.arr((k,), tuple(es))
        shp = [t.arr_entries(e) for e in es]
        if all(s is not None and len(s[0]) == 1 for s in shp) and len({s[0] for s in shp}) == 1:
            return t.arr((k, shp[0][0][0]), tuple(x for s in shp for x in s[1]))
    if body.op == "gamma" and v not in body.args[0].fvs:
        c, x, y = body.args
        return ite(c, bind("comp", v, lo, hi, x), bind("comp", v, lo, hi, y))
    if not _dep(body, v) and rank(body) == 0 and body.op != "gamma":
        return mul(body, t.ones((hi,)))
    if body.op == "index" and body.args[1] == (v,) and not _dep(body.args[0], v):
        b = body.args[0]
        if hi is length(b) and rank(b) is not None and not isinstance(t.base_rank(b), tuple):
            return b
    p = pointwise((v,), body)
    if p is not None and all(rank(u) == 1 for u in p[1]) and any(hi is length(u) for u in p[1]):
        return p[0]
    # diagonal comprehension: X[v, v]
    if body.op == "index" and body.args[1] == (v, v) and not _dep(body.args[0], v) and hi in (dim(body.args[0], 0), dim(body.args[0], 1)):
        return t.app("diagv", (body.args[0],), ())
    if body.op in ("comp", "poly"):
        # scalar factors independent of all indices come out
        if body.op == "poly" and len(body.args) == 1:
            (m, c), = body.args
            o = tuple((a, e) for a, e in m if not _dep(a, v) and rank(a) == 0)
            if o or c != C1:
                i = tuple(ae for ae in m if ae not in o)
                if i:
                    return mul(_poly_raw({o: c}), bind("comp", v, lo, hi, _poly_raw({i: C1})))
        if body.op == "poly" and len(body.args) > 1:
            return addn([bind("comp", v, lo, hi, _poly_raw({m: c})) for m, c in body.args])
    if body.op == "comp":
        w, lo2, hi2, b2 = open_binder(body)
        if v not in hi2.fvs:
            p = pointwise((v, w), b2)
            if p is not None and all(rank(u) == 2 for u in p[1]) and any(hi is dim(u, 0) and hi2 is dim(u, 1) for u in p[1]):
                return p[0]
            if b2.op == "gamma" and b2.args[0] in (eq(v, w),) and b2.args[2] is ZERO and hi is hi2:
                d = b2.args[1]
                if not _dep(d, v) and not _dep(d, w):
                    return mul(d, t.eye(hi))
                return t.app("diagm", (bind("comp", v, lo, hi, subst(d, {w: v})),), ())
    elif body.op == "ones" and len(body.args[0]) == 1 and not _dep(body, v):
        return t.ones((hi,) + body.args[0])
    return None


t.BIND_RULES["comp"] = r_comp


def comp_shape(c):
    sh = []
    while c.op == "comp":
        sh.append(c.args[2])
        c = open_binder(c)[3]
    return tuple(sh)


def comp_zip(parts):
    """sum of coeff * comprehension, all of one shape -> one comprehension"""
    a = parts[0][1]
    v, lo, hi, b = open_binder(a)
    bodies = [(parts[0][0], b)]
    for c, x in parts[1:]:
        bodies.append((c, t.open_binder_with(x, v)))
    if all(y.op == "comp" for _, y in bodies):
        inner = comp_zip(bodies)
    else:
        inner = addn([mul(c, y) for c, y in bodies])
    # avoid bouncing between the split and the merged form
    return close("comp", v, lo, hi, inner)


t.comp_shape = comp_shape
t._comp_zip = comp_zip
# sums of comprehensions stay split (r_comp distributes them), so no re-folding
_orig_fold = t._fold_arrays


def _fold(d):
    if not any(any(a.op in ("arr", "block") for a, _ in m) for m in d):
        return d
    sel = {m: c for m, c in d.items() if any(a.op in ("arr", "block") for a, _ in m)}
    rest = {m: c for m, c in d.items() if m not in sel}
    # a lone coefficient * explicit array is already normal
    if len(sel) == 1:
        return d
    out = _orig_fold(sel)
    for m, c in rest.items():
        out[m] = t._cadd(out.get(m, (F0, F0)), c)
    return out


t._fold_arrays = _fold


def r_bigkron(v, lo, hi, body):
    if lo is hi:
        return ONE
    k = as_int(sub(hi, lo))
    if k is not None and 0 <= k <= 6:
        r = ONE
        for i in range(k):
            r = t.kron2(r, subst(body, {v: add(lo, num(i))}))
        return r
    if body.op == "gamma":
        segs = segments(v, lo, hi, body)
        if segs is not None:
            r = ONE
            for a, e, w, b in segs:
                r = t.kron2(r, b if w is None else bind("bigkron", w, a, e, b))
            return r
        c, x, y = body.args
        if not _dep(c, v):
            return ite(c, bind("bigkron", v, lo, hi, x), bind("bigkron", v, lo, hi, y))
    if not _dep(body, v):
        return t.kron_segs([(body, sub(hi, lo))])
    return None


t.BIND_RULES["bigkron"] = r_bigkron


def r_bigdot(v, lo, hi, body):
    if lo is hi:
        return ONE
    k = as_int(sub(hi, lo))
    if k is not None and 0 < k <= 6:
        return dot([subst(body, {v: add(lo, num(i))}) for i in range(k)])
    return None


t.BIND_RULES["bigdot"] = r_bigdot


def r_lcomp(v, lo, hi, body):
    if lo is not ZERO:
        w = fresh(ZERO, sub(hi, lo))
        return bind("lcomp", w, ZERO, sub(hi, lo), subst(body, {v: add(w, lo)}))
    return None


t.BIND_RULES["lcomp"] = r_lcomp


def list_comp(v, lo, hi, body):
    """list parts for [body for v in range(lo, hi)]"""
    if body.op == "gamma":
        segs = segments(v, lo, hi, body)
        if segs is not None:
            out = []
            for a, e, w, b in segs:
                if w is None:
                    out.append(t.item(b))
                else:
                    out.extend(list_comp(w, a, e, b))
            return out
    return [bind("lcomp", v, lo, hi, body)]


def r_exists(v, lo, hi, body):
    if body is FALSE or lo is hi:
        return FALSE
    if body is TRUE:
        return lt(lo, hi)
    k = as_int(sub(hi, lo))
    if k is not None and k <= 8:
        r = FALSE
        for i in range(k):
            r = t.b_or(r, subst(body, {v: add(lo, num(i))}))
        return r
    if not _dep(body, v):
        return t.b_and(lt(lo, hi), body)
    if body.op == "gamma":
        c, x, y = body.args
        if not _dep(c, v):
            return ite(c, bind("exists", v, lo, hi, x), bind("exists", v, lo, hi, y))
        if x is TRUE:
            return t.b_or(bind("exists", v, lo, hi, c), bind("exists", v, lo, hi, y))
        if y is TRUE and x is not FALSE:
            return t.b_or(bind("exists", v, lo, hi, t.b_not(c)), bind("exists", v, lo, hi, x))
    if body.op == "exists":
        return triangle("exists", v, lo, hi, body)
    return None


def triangle(op, v, lo, hi, body):
    """canonical form of sums over triangles: outer s, inner [0, s+1)"""
    w, lo2, hi2, b2 = open_binder(body)
    if lo2 is not ZERO or lo is not ZERO or v not in hi2.fvs:
        return None
    k = sub(hi2, v)
    c = add(hi2, v)
    if v not in k.fvs:
        b = as_int(k)
        if b is not None and b < 1:
            # leading outer iterations are empty
            return bind(op, v, num(1 - b), hi, body)
        return None
    if v not in c.fvs and t.le(c, hi) is TRUE:
        s = fresh(ZERO, c)
        u = fresh(ZERO, add(s, ONE))
        return bind(op, s, ZERO, c, bind(op, u, ZERO, add(s, ONE), subst(b2, {v: u, w: sub(s, u)})))
    return None


t.BIND_RULES["exists"] = r_exists


def r_ucomp(v, lo, hi, body):
    k = as_int(sub(hi, lo))
    return None


# ------------------------------------------------------------- applications
R = t.APP_RULES


def rule(name):
    def d(f):
        R[name] = f
        return f
    return d


def _logic(name, f, n):
    def g(args, kw):
        if len(args) != n or kw:
            return None
        if all(t.brank(a) == 0 and t.is_bool(a) for a in args):
            return f(*args)
        if any(a in (TRUE, FALSE) for a in args) and n == 2:
            return f(*args)
        s = tuple(sorted(args, key=lambda a: a.dig))
        return t.app(name, s, kw) if s != tuple(args) else None
    R[name] = g


_logic("land", t.b_and, 2)
_logic("lor", t.b_or, 2)
_logic("lnot", t.b_not, 1)


def logic(op, *args):
    """elementwise and, or, not"""
    if all(t.brank(a) == 0 or t.brank(a) is None and a.op not in ("lt", "eq0", "app") for a in args) and all(t.is_bool(a) for a in args):
        return {"land": t.b_and, "lor": t.b_or, "lnot": t.b_not}[op](*args)
    if op == "lnot" and t.brank(args[0]) is None:
        return t.b_not(args[0]) if t.is_bool(args[0]) else t.app("invert", args, ())
    return t.app(op, tuple(args), ())


@rule("fstr")
def _fstr(args, kw):
    """a text made of pieces: nested texts are flattened, adjacent literals joined"""
    out = []
    for a in args:
        if a.op == "app" and a.args[0] == "str" and len(a.args[1]) == 1:
            a = t.app("format", (a.args[1][0], NONE, t.num(-1)), ())
        if a.op == "app" and a.args[0] == "format" and a.args[1][0].op == "str" and a.args[1][1] is NONE:
            a = a.args[1][0]
        for p in (a.args[1] if a.op == "app" and a.args[0] == "fstr" and not a.args[2] else [a]):
            if p.op == "str" and not p.args[0]:
                continue
            if p.op == "str" and out and out[-1].op == "str":
                p = mk("str", out.pop().args[0] + p.args[0])
            out.append(p)
    if not out:
        return mk("str", "")
    if len(out) == 1 and out[0].op == "str":
        return out[0]
    return mk("app", "fstr", tuple(out), ())


@rule("sumall")
def _sumall(args, kw):
    x = args[0]
    if kw or len(args) != 1:
        return None
    if x.op == "list":
        r = ZERO
        for p in x.args[0]:
            if p.op == "item":
                r = add(r, p.args[0])
            elif p.op == "lcomp":
                v, lo, hi, b = open_binder(p)
                if b.op == "gpart":
                    b = ite(b.args[0], b.args[1], ZERO)
                elif b.op in ("flat", "list"):
                    b = t.app("sumall", (mk("list", b.args[0]),), ())
                r = add(r, bind("bigsum", v, lo, hi, b))
            elif p.op == "spread":
                r = add(r, t.app("sumall", (p.args[0],), ()))
            else:
                return None
        return r
    if x.op == "tuple":
        return addn(list(x.args))
    if x.op == "comp":
        v, lo, hi, b = open_binder(x)
        if rank(b) not in (0,) or b.op == "comp":
            b = t.app("sumall", (b,), ())
        return bind("bigsum", v, lo, hi, b)
    if x.op == "arr":
        return addn(list(x.args[1]))
    if x.op == "eye":
        return x.args[0]
    if x.op in ("zeros",):
        return ZERO
    if x.op == "ones":
        r = ONE
        for s in x.args[0]:
            r = mul(r, s)
        return r
    if x.op == "app" and x.args[0] == "diagv":
        return t.trace(x.args[1][0])
    if x.op in ("tr",):
        return t.app("sumall", (x.args[0],), ())
    if rank(x) == 0 and x.op not in ("app",):
        return x
    if x.op == "poly":
        if len(x.args) > 1:
            ranks = {rank(_poly_raw({m: c})) for m, c in x.args}
            if 0 in ranks or None in ranks and len(x.args) > 1:
                r = rank(x)
                if r == 1:
                    out = ZERO
                    for m, c in x.args:
                        p = _poly_raw({m: c})
                        out = add(out, mul(p, dim(x, 0)) if rank(p) == 0 else t.app("sumall", (p,), ()))
                    return out
                if None in ranks and 0 not in ranks:
                    return addn([t.app("sumall", (_poly_raw({m: c}),), ()) for m, c in x.args])
                return None
            return addn([t.app("sumall", (_poly_raw({m: c}),), ()) for m, c in x.args])
        (m, c), = x.args
        s, r = _split_scalar(m)
        if s or c != C1:
            return mul(_poly_raw({s: c}), t.app("sumall", (_poly_raw({r: C1}),), ()))
        if len(r) == 2 and all(e == F1 and rank(a) == 2 for a, e in r):
            return t.trace(dot([r[0][0], transpose(r[1][0])]))
    return None


@rule("prodall")
def _prodall(args, kw):
    x = args[0]
    if x.op == "list":
        r = ONE
        for p in x.args[0]:
            if p.op == "item":
                r = mul(r, p.args[0])
            elif p.op == "lcomp":
                v, lo, hi, b = open_binder(p)
                if b.op in ("gpart", "flat"):
                    return None
                r = mul(r, bind("bigprod", v, lo, hi, b))
            elif p.op == "spread":
                r = mul(r, t.app("prodall", (p.args[0],), ()))
            else:
                return None
        return r
    if x.op == "comp":
        v, lo, hi, b = open_binder(x)
        return bind("bigprod", v, lo, hi, b)
    return None


@rule("diag")
def _diag(args, kw):
    r = rank(args[0])
    if len(args) > 1 and args[1] is not ZERO:
        return None
    if r == 1:
        return t.app("diagm", (args[0],), ())
    if r == 2:
        return t.app("diagv", (args[0],), ())
    if args[0].op == "list":
        return t.app("diagm", (to_array(args[0]),), ())
    return None


@rule("diagm")
def _diagm(args, kw):
    x = args[0]
    if x.op == "ones":
        return t.eye(x.args[0][0])
    if x.op == "zeros":
        return t.zeros((x.args[0][0], x.args[0][0]))
    if x.op == "arr":
        n = x.args[0][0]
        return t.arr((n, n), tuple(x.args[1][i] if i == j else ZERO for i in range(n) for j in range(n)))
    if x.op == "app" and x.args[0] == "diagv" and x.args[1][0].op == "app" and x.args[1][0].args[0] == "diagm":
        return x.args[1][0]
    if x.op == "poly":
        out = ZERO
        for m, c in x.args:
            s, r = _split_scalar(m)
            if not r:
                return None
            if len(x.args) == 1 and not s and c == C1:
                return None
            out = add(out, mul(_poly_raw({s: c}), t.app("diagm", (_poly_raw({r: C1}),), ())))
        return out
    if x.op == "concat1":
        return None
    return None


@rule("diagv")
def _diagv(args, kw):
    x = args[0]
    if x.op == "app" and x.args[0] == "diagm":
        return x.args[1][0]
    if x.op == "eye":
        return t.ones((x.args[0],))
    if x.op == "tr":
        return t.app("diagv", (x.args[0],), ())
    if x.op == "arr":
        n, m = x.args[0]
        return t.arr((min(n, m),), tuple(x.args[1][i * m + i] for i in range(min(n, m))))
    if x.op == "poly":
        out = ZERO
        for m, c in x.args:
            s, r = _split_scalar(m)
            if not r or (len(x.args) == 1 and not s and c == C1):
                return None
            out = add(out, mul(_poly_raw({s: c}), t.app("diagv", (_poly_raw({r: C1}),), ())))
        return out
    if x.op == "comp" and x.args[3].op == "comp":
        v, lo, hi, b = open_binder(x)
        return bind("comp", v, lo, hi, index(b, (v,)))
    return None


@rule("norm")
def _norm(args, kw):
    x = args[0]
    if kw:
        return None
    o = args[1] if len(args) > 1 else NONE
    if x.op == "app" and x.args[0] in ("flatten", "ravel") and o is not NONE and as_int(o) == 2:
        o = NONE
        x = x.args[1][0]
    if as_int(o) == 2 and rank(x) == 1:
        o = NONE
    if x.op == "list":
        x = to_array(x)
    if rank(x) == 0 and o is NONE and x.op in ("num", "poly"):
        return fn("abs", x)
    if o is not NONE and as_int(o) == 1 and rank(x) == 1:
        return t.app("sumall", (fn("abs", x),), ())
    if x.op == "poly" and len(x.args) == 1:
        (m, c), = x.args
        s, r = _split_scalar(m)
        if (s or c != C1) and r:
            return mul(fn("abs", _poly_raw({s: c})), t.app("norm", (_poly_raw({r: C1}),) + ((o,) if o is not NONE else ()), ()))
    if o is NONE and len(args) > 1:
        return t.app("norm", (x,), ())
    if x is not args[0]:
        return mk("app", "norm", (x,) + args[1:], ())
    if x.op == "zeros":
        return ZERO
    return None


@rule("int")
def _int(args, kw):
    x = args[0]
    if t.is_int(x):
        return x
    if x.op == "num" and x.args[1] == 0:
        return num(int(x.args[0]))
    if x.op == "app" and x.args[0] in ("round0", "floor0") and len(x.args[1]) == 1 and t.is_int(x.args[1][0]):
        return x.args[1][0]
    if x.op == "fn" and x.args[0] in ("round", "floor", "ceil") and t.is_int(x.args[1]):
        return x.args[1]
    # int(a/b) for integer a, b
    q = _as_quotient(x)
    if q is not None:
        return t.app("floordiv", q, ())
    if x.op == "fn" and x.args[0] == "floor":
        return t.app("int", (x.args[1],), ())
    return None


def _as_quotient(x):
    if x.op == "fn" and x.args[0] == "floor":
        x = x.args[1]
    md = monos(x)
    if len(md) != 1:
        # (a + b)/c with constant c
        from math import lcm
        l = 1
        for m, c in md.items():
            if c[1] != 0:
                return None
            l = lcm(l, c[0].denominator)
        y = mul(num(l), x)
        if l > 1 and t.is_int(y):
            return (y, num(l))
        return None
    (m, c), = md.items()
    if c[1] != 0:
        return None
    top, bot = [], []
    for a, e in m:
        if isinstance(e, Fraction) and e.denominator == 1:
            (top if e > 0 else bot).append((a, abs(e)))
        elif isinstance(e, t.T) and a.op == "num":
            top.append((a, e))
        else:
            return None
    T = _poly_raw({tuple(top): (Fraction(c[0].numerator), F0)})
    B = _poly_raw({tuple(bot): (Fraction(c[0].denominator), F0)})
    if B is ONE or not t.is_int(T) or not t.is_int(B):
        return None
    return T, B


@rule("floordiv")
def _floordiv(args, kw):
    a, b = args
    ia, ib = as_int(a), as_int(b)
    if ib == 1 and t.is_int(a):
        return a
    if ia is not None and ib:
        return num(ia // ib)
    if ib and ib > 0 and t.is_int(a):
        # divisible coefficients come out
        q, r = {}, {}
        for m, c in monos(a).items():
            if c[1] != 0 or c[0].denominator != 1:
                return None
            k = c[0].numerator
            if k % ib == 0:
                q[m] = (Fraction(k // ib), F0)
            else:
                r[m] = c
        if q and r:
            return add(from_monos(q), t.app("floordiv", (from_monos(r), b), ()))
        if q:
            return from_monos(q)
    d = div(a, b)
    if t.is_int(d):
        return d
    return None


@rule("mod")
def _mod(args, kw):
    a, b = args
    ia, ib = as_int(a), as_int(b)
    if ia is not None and ib:
        return num(ia % ib)
    if ib and ib > 0 and t.is_int(a):
        r = {}
        ch = False
        for m, c in monos(a).items():
            k = c[0].numerator % ib
            if k != c[0].numerator:
                ch = True
            if k:
                r[m] = (Fraction(k), F0)
        if ch:
            return t.app("mod", (from_monos(r), b), ())
        if ib == 2 and len(r) > 1:
            pass
    if a is b:
        return ZERO
    return None


_old_eq0 = t._eq0


def _eq0(p):
    # parity: mod(x,2) == 1  <=>  not mod(x,2) == 0 ;  x == b*floor(x/b)  <=>  x mod b == 0
    if p.op == "poly" and len(p.args) == 2:
        md = dict(p.args)
        ms = [m for m in md if m != ()]
        if len(ms) == 1 and () in md and len(ms[0]) == 1 and ms[0][0][1] == F1:
            a = ms[0][0][0]
            if a.op == "app" and a.args[0] == "mod" and a.args[1][1] is TWO:
                v = -md[()][0] / md[ms[0]][0]
                if v == 1:
                    return t.b_not(_old_eq0(a))
    if p.op == "poly":
        for m, c in p.args:
            fd = [a for a, e in m if e == F1 and a.op == "app" and a.args[0] == "floordiv"]
            if len(fd) == 1:
                x, b = fd[0].args[1]
                k = mk("num", *c)
                # p == s*(x/b - floor(x/b))
                for s in (neg(k),):
                    rest = sub(p, _poly_raw({m: c}))
                    m_other = _poly_raw({tuple((a, e) for a, e in m if a is not fd[0]): c})
                    if rest is neg(mul(m_other, div(x, b))):
                        return _eq0(t.app("mod", (x, b), ()))
    return _old_eq0(p)


t._eq0 = _eq0


@rule("log2")
def _log2(args, kw):
    e = t.log2_exact(args[0])
    if e is not None:
        return e
    return None


@rule("shape")
def _shape(args, kw):
    r = rank(args[0])
    if isinstance(r, int) and r in (1, 2):
        return mk("tuple", *[dim(args[0], k) for k in range(r)])
    return None


@rule("len")
def _len(args, kw):
    return length(args[0])


@rule("abs0")
def _abs0(args, kw):
    return fn("abs", args[0])


@rule("bool")
def _bool(args, kw):
    return t.truth(args[0])


def _minmax(name):
    def f(args, kw):
        if kw:
            return None
        if len(args) == 1 and args[0].op in ("list", "tuple"):
            xs = list_items(args[0])
            if xs is None:
                return None
            return t.app(name, tuple(xs), ())
        if len(args) >= 2:
            if all(x.op == "num" for x in args):
                vals = [x.args[0] for x in args]
                return num(min(vals) if name == "min" else max(vals))
            if len(args) == 2:
                a, b = args
                c = t.le(a, b)
                if c is TRUE:
                    return a if name == "min" else b
                if c is FALSE:
                    return b if name == "min" else a
            s = tuple(sorted(set(args), key=lambda x: x.dig))
            if len(s) == 1:
                return s[0]
            if s != args:
                return mk("app", name, s, ())
        return None
    return f


R["min"] = _minmax("min")
R["max"] = _minmax("max")


def list_items(x):
    if x.op == "tuple":
        return list(x.args)
    if x.op == "list" and all(p.op == "item" for p in x.args[0]):
        return [p.args[0] for p in x.args[0]]
    if x.op == "arr" and len(x.args[0]) == 1:
        return list(x.args[1])
    return None


def to_array(x):
    """np.array(x) of a Python sequence"""
    if x.op == "gamma":
        return lift(to_array, (x,))
    if x.op not in ("list", "tuple"):
        return x
    items = list_items(x)
    if items is not None:
        if not items:
            return t.zeros((ZERO,))
        subs = [to_array(i) if i.op in ("list", "tuple") else i for i in items]
        if all(rank(s) == 0 for s in subs):
            return t.arr((len(subs),), tuple(subs))
        es = [t.arr_entries(s) for s in subs]
        if all(e is not None for e in es) and len({e[0] for e in es}) == 1 and len(es[0][0]) <= 2:
            return t.arr((len(subs),) + es[0][0], tuple(e for s in es for e in s[1]))
        return t.app("np.array", (mk("list", tuple(t.item(s) for s in subs)),), ())
    parts = x.args[0]
    if len(parts) == 1 and parts[0].op == "lcomp":
        v, lo, hi, b = open_binder(parts[0])
        if b.op in ("gpart", "flat"):
            return mk("app", "np.array", (x,), ())
        return bind("comp", v, lo, hi, to_array(b))
    if len(parts) == 1 and parts[0].op == "spread":
        return parts[0].args[0]
    return mk("app", "np.array", (x,), ())


@rule("np.array")
def _np_array(args, kw):
    x = args[0]
    if x.op in ("list", "tuple"):
        r = None
        items = list_items(x)
        if items is None or all(rank(i) == 0 for i in items) or any(i.op in ("list", "tuple") for i in items):
            if x.op == "list" and len(x.args[0]) == 1 or items is not None:
                r = to_array(x)
                if r.op == "app" and r.args[0] == "np.array":
                    return None
        return r
    return x


@rule("pow")
def _pow(args, kw):
    if args[0].op != "num" or args[0].args != (Fraction(-1), F0):
        return power(*args)
    e = args[1]
    ie = as_int(e)
    if ie is not None:
        return num((-1) ** ie)
    # (-1)**e by parity
    if t.is_int(e):
        return ite(eq(t.app("mod", (e, TWO), ()), ZERO), ONE, num(-1))
    return None


@rule("reshape")
def _reshape(args, kw):
    x, sh = args[0], args[1]
    if sh.op != "tuple":
        sh = mk("tuple", *args[1:])
        return t.app("reshape", (x, sh), ())
    if x.op == "app" and x.args[0] == "reshape":
        return t.app("reshape", (x.args[1][0], sh), ())
    d = sh.args
    if len(d) == 2 and rank(x) == 2 and d[0] is dim(x, 0) and d[1] is dim(x, 1):
        return x
    if len(d) == 2 and rank(x) == 2 and as_int(d[1]) == 1 and dim(x, 1) is ONE:
        return x
    # (n,1) and (-1,1) of a vector are the same column
    if len(d) == 2 and d[1] is ONE and as_int(d[0]) != -1:
        if (rank(x) == 1 and d[0] is dim(x, 0)):
            return t.app("reshape", (x, mk("tuple", num(-1), ONE)), ())
    return None


def _is_rank(name, r):
    t.RANK_OF_APP[name] = r


t.RANK_OF_APP.update({
    "diagv": 1, "diagm": 2, "expm": 2, "logm": 2, "eigvals": 1, "eigvalsh": 1, "inv": 2, "argsort": 1, "sort": lambda x: rank(x.args[1][0]),
    "reshape": lambda x: len(x.args[1][1].args) if x.args[1][1].op == "tuple" else None,
    "triu": 2, "tril": 2, "flatten": 1, "flip": lambda x: rank(x.args[1][0]), "concat": None, "hstack": 2, "vstack": 2, "append": 1,
    "arange": 1, "outer": 2, "np.array": None, "cast_int": lambda x: rank(x.args[1][0]), "realcast": lambda x: rank(x.args[1][0]),
    "adjacency": 2, "cumsum": 1, "allclose_arr": None, "linspace": 1,
    "ff.cast_to_density_matrix": 2, "ff.cast_to_pdf": 1, "ff.build_H": 2, "ff.build_V": 2, "ff.build_Omega": 2, "ff.build_K": 2,
    "ff.build_op": 2, "ff.build_reordering_xx_to_xp": 2, "ff.random_H_generator": 2, "ff.compute_cov_matrix": 2, "ff.compute_2corr_matrix": 2,
    "ff.correlation_matrix": 2, "ff.compute_algebra_S": 2, "ff.kron_plus": 2, "ff.sgn": 0, "ff.pf": 0, "ff.hf": 0, "ff.stabilizer_distribution": 1,
    "ff.renyi_entropy": 0, "ff.cov_distribution": 1, "ff.permutation_to_matrix": 2, "ff.get_orthogonal_vectors": 2, "ff.clean": None,
    "ff.dt": 0, "ff.dt_eigen": 0, "ff.pt": 0, "ff.partial_trace_over_1": 2, "ff.partial_trace_over_2": 2, "ff.kitaev_chain": 2,
    "ff.generate_gaussian_state": 2,
})
t.EXTRA_REAL.update({"eigvalsh", "argsort", "ff.cast_to_pdf", "ff.sgn", "ff.stabilizer_distribution", "ff.build_reordering_xx_to_xp", "ff.permutation_to_matrix", "adjacency",
                     "ff.renyi_entropy", "arange", "special_ortho_group", "trapz"})
t.EXTRA_NONNEG.update({"ff.cast_to_pdf"})
t.DIM_OF_APP.update({
    "ff.cast_to_pdf": None,
})
t.DIM_OF_APP.pop("ff.cast_to_pdf")


def _d2n(a, k):
    return mul(TWO, a.args[1][0])


for _n in ("ff.build_Omega", "ff.build_H", "ff.build_V", "ff.build_K", "ff.build_reordering_xx_to_xp", "ff.random_H_generator"):
    t.DIM_OF_APP[_n] = _d2n
t.DIM_OF_APP["expm"] = lambda a, k: dim(a.args[1][0], k)
t.DIM_OF_APP["ff.build_op"] = lambda a, k: dim(index(a.args[1][2], (ZERO,)), 0) if len(a.args[1]) > 2 else None
t.LEN_OF_APP.update({
    "ff.jordan_wigner_lowering": lambda a: a.args[1][0],
    "ff.jordan_wigner_alphas": lambda a: mul(TWO, a.args[1][0]),
    "ff.jordan_wigner_majoranas": lambda a: mul(TWO, a.args[1][0]),
    "ff.rotate_operators": lambda a: length(a.args[1][1]),
})


# powers of norms and absolute values
_old_norm_mono = t._norm_mono


def _norm_mono2(factors, coeff):
    fs = []
    ch = False
    for a, e in factors:
        if isinstance(e, Fraction) and a.op == "fn" and a.args[0] == "abs" and e.denominator == 1 and e % 2 == 0 and is_real(a.args[1]):
            md = monos(a.args[1])
            if len(md) == 1:
                (m, c), = md.items()
                for _ in range(abs(int(e))):
                    coeff = t._cmul(coeff, c if e > 0 else (1 / c[0], F0))
                fs.extend((b, t._exp_mulf(k, e)) for b, k in m)
            else:
                fs.append((mk("group", a.args[1]) if a.args[1].op == "poly" else a.args[1], e))
            ch = True
        else:
            fs.append((a, e))
    return _old_norm_mono(fs, coeff)


t._norm_mono = _norm_mono2


def _fold_dim(a, k):
    f = a.args[1][0]
    i0 = f.args[4].args[t.as_int(a.args[1][1])]
    return dim(i0, k) if rank(i0) is not None and k < (rank(i0) or 0) and i0.op not in ("opaque",) else None


t.DIM_OF_APP["fold_get"] = _fold_dim
