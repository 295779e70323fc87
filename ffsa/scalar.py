"""Bounded scalarisation of summary terms.

A mismatch between two normal forms is not yet a difference: the normal form is
incomplete.  Here both terms are instantiated at small *shapes* (numbers of
modes, matrix dimensions, list lengths) and rewritten, operator by operator, to
explicit arrays whose entries are polynomials over the symbolic entries of the
arguments.  Nothing is executed and no entry gets a value: the arguments stay
symbolic.  Operators that cannot be rewritten stay as uninterpreted atoms of
their canonical operands.
"""
from fractions import Fraction
import itertools
import math
import time
from . import terms as t
from .terms import T, mk, num, ZERO, ONE, NONE, TRUE, FALSE, as_int


class Unsup(Exception):
    pass


class Split(Exception):
    def __init__(self, atom):
        self.atom = atom


class A:
    """array of known shape"""
    __slots__ = ("shape", "d", "dt")

    def __init__(self, shape, d, dt=None):
        self.shape, self.d, self.dt = tuple(shape), list(d), dt

    @property
    def nd(self):
        return len(self.shape)


class L:
    __slots__ = ("kind", "xs")

    def __init__(self, kind, xs):
        self.kind, self.xs = kind, list(xs)


class Fn:
    __slots__ = ("term", "env")

    def __init__(self, term, env):
        self.term, self.env = term, env


MAXN = 70000


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def key(v):
    """canonical term of a value"""
    if isinstance(v, T):
        return v
    if isinstance(v, A):
        return mk("arr", v.shape, tuple(v.d))
    if isinstance(v, L):
        return mk(v.kind, *[key(x) for x in v.xs]) if v.kind == "tuple" else mk("list", tuple(mk("item", key(x)) for x in v.xs))
    if hasattr(v, "nodes"):
        return mk("app", "graph", (v.key(),) + tuple(v.nodes), ())
    raise Unsup("function value")


def strides(shape):
    out, s = [], 1
    for n in reversed(shape):
        out.append(s)
        s *= n
    return list(reversed(out))


ENTRIES = set()      # atoms that are entries of an array of known shape


def unknown_shape(v):
    return v.op in ("app", "index", "sym", "draw") and v not in ENTRIES and t.rank(v) != 0


def bcast(f, *vs):
    if not any(isinstance(v, A) for v in vs):
        if any(not isinstance(v, T) for v in vs):
            raise Unsup("elementwise on a list")
        return f(*vs)
    for v in vs:
        if isinstance(v, T) and unknown_shape(v):
            raise Unsup("unknown shape of " + t.show(v)[:40])
    nd = max(v.nd for v in vs if isinstance(v, A))
    sh = [1] * nd
    for v in vs:
        if isinstance(v, A):
            s = (1,) * (nd - v.nd) + v.shape
            for k in range(nd):
                if s[k] != 1:
                    if sh[k] not in (1, s[k]):
                        raise Unsup("shapes do not broadcast")
                    sh[k] = s[k]
            if 0 in s:
                for k in range(nd):
                    if s[k] == 0:
                        sh[k] = 0
        elif not isinstance(v, T):
            raise Unsup("elementwise on a list")
    n = prod(sh)
    if n > MAXN:
        raise Unsup("too large")
    cols = []
    for v in vs:
        if isinstance(v, T):
            cols.append([v] * n)
        elif v.shape == tuple(sh):
            cols.append(v.d)
        else:
            s = (1,) * (nd - v.nd) + v.shape
            st = strides(s)
            st = [0 if s[k] == 1 else st[k] for k in range(nd)]
            cols.append([v.d[sum(i * q for i, q in zip(ix, st))] for ix in itertools.product(*[range(k) for k in sh])])
    return A(sh, [f(*xs) for xs in zip(*cols)])


def map1(f, v):
    if isinstance(v, A):
        memo = {}
        out = []
        for x in v.d:
            y = memo.get(x)
            if y is None:
                y = memo[x] = f(x)
            out.append(y)
        return A(v.shape, out)
    if isinstance(v, T):
        return f(v)
    raise Unsup("elementwise on a list")


def addt(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return t.add(a, b)


def mult(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return t.mul(a, b)


def sumt(xs):
    r = ZERO
    for x in xs:
        r = addt(r, x)
    return r


HALF = num(Fraction(1, 2))


def sc_conj(x):
    return x if x.op == "num" and x.args[1] == 0 else t.conj(x)


def sc_re(x):
    if t.is_real(x):
        return x
    return t.mul(HALF, t.add(x, t.conj(x)))


def sc_im(x):
    if t.is_real(x):
        return ZERO
    return t.mul(num(0, Fraction(-1, 2)), t.sub(x, t.conj(x)))


def sc_abs(x):
    if x.op == "num" and x.args[1] == 0:
        return num(abs(x.args[0]))
    if t.is_nonneg(x):
        return x
    if t.is_real(x):
        return t.fn("abs", x)
    q = t.mul(x, t.conj(x))
    r = t.power(q, HALF)
    md = t.monos(r)
    if len(md) == 1:
        (m, c), = md.items()
        if c[1] == 0 and c[0] > 0:
            bad = [a for a, e in m if not t.is_nonneg(a)]
            if len(bad) == 1 and bad[0].op == "group":
                t.known_nonneg(bad[0])
                t.known_nonneg(bad[0].args[0])
    return r


def unwrap_num(x):
    return x.op == "num"


def to_int(x):
    if isinstance(x, A) and prod(x.shape) == 1:
        x = x.d[0]
    if not isinstance(x, T):
        raise Unsup("integer expected")
    k = as_int(x)
    if k is None:
        raise Unsup("integer expected")
    return k


SHARE = [False]      # name large entries instead of expanding them further


def shared(x):
    return mk("group", x) if SHARE[0] and x.op == "poly" and len(x.args) > 6 else x


def dot2(a, b):
    if isinstance(a, T) or isinstance(b, T):
        for v in (a, b):
            if isinstance(v, T) and unknown_shape(v):
                raise Unsup("unknown shape of " + t.show(v)[:40])
        return bcast(mult, a, b)
    if isinstance(a, L) or isinstance(b, L):
        raise Unsup("matrix product of a list")
    if a.nd > 2 or b.nd > 2 or not a.nd or not b.nd:
        raise Unsup("matrix product")
    ar, ac = a.shape if a.nd == 2 else (1, a.shape[0])
    br, bc = b.shape if b.nd == 2 else (b.shape[0], 1)
    if ac != br:
        raise Unsup(f"shapes do not match {a.shape} {b.shape}")
    rows = [[(k, a.d[i * ac + k]) for k in range(ac) if a.d[i * ac + k] is not ZERO] for i in range(ar)]
    cols = [{k: b.d[k * bc + j] for k in range(br) if b.d[k * bc + j] is not ZERO} for j in range(bc)]
    out = []
    for i in range(ar):
        for j in range(bc):
            s = ZERO
            c = cols[j]
            for k, x in rows[i]:
                y = c.get(k)
                if y is not None:
                    s = addt(s, mult(x, y))
            out.append(shared(s))
    sh = (() if a.nd == 1 else (ar,)) + (() if b.nd == 1 else (bc,))
    if not sh:
        return out[0]
    return A(sh, out)


def as_array(v):
    if isinstance(v, (T, A)):
        return v
    if isinstance(v, L):
        xs = [as_array(x) for x in v.xs]
        if all(isinstance(x, T) for x in xs):
            return A((len(xs),), xs)
        if all(isinstance(x, A) for x in xs) and len({x.shape for x in xs}) == 1:
            return A((len(xs),) + xs[0].shape, [y for x in xs for y in x.d])
    raise Unsup("array expected")


def transpose(v):
    if isinstance(v, T):
        if unknown_shape(v) or v.op == "poly" and any(unknown_shape(a) for m, c in v.args for a, e in m):
            raise Unsup("unknown shape of " + t.show(v)[:40])
        return v
    if v.nd < 2:
        return v
    if v.nd != 2:
        return permute(v, tuple(reversed(range(v.nd))))
    r, c = v.shape
    return A((c, r), [v.d[i * c + j] for j in range(c) for i in range(r)])


def permute(v, ax):
    """axes in another order"""
    if sorted(ax) != list(range(v.nd)):
        raise Unsup("transpose")
    sh = tuple(v.shape[a] for a in ax)
    st = [prod(v.shape[a + 1:]) for a in ax]
    return A(sh, [v.d[sum(i * s for i, s in zip(ix, st))] for ix in itertools.product(*map(range, sh))], v.dt)


def kron2(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return bcast(mult, a, b)
    nd = max(a.nd, b.nd)
    sa, sb = (1,) * (nd - a.nd) + a.shape, (1,) * (nd - b.nd) + b.shape
    if nd == 1:
        return A((sa[0] * sb[0],), [mult(x, y) for x in a.d for y in b.d])
    if nd != 2:
        raise Unsup("kron")
    out = []
    for i in range(sa[0]):
        for k in range(sb[0]):
            for j in range(sa[1]):
                x = a.d[i * sa[1] + j]
                for l in range(sb[1]):
                    out.append(mult(x, b.d[k * sb[1] + l]))
    if len(out) > MAXN:
        raise Unsup("too large")
    return A((sa[0] * sb[0], sa[1] * sb[1]), out)


class NeedDraw(Exception):
    """a draw whose outcome has to be fixed first"""

    def __init__(self, base, options):
        self.base, self.options = base, options


def finite_draw(name, a, sh):
    """equally likely values of a draw from a finite set"""
    ks = [as_int(z) for z in a[:2]]
    k = prod(sh)
    if name == "permutation" and ks[0] is not None and ks[0] <= 5:
        vs = itertools.permutations(range(ks[0]))
    elif name == "randint" and None not in ks and ks[0] < ks[1] and (ks[1] - ks[0]) ** k <= 200:
        vs = itertools.product(range(ks[0], ks[1]), repeat=k)
    elif name == "choice" and ks[0] is not None and 0 < ks[0] <= 5 and k <= 5 and a[2] is t.NONE:
        if a[1] is FALSE:
            if k > ks[0]:
                raise Unsup("choice")
            vs = itertools.permutations(range(ks[0]), k)
        elif a[1] is TRUE and ks[0] ** k <= 200:
            vs = itertools.product(range(ks[0]), repeat=k)
        else:
            raise Unsup("draw options")
    else:
        raise Unsup("draw without finitely many outcomes")
    vs = [[_num(q) for q in v] for v in vs]
    return [A(sh, v, "int") if sh else v[0] for v in vs]


class Ev:
    def __init__(self, syms, assume=None, deadline=None, models=None):
        self.syms = syms            # sym term -> value
        self.assume = assume if assume is not None else {}
        self.used = {}
        self.memo = {}
        self.opened = {}
        self.deadline = deadline
        self.models = models or {}
        self.ticks = 0
        self.stream = None
        self.subst = {}             # entries of modelled objects fixed by the case at hand
        self.outcome = None         # outcomes of finite draws, when they are enumerated

    def child(self, syms):
        e = Ev(syms, self.assume, self.deadline, self.models)
        e.outcome = self.outcome
        e.stream = self.stream
        e.subst = self.subst
        e.used = self.used
        e.opened = self.opened
        return e

    # ------------------------------------------------------------ plumbing
    def ev(self, x, env=()):
        """env: dict fv -> value"""
        k = (x, tuple(sorted((v.args[0], id(env[v])) for v in x.fvs if v in env))) if x.fvs and env else (x, ())
        r = self.memo.get(k)
        if r is None:
            self.ticks += 1
            if not self.ticks & 15 and self.deadline and time.time() > self.deadline:
                raise Unsup("time")
            r = self.ev1(x, env)
            self.memo[k] = (r, [env[v] for v in x.fvs if v in env] if x.fvs and env else None)     # keep alive for id()
            return r
        return r[0]

    def open(self, x):
        o = self.opened.get(x)
        if o is None:
            l, lo, hi, body = x.args[:4]
            v = t.fresh(None, None)
            bvt = mk("bv", l)
            o = (v, raw_subst(body, bvt, v), tuple(raw_subst(y, bvt, v) if isinstance(y, T) else y for y in x.args[4:]))
            self.opened[x] = o
        return o

    def bits(self, x, env):
        """values of the bound variable"""
        lo, hi = to_int(self.ev(x.args[1], env)), to_int(self.ev(x.args[2], env))
        if hi - lo > 5000:
            raise Unsup("long range")
        return range(lo, hi)

    def cond(self, c, env=()):
        """truth of a boolean term under the assumptions"""
        v = self.ev(c, env)
        return self.decide(v)

    def decide(self, v):
        if isinstance(v, A):
            if prod(v.shape) == 1:
                v = v.d[0]
            else:
                raise Unsup("truth of an array " + str(v.shape) + t.show(v.d[0])[:100] if v.d else "truth of an empty array")
        if isinstance(v, L):
            return bool(v.xs)
        if isinstance(v, Fn):
            return True
        if not isinstance(v, T):
            return bool(v.nodes if hasattr(v, "nodes") else v.ks)
        while v.op == "gamma":
            v = v.args[1] if self.decide(v.args[0]) else v.args[2]
        if v is TRUE:
            return True
        if v is FALSE or v is NONE:
            return False
        if v.op == "num":
            return v is not ZERO
        if v.op == "str":
            return bool(v.args[0])
        if v.op not in ("lt", "eq0", "isnone", "truthy", "allclose", "isinst", "exists") and not t.is_bool(v):
            v = t.truth(v)
            if v.op in ("gamma", "true", "false"):
                return self.decide(v)
        if v.op == "opaque":
            raise Unsup("opaque condition")
        if v.op == "truthy" and (v.args[0].op in ("poly", "fn", "group", "conj") or v.args[0].op == "sym" and v.args[0].args[1] in ("int", "real", "scalar")):
            return not self.decide(self.eq00(v.args[0]))
        if v in self.assume:
            self.used[v] = True
            return self.assume[v]
        raise Split(v)

    # ------------------------------------------------------------ operators
    def ev1(self, x, env):
        op = x.op
        if op in ("num", "str", "none", "true", "false", "newaxis", "ellipsis", "pytype", "pyfn"):
            return x
        if op == "sym":
            return self.syms.get(x, x)
        if op == "fv":
            if x in env:
                return env[x]
            raise Unsup("free variable")
        if op == "opaque":
            raise Unsup("opaque: " + str(x.args[1]))
        f = getattr(self, "o_" + op, None)
        if f is None:
            raise Unsup("operator " + op)
        return f(x, env)

    def o_poly(self, x, env):
        r = None
        for m, c in x.args:
            y = mk("num", *c)
            for a, e in m:
                v = self.ev(a, env)
                if isinstance(v, L):
                    v = as_array(v)
                if isinstance(e, T):
                    v = bcast(t.power, v, self.ev(e, env))
                elif e != 1:
                    ne = num(e)
                    v = map1(lambda z: self.pw(z, ne), v)
                y = bcast(mult, y, v)
            r = y if r is None else bcast(addt, r, y)
        return ZERO if r is None else r

    def pw(self, z, e):
        r = t.power(z, e)
        if r.op == "opaque":
            raise Unsup("power")
        if r.op == "gamma":
            raise Unsup("power")
        return r

    def o_group(self, x, env):
        return self.ev(x.args[0], env)

    def o_conj(self, x, env):
        return map1(sc_conj, self.ev(x.args[0], env))

    def o_tr(self, x, env):
        return transpose(as_array(self.ev(x.args[0], env)))

    def o_dot(self, x, env):
        vs = [as_array(self.ev(a, env)) for a in x.args]
        # cheapest association for vectors at the end
        if isinstance(vs[-1], A) and vs[-1].nd == 1 or isinstance(vs[-1], A) and vs[-1].shape[-1:] == (1,):
            r = vs[-1]
            for v in reversed(vs[:-1]):
                r = dot2(v, r)
            return r
        r = vs[0]
        for v in vs[1:]:
            r = dot2(r, v)
        return r

    def o_kron(self, x, env):
        r = None
        for f, k in x.args[0]:
            v, n = as_array(self.ev(f, env)), to_int(self.ev(k, env))
            for _ in range(n):
                r = v if r is None else kron2(r, v)
        return ONE if r is None else r

    def o_arr(self, x, env):
        vs = [self.ev(e, env) for e in x.args[1]]
        if any(not isinstance(v, T) for v in vs):
            raise Unsup("array of arrays")
        return A(x.args[0], vs)

    def o_eye(self, x, env):
        n = to_int(self.ev(x.args[0], env))
        return A((n, n), [ONE if i == j else ZERO for i in range(n) for j in range(n)])

    def fill(self, x, env, c):
        sh = tuple(to_int(self.ev(s, env)) for s in x.args[0])
        if prod(sh) > MAXN:
            raise Unsup("too large")
        return A(sh, [c] * prod(sh)) if sh else c

    def o_zeros(self, x, env):
        return self.fill(x, env, ZERO)

    def o_ones(self, x, env):
        return self.fill(x, env, ONE)

    def o_block(self, x, env):
        rows, (pr, pc) = x.args
        grid = []
        hs, ws = [None] * len(rows), [None] * len(rows[0])
        for i, r in enumerate(rows):
            g = []
            for j, y in enumerate(r):
                v = as_array(self.ev(y, env))
                if isinstance(v, A):
                    if v.nd == 1:
                        raise Unsup("block of vectors")
                    hs[i], ws[j] = v.shape[0], v.shape[1]
                g.append(v)
            grid.append(g)
        hs = [h if h is not None else to_int(self.ev(pr[i], env)) for i, h in enumerate(hs)]
        ws = [w if w is not None else to_int(self.ev(pc[j], env)) for j, w in enumerate(ws)]
        out = []
        for i, g in enumerate(grid):
            for k in range(hs[i]):
                for j, v in enumerate(g):
                    if isinstance(v, T):
                        out += [v] * ws[j]
                    else:
                        if v.shape != (hs[i], ws[j]):
                            raise Unsup("block shapes")
                        out += v.d[k * ws[j]:(k + 1) * ws[j]]
        return A((sum(hs), sum(ws)), out)

    def o_dim(self, x, env):
        v = self.ev(x.args[0], env)
        if isinstance(v, L):
            v = as_array(v)
        if isinstance(v, A):
            k = x.args[1]
            if k >= v.nd:
                raise Unsup("dimension out of range")
            return num(v.shape[k])
        if isinstance(v, T):
            return self.atom(mk("dim", v, x.args[1]))
        raise Unsup("dim")

    def atom(self, a):
        return a

    def o_len(self, x, env):
        v = self.ev(x.args[0], env)
        if isinstance(v, L):
            return num(len(v.xs))
        if isinstance(v, A):
            return num(v.shape[0])
        if isinstance(v, T):
            return t.length(v)
        if hasattr(v, "nodes"):
            return num(len(v.nodes))
        if hasattr(v, "ks"):
            return num(len(v.ks))
        raise Unsup("len")

    def o_gamma(self, x, env):
        try:
            c = self.ev(x.args[0], env)
        except Unsup:
            # the branches may agree, as when a normal form has hoisted a test that would not have been reached
            a, b = self.ev(x.args[1], env), self.ev(x.args[2], env)
            if a is b or isinstance(a, (A, L)) and isinstance(b, (A, L)) and key(a) is key(b):
                return a
            raise
        if isinstance(c, A) and prod(c.shape) != 1:
            return self.where(c, self.ev(x.args[1], env), self.ev(x.args[2], env))
        return self.ev(x.args[1] if self.decide(c) else x.args[2], env)

    def where(self, c, a, b):
        return bcast(lambda q, y, z: y if self.decide(q) else z, as_array(c), as_array(a), as_array(b))

    def o_lt(self, x, env):
        v = as_array(self.ev(x.args[0], env))
        if isinstance(v, T):
            return self.lt0(v)
        return map1(lambda p: self.lt0(p) if t.is_real(p) else self.lexical(p), v)

    def lexical(self, p):
        """complex numbers in arrays are ordered by their real parts, then by their imaginary parts"""
        a, b = sc_re(p), sc_im(p)
        return t.b_or(self.lt0(a), t.b_and(self.eq00(a), self.lt0(b)))

    def lt0(self, p):
        r = self.infinite(p)
        if r is not None:
            return TRUE if r > 0 else FALSE
        s = surd_sign(p)
        if s is not None:
            return TRUE if s > 0 else FALSE
        return t._lt0(p)

    def eq00(self, p):
        if self.infinite(p) is not None:
            return FALSE
        s = surd_sign(p)
        if s is not None:
            return TRUE if s == 0 else FALSE
        return t._eq0(p)

    def infinite(self, p):
        """sign of an expression dominated by inf"""
        if p.op in ("poly", "app"):
            for m, c in t.monos(p).items():
                if len(m) == 1 and m[0][0].op == "app" and m[0][0].args[0] == "inf":
                    return 1 if c[0] > 0 else -1
        return None

    def o_eq0(self, x, env):
        p = x.args[0]
        if p.op == "poly" and len(p.args) == 2 and all(len(m) == 1 and m[0][1] == 1 for m, c in p.args):
            a, b = (self.ev(m[0][0], env) for m, c in p.args)
            if isinstance(a, L) and isinstance(b, L) and p.args[0][1] == tuple(-z for z in p.args[1][1]):
                ka, kb = ([key(z) for z in v.xs] for v in (a, b))
                if all(z.op in ("num", "str") for z in ka + kb):
                    if "set" in (a.kind, b.kind):
                        return TRUE if a.kind == b.kind and set(ka) == set(kb) else FALSE
                    return TRUE if a.kind == b.kind and ka == kb else FALSE
        return map1(self.eq00, as_array(self.ev(x.args[0], env)))

    def o_isnone(self, x, env):
        v = self.ev(x.args[0], env)
        return t.isnone(v) if isinstance(v, T) else FALSE

    def o_truthy(self, x, env):
        v = self.ev(x.args[0], env)
        if isinstance(v, L):
            return TRUE if v.xs else FALSE
        if isinstance(v, A):
            if prod(v.shape) != 1:
                raise Unsup("truth of an array")
            v = v.d[0]
        if isinstance(v, Fn):
            return TRUE
        return t.truth(v)

    def o_allclose(self, x, env):
        v = as_array(self.ev(x.args[0], env))
        return self.close(v, x.args[1])

    def close(self, v, tol):
        es = [v] if isinstance(v, T) else v.d
        out = set()
        for e in es:
            if e is ZERO:
                continue
            if e.op == "num":
                q = t.close_const(e, tol)
                if q is None:
                    raise Unsup("near-zero constant")
                if not q:
                    return FALSE
                continue
            s = surd_sign(e)
            if s is not None and s != 0:
                return FALSE
            if s == 0:
                continue
            # unit phase
            md = t.monos(e)
            c = md[min(md, key=t._mono_key)]
            if c[0] < 0 or (c[0] == 0 and c[1] < 0):
                e = t.neg(e)
            out.add(e)
        if not out:
            return TRUE
        es = sorted(out, key=lambda z: z.dig)
        keep = []
        for e in es:
            cj = t.conj(e)
            if cj is not e and (cj in out or t.neg(cj) in out):
                o = cj if cj in out else t.neg(cj)
                if o.dig < e.dig:
                    continue
            keep.append(e)
        return mk("allclose", mk("arr", (len(keep),), tuple(keep)), ())

    def o_isinst(self, x, env):
        v = self.ev(x.args[0], env)
        n = x.args[1]
        s = n.args[0] if isinstance(n, T) and n.op == "str" else str(n)
        if isinstance(v, A):
            return TRUE if s == "numpy.ndarray" else FALSE
        if isinstance(v, L):
            return TRUE if s == "builtins." + v.kind else FALSE
        if s == "networkx.Graph" and type(v).__name__ == "G":
            return TRUE
        if isinstance(v, T):
            if v.op == "num":
                if v.args[1] != 0:
                    return TRUE if s in ("builtins.complex", "numbers.Complex") else FALSE
                if v.args[0].denominator != 1:
                    return TRUE if s in ("builtins.float", "numbers.Real", "numbers.Number") else FALSE
                return TRUE if s in ("builtins.int", "numbers.Integral", "numbers.Number", "numbers.Real") else FALSE
            if v in (TRUE, FALSE):
                return TRUE if s in ("builtins.bool", "builtins.int") else FALSE
            if v is NONE:
                return FALSE
            from .lib import is_type
            return is_type(v, s)
        return FALSE

    # ------------------------------------------------------------ binders
    def o_bigsum(self, x, env):
        v, body, _ = self.open(x)
        r = None
        for k in self.bits(x, env):
            y = self.ev(body, self.put(env, v, k))
            if isinstance(y, L):
                raise Unsup("sum of lists")
            r = y if r is None else bcast(addt, r, y)
        return ZERO if r is None else r

    def put(self, env, v, k):
        e = dict(env)
        e[v] = _num(k) if isinstance(k, int) else k
        return e

    def o_bigprod(self, x, env):
        v, body, _ = self.open(x)
        r = ONE
        for k in self.bits(x, env):
            r = bcast(mult, r, self.ev(body, self.put(env, v, k)))
        return r

    def o_bigdot(self, x, env):
        v, body, _ = self.open(x)
        r = None
        for k in self.bits(x, env):
            y = as_array(self.ev(body, self.put(env, v, k)))
            r = y if r is None else dot2(r, y)
        return ONE if r is None else r

    def o_bigkron(self, x, env):
        v, body, _ = self.open(x)
        r = None
        for k in self.bits(x, env):
            y = as_array(self.ev(body, self.put(env, v, k)))
            r = y if r is None else kron2(r, y)
        return ONE if r is None else r

    def o_comp(self, x, env):
        v, body, _ = self.open(x)
        ys = [as_array(self.ev(body, self.put(env, v, k))) for k in self.bits(x, env)]
        if not ys:
            return A((0,), [])
        return as_array(L("list", ys))

    def o_exists(self, x, env):
        v, body, _ = self.open(x)
        r = FALSE
        for k in self.bits(x, env):
            if self.cond(body, self.put(env, v, k)):
                return TRUE
        return FALSE

    def o_firstof(self, x, env):
        v, c, (body,) = self.open(x)
        for k in self.bits(x, env):
            e = self.put(env, v, k)
            if self.cond(c, e):
                return self.ev(body, e)
        raise Unsup("no first element")

    def o_lam(self, x, env):
        return Fn(x, dict(env))

    def apply(self, f, args):
        if not isinstance(f, Fn):
            raise Unsup("call of an unknown function")
        tm, env = f.term, f.env
        for a in args:
            if not isinstance(tm, T) or tm.op != "lam":
                raise Unsup("arity")
            v, body, _ = self.open(tm)
            env = self.put(env, v, a)
            tm = body
        if tm.op == "lam":
            return Fn(tm, env)
        return self.ev(tm, env)

    def o_fold(self, x, env):
        v, body, (i0,) = self.open(x)
        vals = [self.ev(y, env) for y in i0.args]
        names = {}
        k = self.level(body)
        for s in t.syms_of(body):
            if s.args[0].startswith(f"acc{k}."):
                names[s] = int(s.args[0].split("!")[0].split(".")[1])
        for q in self.bits(x, env):
            sy = dict(self.syms)
            for s, j in names.items():
                sy[s] = vals[j]
            c = self.child(sy)
            c.opened = self.opened
            e = self.put(env, v, q)
            vals = [c.ev(y, e) for y in body.args]
            self.ticks += c.ticks
        return L("tuple", vals)

    def level(self, body):
        ls = [int(s.args[0][3:].split(".")[0]) for s in t.syms_of(body) if s.args[0].startswith("acc") and "." in s.args[0] and s.args[0][3:4].isdigit() and s not in self.syms]
        return max(ls) if ls else 1

    # ------------------------------------------------------------ lists
    def o_list(self, x, env):
        out = []
        for p in x.args[0]:
            self.part(p, env, out)
        return L("list", out)

    def part(self, p, env, out):
        if p.op == "item":
            out.append(self.ev(p.args[0], env))
        elif p.op == "spread":
            out.extend(self.items(self.ev(p.args[0], env)))
        elif p.op == "lcomp":
            v, body, _ = self.open(p)
            for k in self.bits(p, env):
                e = self.put(env, v, k)
                b = body
                if b.op == "gpart":
                    if not self.cond(b.args[0], e):
                        continue
                    b = b.args[1]
                elif b.op == "flat":
                    for q in b.args[0]:
                        self.part(q, e, out)
                    continue
                out.append(self.ev(b, e))
        elif p.op == "gpart":
            if self.cond(p.args[0], env):
                out.append(self.ev(p.args[1], env))
        else:
            raise Unsup("list part " + p.op)
        if len(out) > 5000:
            raise Unsup("long list")

    def items(self, v):
        if isinstance(v, L):
            return list(v.xs)
        if isinstance(v, A):
            if v.nd == 1:
                return list(v.d)
            n = prod(v.shape[1:])
            return [A(v.shape[1:], v.d[i * n:(i + 1) * n]) for i in range(v.shape[0])]
        if isinstance(v, T) and v.op == "str":
            return [t.string(c) for c in v.args[0]]
        if hasattr(v, "nodes"):
            return list(v.nodes)
        if hasattr(v, "ks"):
            if type(v).__name__ == "Deg":
                return [L("tuple", [a, b]) for a, b in zip(v.ks, v.vs)]
            return list(v.ks)
        raise Unsup("iteration")

    def o_tuple(self, x, env):
        return L("tuple", [self.ev(y, env) for y in x.args])

    def o_item(self, x, env):
        return self.ev(x.args[0], env)

    def o_prodlist(self, x, env):
        its = [self.items(self.ev(y, env)) for y in x.args]
        return L("list", [L("tuple", list(z)) for z in itertools.product(*its)])

    # ------------------------------------------------------------ indexing
    def o_slice(self, x, env):
        return x

    def o_index(self, x, env):
        b = self.ev(x.args[0], env)
        idx = [self.sel(i, env) for i in x.args[1]]
        if not isinstance(b, (T, A, L, Fn)) and x.args[1][0].op == "fv":
            raise Unsup("iteration over a graph or lookup")
        return self.index(b, idx)

    def sel(self, i, env):
        if i.op == "slice":
            def lim(y):
                if y is NONE:
                    return None
                return to_int(self.ev(y, env))
            return slice(*[lim(y) for y in i.args])
        return self.ev(i, env)

    def pick(self, i, n):
        """position held by an index; a random index is split over its range"""
        if isinstance(i, A) and prod(i.shape) == 1:
            i = i.d[0]
        if isinstance(i, T) and as_int(i) is None and n <= 8 and drawn_int(i):
            for v in range(n - 1):
                if self.decide(self.eq00(t.sub(i, _num(v)))):
                    return v
            return n - 1
        return to_int(i)

    def index(self, b, idx):
        if len(idx) == 1 and isinstance(idx[0], L) and idx[0].kind == "tuple":
            idx = list(idx[0].xs)
        if isinstance(b, L):
            i = idx[0]
            if isinstance(i, slice):
                r = L(b.kind, b.xs[i])
            else:
                k = to_int(i)
                if not -len(b.xs) <= k < len(b.xs):
                    raise Unsup("index out of range")
                r = b.xs[k]
            return self.index(r, idx[1:]) if len(idx) > 1 else r
        if isinstance(b, T):
            if b.op == "str" and len(idx) == 1 and not isinstance(idx[0], slice):
                return t.string(b.args[0][to_int(idx[0])])
            if any(isinstance(i, slice) for i in idx):
                raise Unsup("slice of an unknown value")
            return mk("index", b, tuple(key(i) for i in idx))
        if hasattr(b, "nodes") or hasattr(b, "ks"):
            from . import graphs
            k = key(idx[0])
            r = graphs.adj(b, b.pos(k)) if hasattr(b, "nodes") else b.get(k)
            if r is None:
                raise Unsup("no such key")
            return self.index(r, idx[1:]) if len(idx) > 1 else r
        if not isinstance(b, A):
            raise Unsup("index")
        if any(isinstance(i, A) and prod(i.shape) == 1 and i.nd == 0 for i in idx):
            idx = [i.d[0] if isinstance(i, A) and i.nd == 0 else i for i in idx]
        if any(isinstance(i, T) and i.op == "ellipsis" for i in idx):
            k = next(k for k, i in enumerate(idx) if isinstance(i, T) and i.op == "ellipsis")
            idx = idx[:k] + [slice(None)] * (b.nd - len(idx) + 1) + idx[k + 1:]
        idx = [as_array(i) if isinstance(i, L) else i for i in idx]
        if len(idx) == 1 and isinstance(idx[0], A) and idx[0].shape == b.shape and idx[0].d and all(is_boolv(z) for z in idx[0].d):
            return self.mask(b, idx[0])
        out_shape = []
        axes = []
        fancy = [i for i in idx if isinstance(i, A)]
        if len(fancy) > 1:
            if len(idx) == b.nd and all(isinstance(i, A) for i in idx) and len({i.shape for i in idx}) == 1:
                st = strides(b.shape)
                n = prod(idx[0].shape)
                res = []
                for q in range(n):
                    f = 0
                    for i, s, dd in zip(idx, st, b.shape):
                        k = self.pick(i.d[q], dd)
                        if not -dd <= k < dd:
                            raise Unsup("index out of range")
                        f += (k % dd) * s
                    res.append(b.d[f])
                return A(idx[0].shape, res)
            raise Unsup("fancy index")
        pos = 0
        for i in idx:
            if isinstance(i, T) and i.op == "newaxis":
                out_shape.append(1)
                continue
            if pos >= b.nd:
                raise Unsup("too many indices")
            n = b.shape[pos]
            if isinstance(i, slice):
                r = list(range(n))[i]
                axes.append(r)
                out_shape.append(len(r))
            elif isinstance(i, A):
                if i.d and all(is_boolv(z) for z in i.d):
                    if i.nd != 1 or i.shape[0] != n:
                        raise Unsup("mask")
                    r = [k for k in range(n) if self.decide(i.d[k])]
                    axes.append(r)
                    out_shape.append(len(r))
                else:
                    r = [self.pick(z, n) for z in i.d]
                    if any(not -n <= k < n for k in r):
                        raise Unsup("index out of range")
                    axes.append([k % n for k in r])
                    out_shape += list(i.shape)
            else:
                if isinstance(i, T) and is_boolv(i):
                    raise Unsup("boolean index")
                k = self.pick(i, n)
                if not -n <= k < n:
                    raise Unsup("index out of range")
                axes.append([k % n])
            pos += 1
        for n in b.shape[pos:]:
            axes.append(list(range(n)))
            out_shape.append(n)
        st = strides(b.shape)
        out = [b.d[sum(i * s for i, s in zip(ix, st))] for ix in itertools.product(*axes)]
        if not out_shape:
            return out[0]
        return A(out_shape, out)

    def mask(self, b, m):
        return A((sum(1 for z in m.d if self.decide(z)),), [x for x, z in zip(b.d, m.d) if self.decide(z)])

    def o_upd(self, x, env):
        b = as_array(self.ev(x.args[0], env))
        if not isinstance(b, A):
            raise Unsup("store into an unknown value")
        d = A(b.shape, b.d)
        for e in x.args[1]:
            self.store(d, e, env)
        return d

    def store(self, d, e, env):
        if e.op == "ucomp":
            v, body, _ = self.open(e)
            for k in self.bits(e, env):
                self.store(d, body, self.put(env, v, k))
            return
        if e.op == "gpart":
            if self.cond(e.args[0], env):
                self.store(d, e.args[1], env)
            return
        if e.op != "set":
            raise Unsup("store " + e.op)
        idx = [self.sel(i, env) for i in e.args[0]]
        if len(idx) == 1 and isinstance(idx[0], L) and idx[0].kind == "tuple":
            idx = idx[0].xs
        try:
            val = self.ev(e.args[1], env)
            self.assign(d, idx, as_array(val))
        except Unsup as x:
            # a guarded store, written as a store of "guard ? value : old value"; the position exists where the guard holds
            if not (e.args[1].op == "gamma" and str(x) == "index out of range"):
                raise

    def assign(self, d, idx, val):
        pos = self.index(A(d.shape, [_num(i) for i in range(len(d.d))]), list(idx))
        if isinstance(pos, T):
            if isinstance(val, A):
                if prod(val.shape) != 1:
                    raise Unsup("array stored in an element")
                val = val.d[0]
            d.d[as_int(pos)] = val
            return
        v = val if isinstance(val, T) else val
        if isinstance(v, A) and v.shape != pos.shape:
            if v.nd > pos.nd and prod(v.shape) == prod(pos.shape) and all(s == 1 for s in v.shape[:v.nd - pos.nd]):
                v = A(pos.shape, v.d)
            elif prod(v.shape) > prod(pos.shape):
                raise Unsup("store shape")
        w = bcast(lambda p, y: y, pos, v)
        if w.shape != pos.shape:
            raise Unsup("store shape")
        for p, y in zip(pos.d, w.d):
            d.d[as_int(p)] = y

    # ------------------------------------------------------------ functions
    def o_fn(self, x, env):
        n = x.args[0]
        v = as_array(self.ev(x.args[1], env))
        return map1(lambda z: self.fn(n, z), v)

    def fn(self, n, z):
        if n == "re":
            return sc_re(z)
        if n == "im":
            return sc_im(z)
        if n == "abs":
            return sc_abs(z)
        if n in ("floor", "ceil", "round", "sign") and z.op == "num" and z.args[1] == 0:
            q = z.args[0]
            return num({"floor": math.floor, "ceil": math.ceil, "round": round, "sign": lambda w: (w > 0) - (w < 0)}[n](q))
        r = t.fn(n, z)
        if r.op in ("opaque", "gamma"):
            raise Unsup("function " + n)
        return r

    def o_draw(self, x, env):
        name, args, rk, real, shape = x.args
        a = tuple(key(self.ev(y, env)) if isinstance(y, T) else y for y in args)
        sh = tuple(to_int(self.ev(s, env)) for s in shape)
        if name == "dirichlet" and not sh:
            raise Unsup("draw")
        base = mk("draw", name, a, len(sh), real, ())
        if self.outcome is not None:
            r = self.outcome.get(base)
            if r is None:
                raise NeedDraw(base, finite_draw(name, a, sh))
            return r
        return self.entries(base, sh)

    def entries(self, base, sh):
        if not sh:
            return base
        if prod(sh) > 4096:
            raise Unsup("too large")
        r = A(sh, [mk("index", base, tuple(_num(i) for i in ix)) for ix in itertools.product(*[range(n) for n in sh])])
        ENTRIES.update(r.d)
        return r

    def o_app(self, x, env):
        n = x.args[0]
        kw = {k: v for k, v in x.args[2]}
        h = APPS.get(n)
        if n == "like_cast":
            return self.like_cast(x, env)
        if n == "iscomplexobj":
            d = self.dt(x.args[1][0], env)
            if d is None:
                raise Unsup("element type")
            return TRUE if d == "complex" else FALSE
        if n == "fold_get":
            return self.ev(x.args[1][0], env).xs[to_int(self.ev(x.args[1][1], env))]
        if n.startswith("ff.") and self.models is not None:
            m = self.models.get(n)
            if m is not None:
                r = m(self, [self.ev(y, env) for y in x.args[1]], {k: self.ev(v, env) for k, v in kw.items()})
                if r is not None:
                    return r
        vs = [self.ev(y, env) for y in x.args[1]]
        kv = {k: self.ev(v, env) for k, v in kw.items()}
        if h is not None:
            r = h(self, vs, kv)
            if r is not None:
                return r
        return self.uninterpreted(n, vs, kv)

    def dt(self, x, env):
        """element type of a term; it is a property of the argument's type, not of the case at hand"""
        if x.op == "sym":
            v = self.syms.get(x, x)
            if isinstance(v, A):
                return v.dt
            if isinstance(v, L):
                ds = [y.dt if isinstance(y, A) else scalar_dt(y) if isinstance(y, T) else None for y in v.xs]
                return None if None in ds or not ds else max(ds, key=DTS.index)
            return scalar_dt(v)
        if x.op == "str" and x.args[0] == "float":
            return "float"
        if x.op == "num":
            return "complex" if x.args[1] else "number"     # an int or a float constant
        if x.op in ("index", "conj", "tr", "group"):
            return self.dt(x.args[0], env)
        if x.op == "app" and x.args[0] in ("triu", "tril", "flip", "reshape", "diagv", "diagm", "spread", "flatten", "np.array", "np.asarray"):
            return self.dt(x.args[1][0], env)
        if x.op == "spread":
            return self.dt(x.args[0], env)
        if x.op == "app" and x.args[0] == "abs" or x.op == "fn" and x.args[0] in ("abs", "re", "im", "abs2"):
            return "float"
        if x.op == "gamma":
            a, b = self.dt(x.args[1], env), self.dt(x.args[2], env)
            if a == b:
                return a
        try:
            if not all(t.is_real(y) for y in entries_of(self.ev(x, env))):
                return "complex"
        except Unsup:
            pass
        return None

    def like_cast(self, x, env):
        """value kept by a buffer of the element type of the listed arrays"""
        ds = [self.dt(y, env) for y in x.args[1][1:]]
        v = self.ev(x.args[1][0], env)
        if "complex" in ds or isinstance(v, A) and not v.d:
            return v
        if None in ds:
            raise Unsup("element type")
        if "float" in ds:
            return map1(sc_re, as_array(v))
        if "number" in ds:
            raise Unsup("element type")
        return APPS["cast_int"](self, [v], {})

    def uninterpreted(self, n, vs, kv):
        if any(isinstance(v, Fn) for v in list(vs) + list(kv.values())):
            ks = tuple(key(v) if not isinstance(v, Fn) else self.fnkey(v) for v in vs)
            kk = tuple((k, key(v) if not isinstance(v, Fn) else self.fnkey(v)) for k, v in sorted(kv.items()))
        else:
            ks = tuple(key(v) for v in vs)
            kk = tuple((k, key(v)) for k, v in sorted(kv.items()))
        a = mk("app", n, ks, kk)
        sh = self.shape_of(n, vs)
        if sh is None:
            return a
        return self.entries(a, sh)

    def fnkey(self, f):
        """functions are told apart by their values at fresh arguments"""
        xs = []
        v = f
        while isinstance(v, Fn) and len(xs) < 6:
            xs.append(t.sym("arg!fnkey" + (str(len(xs)) if xs else ""), "scalar"))
            v = self.apply(v, xs[-1:])
        return mk("app", "fnkey", (key(v),), ())

    def shape_of(self, n, vs):
        v = vs[0] if vs else None
        if isinstance(v, A):
            if n in ("expm", "logm", "sqrtm", "inv", "schur_T", "schur_Z", "eigh_v", "eig_v", "matrix_power", "roundn", "cast_int", "log2", "log10", "qr_q0"):
                return v.shape
            if n == "qr_q" and v.nd == 2:
                return v.shape[0], min(v.shape)
            if n in ("eigvals", "eigvalsh") or n in ("sort", "argsort") and v.nd == 1:
                return v.shape[:1]
            if n == "svd_s" and v.nd == 2:
                return (min(v.shape),)
            if n == "svd_u" and v.nd == 2:
                return v.shape[0], (v.shape[0])
            if n == "svd_vh" and v.nd == 2:
                return v.shape[1], v.shape[1]
        return None


_nums = {}


def _num(k):
    r = _nums.get(k)
    if r is None:
        r = _nums[k] = num(k)
    return r


def drawn_int(i):
    """a random position: a draw of indices or an integer draw"""
    b = i.args[0] if i.op == "index" else i
    return b.op == "draw" and (b.args[0] == "choice" and as_int(b.args[1][0]) is not None or b.args[0] == "randint" and b.args[1][0] is ZERO)


DTS = ["bool", "int", "float", "complex"]


def scalar_dt(x):
    if x.op not in ("sym", "num"):
        return None
    return "int" if t.is_int(x) else "float" if t.is_real(x) else "complex"


def is_boolv(z):
    return z in (TRUE, FALSE) or t.is_bool(z)


_raw = {}


def raw_subst(x, old, new):
    """replace a bound variable without re-normalising (the structure of x is kept)"""
    memo = {}

    def go(y):
        if y is old:
            return new
        if y.lvl < old.args[0] and not t._has_bv(y, old):
            return y
        r = memo.get(y)
        if r is None:
            r = memo[y] = mk(y.op, *mapa(y.args))
        return r

    def mapa(a):
        return tuple(go(z) if isinstance(z, T) else (mapa(z) if isinstance(z, tuple) else z) for z in a)
    return go(x)


def surd_sign(p):
    """sign of a real constant made of rationals, roots and logarithms of rationals, or None"""
    if p.op == "num":
        return None if p.args[1] else (p.args[0] > 0) - (p.args[0] < 0)
    v = const_float(p)
    if v is None or isinstance(v, complex) and abs(v.imag) > 1e-12:
        return None
    v = v.real if isinstance(v, complex) else v
    if abs(v) < 1e-9:
        return 0 if abs(v) < 1e-13 else None
    return 1 if v > 0 else -1


def const_float(p):
    """value of a constant term (no symbols)"""
    if p.op == "num":
        return complex(float(p.args[0]), float(p.args[1])) if p.args[1] else float(p.args[0])
    if p.op == "poly":
        s = 0
        for m, c in p.args:
            y = complex(float(c[0]), float(c[1])) if c[1] else float(c[0])
            for a, e in m:
                b = const_float(a)
                q = const_float(e) if isinstance(e, T) else float(e)
                if b is None or q is None:
                    return None
                try:
                    y = y * (b ** q)
                except (ZeroDivisionError, OverflowError):
                    return None
            s = s + y
        return s
    if p.op == "group":
        return const_float(p.args[0])
    if p.op == "fn" and p.args[0] in ("log", "exp", "abs", "sin", "cos"):
        v = const_float(p.args[1])
        if v is None:
            return None
        import cmath
        try:
            if p.args[0] == "abs":
                return abs(v)
            r = getattr(cmath, p.args[0])(v)
            return r.real if abs(r.imag) < 1e-15 else r
        except (ValueError, OverflowError):
            return None
    if p.op == "app" and p.args[0] in ("log2", "log10"):
        v = const_float(p.args[1][0])
        if v is None or isinstance(v, complex) or v <= 0:
            return None
        return math.log2(v) if p.args[0] == "log2" else math.log10(v)
    if p.op == "app" and p.args[0] == "pi":
        return math.pi
    return None


# ------------------------------------------------------------------ interpreted applications
APPS = {}


def reg(*ns):
    def d(f):
        for n in ns:
            APPS[n] = f
        return f
    return d


def entries_of(v):
    v = as_array(v)
    if isinstance(v, T) and v not in ENTRIES and unknown_shape(v) and t.rank(v) is not None:
        raise Unsup("unknown shape of " + t.show(v)[:40])
    return [v] if isinstance(v, T) else v.d


@reg("select")
def _(E, vs, kw):
    if len(vs) != 2 or kw:
        return None
    v, m = as_array(vs[0]), as_array(vs[1])
    if isinstance(v, T) or isinstance(m, T):
        raise Unsup("mask of an array of unknown shape")
    if m.shape != v.shape[:m.nd]:
        raise Unsup("mask of another shape")
    w = prod(v.shape[m.nd:])
    keep = [i for i, x in enumerate(m.d) if E.decide(x)]
    return A((len(keep),) + v.shape[m.nd:], [z for i in keep for z in v.d[i * w:(i + 1) * w]], v.dt)


@reg("sumall")
def _(E, vs, kw):
    if len(vs) == 1 and not kw:
        v = vs[0]
        if isinstance(v, L) and any(not isinstance(x, T) for x in v.xs):
            r = ZERO
            for x in v.xs:
                r = bcast(addt, r, as_array(x))
            return sumt(entries_of(r))
        return sumt([boolnum(E, x) for x in entries_of(v)])


def boolnum(E, x):
    if x in (TRUE, FALSE) or t.is_bool(x):
        return ONE if E.decide(x) else ZERO
    return x


@reg("prodall")
def _(E, vs, kw):
    if len(vs) == 1 and not kw:
        r = ONE
        for x in entries_of(vs[0]):
            r = mult(r, x)
        return r


def _axis(f):
    def g(E, vs, kw):
        if kw or len(vs) != 2:
            return None
        v, ax = as_array(vs[0]), to_int(vs[1])
        if isinstance(v, T):
            raise Unsup("axis of a scalar")
        ax %= v.nd
        o = v.shape[:ax] + v.shape[ax + 1:]
        out = []
        for ix in itertools.product(*[range(n) for n in o]):
            sub = E.index(v, [_num(i) for i in ix[:ax]] + [slice(None)] + [_num(i) for i in ix[ax:]])
            out.append(f(E, sub.d))
        return A(o, out) if o else out[0]
    return g


APPS["np.sum"] = _axis(lambda E, xs: sumt([boolnum(E, x) for x in xs]))
APPS["np.prod"] = _axis(lambda E, xs: APPS["prodall"](E, [A((len(xs),), xs)], {}))
APPS["np.all"] = _axis(lambda E, xs: TRUE if all(E.decide(x) for x in xs) else FALSE)
APPS["np.any"] = _axis(lambda E, xs: TRUE if any(E.decide(x) for x in xs) else FALSE)
APPS["np.mean"] = _axis(lambda E, xs: t.mul(num(Fraction(1, len(xs))), sumt(xs)))


@reg("trace")
def _(E, vs, kw):
    v = vs[0]
    if isinstance(v, A) and v.nd == 2 and len(vs) == 1 and not kw:
        return sumt([v.d[i * v.shape[1] + i] for i in range(min(v.shape))])


@reg("mean")
def _(E, vs, kw):
    if len(vs) == 1 and not kw:
        es = entries_of(vs[0])
        return t.mul(num(Fraction(1, len(es))), sumt(es))


@reg("diagv", "diagm", "diag")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, T) or len(vs) != 1 or kw:
        return None
    if v.nd == 2:
        return A((min(v.shape),), [v.d[i * v.shape[1] + i] for i in range(min(v.shape))])
    n = v.shape[0]
    return A((n, n), [v.d[i] if i == j else ZERO for i in range(n) for j in range(n)])


@reg("np.diag", "np.diagonal")
def _(E, vs, kw):
    v = as_array(vs[0])
    k = as_int(vs[1]) if len(vs) == 2 and isinstance(vs[1], T) else None
    if kw or k is None or not isinstance(v, A) or v.nd != 2:
        return None
    r, c = v.shape
    es = [v.d[i * c + i + k] for i in range(r) if 0 <= i + k < c]
    return A((len(es),), es, v.dt)


@reg("norm")
def _(E, vs, kw):
    v = as_array(vs[0])
    es = [v] if isinstance(v, T) else v.d
    if kw or len(vs) > 2:
        return None
    o = vs[1] if len(vs) == 2 else NONE
    if o is NONE or (as_int(o) == 2 and (isinstance(v, T) or v.nd == 1)):
        s = sumt([t.mul(e, t.conj(e)) if not t.is_real(e) else t.power(e, t.TWO) for e in es])
        return E.pw(s, HALF)
    if isinstance(v, A) and v.nd == 1 and isinstance(o, T) and o.op != "str":
        if o.op == "app":
            return None
        k = as_int(o)
        if k == 0:
            return None
        if k == 1:
            return sumt([sc_abs(e) for e in es])
        s = sumt([E.pw(sc_abs(e), o) for e in es])
        return E.pw(s, t.power(o, num(-1)))


@reg("mod", "floordiv")
def _mod(E, vs, kw):
    return None


def _arith(name, f):
    def g(E, vs, kw):
        def one(a, b):
            if a.op == "num" and b.op == "num" and a.args[1] == 0 and b.args[1] == 0:
                if b.args[0] == 0:
                    raise Unsup("division by zero")
                return num(f(a.args[0], b.args[0]))
            r = t.app(name, (a, b), ())
            if r.op in ("gamma", "opaque"):
                raise Unsup(name)
            return r
        if len(vs) == 2 and not kw:
            return bcast(one, as_array(vs[0]), as_array(vs[1]))
    return g


APPS["mod"] = _arith("mod", lambda a, b: a % b)
APPS["floordiv"] = _arith("floordiv", lambda a, b: a // b)


def _logic(name, f, n):
    def g(E, vs, kw):
        if len(vs) != n or kw:
            return None
        vs = [as_array(v) for v in vs]
        if any(not is_boolv(x) for v in vs for x in ([v] if isinstance(v, T) else v.d)):
            return None
        return bcast(f, *vs) if n == 2 else map1(f, vs[0])
    APPS[name] = g


_logic("land", t.b_and, 2)
_logic("lor", t.b_or, 2)
_logic("lnot", t.b_not, 1)


@reg("pow")
def _(E, vs, kw):
    if len(vs) == 2 and not kw:
        def one(a, b):
            if a.op == "num" and a.args == (Fraction(-1), Fraction(0)) and as_int(b) is not None:
                return ONE if as_int(b) % 2 == 0 else num(-1)
            return E.pw(a, b)
        return bcast(one, as_array(vs[0]), as_array(vs[1]))


@reg("int", "cast_int")
def _(E, vs, kw):
    v = as_array(vs[0])

    def one(x):
        x = boolnum(E, x) if x.op != "num" else x
        if x.op == "num" and x.args[1] == 0:
            return num(math.trunc(x.args[0]))
        if t.is_int(x):
            return x
        f = const_float(x)
        if f is not None and not isinstance(f, complex):
            if abs(f - round(f)) < 1e-9:
                return num(round(f))
            return num(math.trunc(f))
        return mk("app", "int", (x,), ())
    return map1(one, v)


@reg("round0")
def _(E, vs, kw):
    return None


@reg("roundn")
def _(E, vs, kw):
    d = vs[1]

    def one(x):
        if x.op == "num" and as_int(d) is not None and x.args[0].denominator == 1 and x.args[1].denominator == 1 and as_int(d) >= 0:
            return x
        k = as_int(d)
        if x.op == "num" and k is not None and -12 <= k <= 12:
            return num(round(x.args[0], k), round(x.args[1], k))
        return mk("app", "roundn", (x, d), ())
    if isinstance(d, T):
        return map1(one, as_array(vs[0]))


def _numeric(name, f):
    def g(E, vs, kw):
        if kw:
            return None
        def one(x):
            c = const_float(x)
            r = f(x) if x.op == "num" else None
            if r is not None:
                return r
            return mk("app", name, (x,), ())
        return map1(one, as_array(vs[0]))
    return g


def _log2(x):
    if x.args[1] == 0 and x.args[0] > 0:
        q = x.args[0]
        for k in range(-30, 31):
            if q == Fraction(2) ** k:
                return num(k)
    return None


def _log10(x):
    if x.args[1] == 0 and x.args[0] > 0:
        for k in range(-20, 21):
            if x.args[0] == Fraction(10) ** k:
                return num(k)
    return None


APPS["log2"] = _numeric("log2", _log2)
APPS["log10"] = _numeric("log10", _log10)


@reg("min", "max", "maxall", "minall", "maximum", "minimum")
def _(E, vs, kw):
    return None


def _ext(name, pick):
    def g(E, vs, kw):
        if kw:
            return None
        es = []
        for v in vs:
            es += entries_of(v) if not isinstance(v, L) else [z for x in v.xs for z in entries_of(x)]
        es = list(dict.fromkeys(es))
        if not es:
            raise Unsup("empty extremum")
        ns = [e for e in es if e.op == "num"]
        rest = [e for e in es if e.op != "num"]
        if ns:
            if any(e.args[1] for e in ns):
                raise Unsup("complex extremum")
            rest.append(num(pick(e.args[0] for e in ns)))
        if len(rest) == 1:
            return rest[0]
        return mk("app", name, tuple(sorted(rest, key=lambda z: z.dig)), ())
    return g


APPS["max"] = APPS["maxall"] = _ext("max", max)
APPS["min"] = APPS["minall"] = _ext("min", min)
APPS["maximum"] = lambda E, vs, kw: bcast(lambda a, b: APPS["max"](E, [a, b], {}), as_array(vs[0]), as_array(vs[1]))
APPS["minimum"] = lambda E, vs, kw: bcast(lambda a, b: APPS["min"](E, [a, b], {}), as_array(vs[0]), as_array(vs[1]))


@reg("allall")
def _(E, vs, kw):
    for x in entries_of(vs[0]):
        if not E.decide(x):
            return FALSE
    return TRUE


@reg("anyall")
def _(E, vs, kw):
    for x in entries_of(vs[0]):
        if E.decide(x):
            return TRUE
    return FALSE


@reg("count_nonzero")
def _(E, vs, kw):
    if kw or len(vs) != 1:
        return None
    n = 0
    for x in entries_of(vs[0]):
        if is_boolv(x):
            n += E.decide(x)
        else:
            n += not E.decide(E.eq00(x))
    return num(n)


@reg("where")
def _(E, vs, kw):
    if len(vs) == 3:
        return E.where(vs[0], vs[1], vs[2])


@reg("flatten")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, T):
        raise Unsup("flatten")
    return A((prod(v.shape),), v.d)


@reg(".tolist")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, T) or kw or len(vs) != 1 or not v.shape:
        return None

    def nest(sh, d):
        if len(sh) == 1:
            return L("list", d)
        m = prod(sh[1:])
        return L("list", [nest(sh[1:], d[i * m:(i + 1) * m]) for i in range(sh[0])])
    return nest(v.shape, v.d)


@reg(".item")
def _(E, vs, kw):
    v = as_array(vs[0])
    if kw or len(vs) > 2:
        return None
    if isinstance(v, T):
        return v if len(vs) == 1 else None
    if len(vs) == 1:
        if len(v.d) != 1:
            raise Unsup("item of a larger array")
        return v.d[0]
    i = to_int(vs[1])
    if not -len(v.d) <= i < len(v.d):
        raise Unsup("item")
    return v.d[i]


@reg("reshape")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, T) or kw or len(vs) != 2:
        return None
    sh = [to_int(x) for x in (vs[1].xs if isinstance(vs[1], L) else [vs[1]])]
    n = prod(v.shape)
    if -1 in sh:
        r = prod([s for s in sh if s != -1])
        if r == 0 or n % r:
            raise Unsup("reshape")
        sh = [n // r if s == -1 else s for s in sh]
    if prod(sh) != n:
        raise Unsup("reshape")
    return A(sh, v.d)


@reg("rev")
def _(E, vs, kw):
    xs = E.items(vs[0])
    if isinstance(vs[0], L):
        return L(vs[0].kind, xs[::-1])
    return as_array(L("list", xs[::-1]))


@reg("permute")
def _(E, vs, kw):
    v = as_array(vs[0])
    if not isinstance(v, A) or v.nd != len(vs) - 1:
        raise Unsup("permuted axes")
    return permute(v, tuple(to_int(z) for z in vs[1:]))


@reg("flip")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, A) and len(vs) == 1 and not kw:
        return A(v.shape, v.d[::-1])


def _tri(up):
    def g(E, vs, kw):
        v = vs[0]
        k = to_int(vs[1]) if len(vs) > 1 else 0
        if isinstance(v, A) and v.nd == 2 and not kw:
            r, c = v.shape
            return A(v.shape, [v.d[i * c + j] if ((j - i >= k) if up else (j - i <= k)) else ZERO for i in range(r) for j in range(c)])
    return g


APPS["triu"] = _tri(True)
APPS["tril"] = _tri(False)


@reg("shape")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, A):
        return L("tuple", [num(n) for n in v.shape])


@reg("ndim")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, A):
        return num(v.nd)


@reg("size")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, A):
        return num(prod(v.shape))


@reg("arange")
def _(E, vs, kw):
    if kw or not all(isinstance(v, T) for v in vs):
        return None
    ks = [to_int(v) for v in vs]
    r = range(*ks)
    return A((len(r),), [num(i) for i in r])


@reg("enumerate")
def _(E, vs, kw):
    s = to_int(vs[1]) if len(vs) > 1 else 0
    return L("list", [L("tuple", [num(i + s), x]) for i, x in enumerate(E.items(vs[0]))])


@reg("zip")
def _(E, vs, kw):
    return L("list", [L("tuple", list(z)) for z in zip(*[E.items(v) for v in vs])])


@reg("itertools.permutations")
def _(E, vs, kw):
    xs = E.items(vs[0])
    r = to_int(vs[1]) if len(vs) > 1 and vs[1] is not NONE else None
    if len(xs) > 6:
        raise Unsup("permutations")
    return L("list", [L("tuple", list(z)) for z in itertools.permutations(xs, r)])


@reg("itertools.combinations")
def _(E, vs, kw):
    return L("list", [L("tuple", list(z)) for z in itertools.combinations(E.items(vs[0]), to_int(vs[1]))])


@reg("itertools.combinations_with_replacement")
def _(E, vs, kw):
    r = vs[1] if len(vs) > 1 else kw.get("r")
    return L("list", [L("tuple", list(z)) for z in itertools.combinations_with_replacement(E.items(vs[0]), to_int(r))])


@reg("itertools.product")
def _(E, vs, kw):
    xs, k = E.items(vs[0]), to_int(vs[1])
    if len(xs) ** k > 5000:
        raise Unsup("product")
    return L("list", [L("tuple", list(z)) for z in itertools.product(xs, repeat=k)])


@reg("np.array")
def _(E, vs, kw):
    if len(vs) == 1 and not kw:
        return as_array(vs[0])


def _stack(axis):
    def g(E, vs, kw):
        xs = [as_array(v) for v in (vs[0].xs if len(vs) == 1 and isinstance(vs[0], L) else vs)]
        return concat(xs, axis, True)
    return g


def concat(xs, axis, st=False):
    if any(isinstance(x, T) for x in xs):
        raise Unsup("concatenation")
    if all(x.nd == 1 for x in xs) and (axis == 0 and not st or axis == 1 and st):
        d = [y for x in xs for y in x.d]
        return A((len(d),), d)
    if st and axis == 0:
        xs = [A((1,) + x.shape, x.d) if x.nd == 1 else x for x in xs]
    if any(x.nd != 2 for x in xs):
        raise Unsup("concatenation")
    if axis == 0:
        if len({x.shape[1] for x in xs}) != 1:
            raise Unsup("concatenation")
        return A((sum(x.shape[0] for x in xs), xs[0].shape[1]), [y for x in xs for y in x.d])
    if len({x.shape[0] for x in xs}) != 1:
        raise Unsup("concatenation")
    out = []
    for i in range(xs[0].shape[0]):
        for x in xs:
            out += x.d[i * x.shape[1]:(i + 1) * x.shape[1]]
    return A((xs[0].shape[0], sum(x.shape[1] for x in xs)), out)


APPS["hstack"] = _stack(1)
APPS["vstack"] = _stack(0)
APPS["append"] = lambda E, vs, kw: A((sum(len(entries_of(v)) for v in vs),), [y for v in vs for y in entries_of(v)]) if not kw else None
APPS["concatenate"] = lambda E, vs, kw: concat([as_array(v) for v in vs], to_int(kw.get("axis", ZERO)))


@reg("fancy_store")
def _(E, vs, kw):
    b = as_array(vs[0])
    if not isinstance(b, A):
        return None
    d = A(b.shape, b.d)
    ix = vs[1].xs if isinstance(vs[1], L) else [vs[1]]
    E.assign(d, [as_array(i) if isinstance(i, L) else i for i in ix], as_array(vs[2]))
    return d


@reg("factorial")
def _(E, vs, kw):
    k = to_int(vs[0])
    if k < 0:
        raise Unsup("factorial")
    return num(math.factorial(k))


@reg("det")
def _(E, vs, kw):
    v = vs[0]
    if isinstance(v, A) and v.nd == 2 and v.shape[0] == v.shape[1] and v.shape[0] <= 4:
        return det(v)


def det(v):
    n = v.shape[0]
    s = ZERO
    for p in itertools.permutations(range(n)):
        sg = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    sg = -sg
        m = num(sg)
        for i in range(n):
            m = mult(m, v.d[i * n + p[i]])
            if m is ZERO:
                break
        s = addt(s, m)
    return s


@reg("inv")
def _(E, vs, kw):
    v = vs[0]
    if not (isinstance(v, A) and v.nd == 2 and v.shape[0] == v.shape[1] and v.shape[0] <= 3):
        return None
    n = v.shape[0]
    d = det(v)
    if d is ZERO:
        raise Unsup("singular")
    k = E.pw(d, num(-1))
    out = []
    for i in range(n):
        for j in range(n):
            m = A((n - 1, n - 1), [v.d[a * n + b] for a in range(n) if a != j for b in range(n) if b != i])
            c = det(m) if n > 1 else ONE
            out.append(mult(k, c if (i + j) % 2 == 0 else t.neg(c)))
    return A((n, n), out)


@reg("expm")
def _(E, vs, kw):
    v = vs[0]
    if isinstance(v, A) and v.nd == 2 and v.shape[0] == v.shape[1]:
        n = v.shape[0]
        if all(v.d[i * n + j] is ZERO for i in range(n) for j in range(n) if i != j):
            return A((n, n), [(E.fn("exp", v.d[i * n + i]) if v.d[i * n + i] is not ZERO else ONE) if i == j else ZERO for i in range(n) for j in range(n)])
        # canonical orientation under transposition and conjugation
        tr = transpose(v)
        a, b = key(v), key(tr)
        cands = [(key(v), False, False), (key(tr), True, False)]
        cv = map1(sc_conj, v)
        cands += [(key(cv), False, True), (key(transpose(cv)), True, True)]
        k, tflag, cflag = min(cands, key=lambda z: z[0].dig)
        r = E.entries(mk("app", "expm", (k,), ()), v.shape)
        if tflag:
            r = transpose(r)
        if cflag:
            r = map1(sc_conj, r)
        return r


def _diageig(E, vs, kw):
    v = vs[0]
    if isinstance(v, A) and v.nd == 2 and (v.shape == (1, 1) or all(x is ZERO for x in v.d)):
        return A(v.shape[:1], v.d[:v.shape[0]])
    return None


APPS["eigvals"] = APPS["eigvalsh"] = _diageig


@reg("bool_eq")
def _(E, vs, kw):
    a, b = vs
    if isinstance(a, T) and isinstance(b, T):
        r = t.eq(a, b)
        return r
    if isinstance(a, L) and isinstance(b, L) and len(a.xs) != len(b.xs):
        return FALSE
    return None


@reg("inversions")
def _(E, vs, kw):
    return None


@reg("set")
def _(E, vs, kw):
    return None


@reg("call")
def _(E, vs, kw):
    if isinstance(vs[0], Fn) and not kw:
        return E.apply(vs[0], vs[1:])


@reg("outer")
def _(E, vs, kw):
    a, b = entries_of(vs[0]), entries_of(vs[1])
    return A((len(a), len(b)), [mult(x, y) for x in a for y in b])


@reg("sort", "argsort")
def _(E, vs, kw):
    return None


def _sorting(arg):
    def g(E, vs, kw):
        v = as_array(vs[0])
        if isinstance(v, A) and v.nd == 1 and not kw and len(vs) == 1:
            if all(x.op == "num" and x.args[1] == 0 for x in v.d):
                o = sorted(range(len(v.d)), key=lambda i: v.d[i].args[0])
            elif len(v.d) == 1 or arg and len(v.d) <= 4 and all(t.is_real(x) for x in v.d):
                o = []                      # insertion sort, with a case split on every comparison
                for i in range(len(v.d)):
                    k = len(o)
                    while k and E.decide(E.lt0(t.sub(v.d[o[k - 1]], v.d[i]))):
                        k -= 1
                    o.insert(k, i)
            else:
                return None
            return A(v.shape, [num(i) for i in o] if arg else [v.d[i] for i in o])
    return g


APPS["sort"] = _sorting(False)
APPS["argsort"] = _sorting(True)


@reg("entropy")
def _(E, vs, kw):
    p = entries_of(vs[0])
    q = None
    rest = list(vs[1:])
    if "qk" in kw:
        rest.insert(0, kw["qk"])
    if rest and rest[0] is not NONE:
        q = entries_of(rest[0])
        if len(q) != len(p):
            raise Unsup("entropy")
    base = kw.get("base", rest[1] if len(rest) > 1 else NONE)
    if set(kw) - {"qk", "base"}:
        return None

    def normal(xs):
        k = E.pw(sumt(xs), num(-1))
        return [mult(x, k) for x in xs]
    p = normal(p)
    q = normal(q) if q is not None else None
    s = ZERO
    for i, x in enumerate(p):
        if x is ZERO or E.decide(E.eq00(x)):
            continue
        lg = E.fn("log", x)
        if q is not None:
            if q[i] is ZERO or E.decide(E.eq00(q[i])):
                s = addt(s, mk("app", "inf", (), ()))
                continue
            s = addt(s, mult(x, t.sub(lg, E.fn("log", q[i]))))
        else:
            s = t.sub(s, mult(x, lg))
    if base is not NONE:
        s = mult(s, E.pw(E.fn("log", base), num(-1)))
    return s


@reg("np.nonzero")
def _(E, vs, kw):
    v = as_array(vs[0])
    if isinstance(v, T) or kw:
        return None
    keep = [ix for ix, x in zip(itertools.product(*[range(n) for n in v.shape]), v.d) if (E.decide(x) if is_boolv(x) else not E.decide(E.eq00(x)))]
    return L("tuple", [A((len(keep),), [_num(ix[k]) for ix in keep]) for k in range(v.nd)])
