"""Equivalence of a package function with its reference definition.

Both are summarised into normal-form terms by the value-flow analysis; equal
normal forms decide `holds`.  Different normal forms are reported as a violation
only when refute.py shows that the two terms differ in value at some shape;
anything else is `undecided`.
"""
import ast
import time
from . import terms as t
from . import rules as R      # noqa: F401 (registers rules)
from . import vflow, lib, loops, refute      # noqa: F401
from .front import Func
from .terms import T, sym, TRUE, FALSE, ite

HOLDS, VIOLATION, UNDECIDED = "holds", "violation", "undecided"


class Arg:
    """contract of one argument: kind + shape facts"""

    def __init__(self, kind="any", shape=None, square=False, size=False, length=None, elem=None, opt=False, classes=None):
        self.kind, self.shape, self.square, self.size, self.length, self.elem = kind, shape, square, size, length, elem
        self.opt = opt      # may also be None
        self.classes = classes      # one variant per class of argument


CLASSES = {
    "int": ("int", "builtins.int"), "float": ("real", "builtins.float"), "complex": ("scalar", "builtins.complex"),
    "str": ("str", "builtins.str"), "list": ("any", "builtins.list"), "tuple": ("any", "builtins.tuple"),
    "ndarray": ("any", "numpy.ndarray"), "real ndarray": ("any", "numpy.ndarray"), "matrix": ("any", "numpy.ndarray", "numpy.matrix"),
    "float64": ("real", "builtins.float", "numpy.number", "numpy.inexact", "numpy.floating", "numpy.float64", "numpy.generic"),
    "float32": ("real", "numpy.number", "numpy.inexact", "numpy.floating", "numpy.float32", "numpy.generic"),
    "int64": ("int", "numpy.number", "numpy.integer", "numpy.signedinteger", "numpy.int64", "numpy.generic"),
    "complex128": ("scalar", "builtins.complex", "numpy.number", "numpy.inexact", "numpy.complexfloating", "numpy.complex128", "numpy.generic"),
    "complex64": ("scalar", "numpy.number", "numpy.inexact", "numpy.complexfloating", "numpy.complex64", "numpy.generic"),
    "object": ("any",),
    "vector": ("vec", "numpy.ndarray"), "column": ("col", "numpy.ndarray"),
}


def class_sym(s, c):
    k = CLASSES[c]
    x = sym(s.args[0] + "!" + c + ("!real" if c == "real ndarray" else ""), k[0])
    t.CLS[x] = frozenset(k[1:])
    return x


class Spec:
    def __init__(self, name, args, ref=None, raises=False, budget=30.0, note="", pre=None, rel=None, reject=None, key=None, refute=20.0, probe=None, alts=False, open=False):
        self.open = open                               # the probe keeps the other public functions closed
        self.alts = alts                               # the definitions differ: a violation must differ from each of them
        self.refute, self.probe = refute, probe        # probe: definition through which the function is observed
        self.reject, self.key = reject, key or name     # reject: compare only when the call is rejected ("any" exception, or per type)
        self.name, self.args, self.refs, self.rel = name, args, ref or [name, name + "_b", name + "_c"], rel
        self.raises, self.budget, self.note = raises, budget, note
        self.pre = pre


def mksyms(spec):
    ss = []
    for i, a in enumerate(spec.args):
        s = sym(f"{spec.name}.{i}", a.kind)
        ss.append(s)
    env = {f"p{i}": s for i, s in enumerate(ss)}
    for h in ("m", "k"):
        # hidden size parameters, e.g. shape 2*m
        env[h] = sym(f"{spec.name}.{h}", "int")
        t.SIZE_SYMS.add(env[h].args[0])

    def ev(e):
        """shape expressions in terms of the arguments, e.g. '2*p0'"""
        if isinstance(e, int):
            return t.num(e)

        def go(n):
            if isinstance(n, ast.Expression):
                return go(n.body)
            if isinstance(n, ast.BinOp):
                a, b = go(n.left), go(n.right)
                return {ast.Add: t.add, ast.Sub: t.sub, ast.Mult: t.mul, ast.Pow: t.power}[type(n.op)](a, b)
            if isinstance(n, ast.Constant):
                return t.num(n.value)
            if isinstance(n, ast.Name):
                return env[n.id]
            if isinstance(n, ast.Call) and n.func.id == "dim":
                return t.dim(go(n.args[0]), n.args[1].value)
            if isinstance(n, ast.Call) and n.func.id == "len":
                return t.length(go(n.args[0]))
            raise ValueError(ast.dump(n))
        return go(ast.parse(e, mode="eval"))

    for s, a in zip(ss, spec.args):
        if a.size:
            t.SIZE_SYMS.add(s.args[0])
        if a.square:
            t.SQUARE.add(s)
    for s, a in zip(ss, spec.args):
        if a.shape is not None:
            t.DIMS[s] = tuple(ev(e) for e in a.shape)
        if a.length is not None:
            t.LENS[s] = ev(a.length)
        if a.elem is not None:
            t.ELEM_DIMS[s] = tuple(ev(e) for e in a.elem)
    return ss


class Run:
    """summary of one function under one inlining mode"""

    def __init__(self, prog, func, args, inline, budget, asserts=False):
        self.ok, self.why = False, ""
        self.term, self.raises = None, []
        I = vflow.Interp(prog, inline=inline, budget=budget)
        self.I = I
        I.asserts = asserts
        t.DEADLINE[0] = time.time() + budget
        try:
            v, col, st = I.run_function(func, args=args)
            self.term, self.raises = v, col
            self.ok = True
            if I.taint:
                self.why = "taint: " + str(I.taint)
        except vflow.Undecided as e:
            self.why = "not analysed: " + str(e)
        except (vflow.Timeout, t.TooBig, t.OutOfTime) as e:
            self.why = "budget: " + type(e).__name__
        except RecursionError:
            self.why = "term recursion"
        except Exception as e:      # an analyser limitation must never look like a finding
            self.why = f"analyser: {type(e).__name__}: {e}"
            if __import__("os").environ.get("FFSA_DEBUG"): import traceback; traceback.print_exc()

    def opaque(self):
        if self.term is None:
            return None
        return [o[1] for o in t.ops_of(self.term) if isinstance(o, tuple) and o[0] == "opaque"]


class Result:
    def __init__(self, name, verdict, why="", where="", detail=None, stats=None):
        self.name, self.verdict, self.why, self.where = name, verdict, why, where
        self.detail, self.stats = detail or [], stats or {}

    def __repr__(self):
        return f"{self.name}: {self.verdict} {self.why}"


def raise_cond(col):
    """exception type -> condition"""
    out = {}
    for pc, ex in col:
        k = str(ex)
        out[k] = t.b_or(out.get(k, FALSE), pc)
    return {k: v for k, v in out.items() if v is not FALSE}


# ------------------------------------------------------------------ differences
CORE = {"num", "sym", "fv", "bv", "poly", "group", "conj", "tr", "dot", "kron", "arr", "eye", "zeros", "ones", "index", "slice", "dim",
        "len", "gamma", "lt", "eq0", "bigsum", "bigprod", "bigdot", "bigkron", "block", "true", "false", "none", "tuple", "list", "item",
        "spread", "lcomp", "flat", "gpart", "comp", "upd", "set", "ucomp", "str", "exists", "isnone", "draw", "lam", "truthy", "allclose", "isinst"}
CORE_FN = {"re", "im", "abs", "exp", "log", "sign", "round"}
CORE_APP = {"trace", "sumall", "diagv", "diagm", "norm", "mod", "floordiv", "expm", "factorial", "int", "min", "max", "arange", "prodall",
            "maxall", "minall"}


def head(x):
    if x.op == "app":
        return ("app", x.args[0])
    if x.op == "fn":
        return ("fn", x.args[0])
    return x.op


def heads(x):
    out = set()
    for o in t.ops_of(x):
        out.add(o)
    return out


def trusted(h):
    if isinstance(h, tuple):
        if h[0] == "opaque":
            return False
        if h[0] == "fn":
            return h[1] in CORE_FN
        return h[1] in CORE_APP or h[1].startswith("ff.")
    return h in CORE


_cost = {}


def cost(ps):
    return sum(min(a.size, 400) + min(b.size, 400) for a, b in ps)


def diff(a, b, depth=0, budget=None):
    """anti-unification: pairs of differing subterms"""
    if budget is None:
        budget = [4000]
    budget[0] -= 1
    if a is b:
        return []
    if depth > 40 or budget[0] < 0:
        return [(a, b)]
    if head(a) != head(b):
        if a.op == "poly" or b.op == "poly":
            return diff_poly(a, b, depth, budget)
        return [(a, b)]
    op = a.op
    if op in ("num", "sym", "fv", "bv", "str", "opaque"):
        return [(a, b)]
    if op == "poly":
        return diff_poly(a, b, depth, budget)
    if op == "gamma":
        if a.args[0] is b.args[0]:
            return diff(a.args[1], b.args[1], depth + 1, budget) + diff(a.args[2], b.args[2], depth + 1, budget)
        best = [(a, b)]
        if True:
            r = diff(a.args[0], b.args[0], depth + 1, budget) + diff(a.args[1], b.args[1], depth + 1, budget) + diff(a.args[2], b.args[2], depth + 1, budget)
            if cost(r) < cost(best):
                best = r
        return best
    if op in t.BINDERS and op not in ("lam", "fold"):
        va, lo, hi, ba = t.open_binder(a)
        bb = t.open_binder_with(b, va)
        r = diff(a.args[1], b.args[1], depth + 1, budget) + diff(a.args[2], b.args[2], depth + 1, budget) + diff(ba, bb, depth + 1, budget)
        for x, y in zip(a.args[4:], b.args[4:]):
            if isinstance(x, T) and isinstance(y, T):
                r += diff(t.subst(x, {t.mk("bv", a.args[0]): va}), t.subst(y, {t.mk("bv", b.args[0]): va}), depth + 1, budget)
            elif x is not y and x != y:
                return [(a, b)]
        return r
    ca, cb = flat(a.args), flat(b.args)
    if ca is None or cb is None or len(ca) != len(cb):
        return [(a, b)]
    r = []
    for x, y in zip(ca, cb):
        if isinstance(x, T) and isinstance(y, T):
            r += diff(x, y, depth + 1, budget)
        elif x != y:
            return [(a, b)]
    if cost(r) >= a.size + b.size:
        return [(a, b)]
    return r


def flat(args):
    out = []
    for x in args:
        if isinstance(x, tuple):
            f = flat(x)
            out.append(len(f))
            out += f
        else:
            out.append(x)
    return out


def diff_poly(a, b, depth, budget):
    ma, mb = dict(t.monos(a)), dict(t.monos(b))
    for m in list(ma):
        if m in mb and ma[m] == mb[m]:
            del ma[m], mb[m]
    la, lb = t.from_monos(ma) if ma else t.ZERO, t.from_monos(mb) if mb else t.ZERO
    if len(ma) == 1 and len(mb) == 1:
        (m1, c1), = ma.items()
        (m2, c2), = mb.items()
        if m1 == m2:
            return [(t.num(*c1), t.num(*c2))]
        f1, f2 = dict(m1), dict(m2)
        for x in list(f1):
            if x in f2 and f1[x] == f2[x]:
                del f1[x], f2[x]
        if len(f1) == 1 and len(f2) == 1:
            (x1, e1), = f1.items()
            (x2, e2), = f2.items()
            r = [] if c1 == c2 else [(t.num(*c1), t.num(*c2))]
            if x1 is x2:
                return r + [(asT(e1), asT(e2))]
            if e1 == e2:
                return r + diff(x1, x2, depth + 1, budget)
        return [(t.from_monos({tuple(sorted(f1.items(), key=lambda p: p[0].dig)): c1}), t.from_monos({tuple(sorted(f2.items(), key=lambda p: p[0].dig)): c2}))]
    if (la.op == lb.op == "poly") and (len(ma) != len(t.monos(a)) or len(mb) != len(t.monos(b))):
        return [(la, lb)]
    if ma and mb and len(ma) == len(mb) and len(ma) <= 6:
        # pair up the closest summands
        left = dict(mb)
        out = []
        for m1, c1 in sorted(ma.items(), key=lambda p: str(p[0])):
            x = t.from_monos({m1: c1})
            best = None
            for m2, c2 in left.items():
                y = t.from_monos({m2: c2})
                d = diff_poly(x, y, depth + 1, budget) if depth < 30 else [(x, y)]
                k = cost(d)
                if best is None or k < best[0]:
                    best = (k, m2, d)
            out += best[2]
            del left[best[1]]
        return out
    return [(la, lb)]


def asT(e):
    return e if isinstance(e, T) else t.num(e)


# ------------------------------------------------------------------ case split
def atoms_of(x, acc, n=24):
    if len(acc) >= n:
        return
    if x.op == "gamma":
        acc.setdefault(x.args[0], None)
        atoms_of(x.args[1], acc, n)
        atoms_of(x.args[2], acc, n)
    elif x.op in ("tuple", "list"):
        for y in flat(x.args):
            if isinstance(y, T):
                atoms_of(y, acc, n)
    elif x.op == "item":
        atoms_of(x.args[0], acc, n)


def solve_eq(c):
    """c: eq0(p) -> (symbol-like atom, value) when p is linear in an atom"""
    if c.op != "eq0":
        return None
    x = c.args[0]
    if x.op == "app" and x.args[0] == "mod" and x.args[1][0].op in ("dim", "len", "sym") and t.as_int(x.args[1][1]):
        # divisible: X = k*M
        a = x.args[1][0]
        mm = sym("half!" + a.dig.hex()[:8] if isinstance(a.dig, bytes) else "half!" + str(a.dig)[:8], "int")
        t.SIZE_SYMS.add(mm.args[0])
        return a, t.mul(x.args[1][1], mm)
    md = t.monos(c.args[0])
    best = None
    for m, k in md.items():
        if len(m) == 1 and m[0][1] == t.F1 and k[1] == 0 and abs(k[0]) == 1:
            a = m[0][0]
            if a.op in ("sym", "dim", "len", "index"):
                rest = t.mul(t.num(-1 / k[0]), t.sub(c.args[0], t.mul(t.num(k[0]), a)))
                if a.op == "sym" and a in t.syms_of(rest):
                    continue
                if a.op != "sym" and any(a is y for y in subterms(rest)):
                    continue
                sc = (a.op == "sym", -a.size)
                if best is None or sc > best[0]:
                    best = (sc, a, rest)
    return None if best is None else (best[1], best[2])


def subterms(x, seen=None):
    seen = seen if seen is not None else set()
    if x in seen:
        return seen
    seen.add(x)
    for y in t.children(x):
        subterms(y, seen)
    return seen


def closed(x):
    """no index bound outside the term"""
    def go(y, bound):
        if y.op == "bv":
            return y.args[0] in bound
        if y.op == "fv":
            return False
        if "bv" not in t.ops_of(y) and not y.fvs:
            return True
        if y.op in t.BINDERS:
            bound = bound | {y.args[0]}
        return all(go(z, bound) for z in t.children(y))
    return go(x, frozenset())


def deep(x, c, v):
    """x under the assumption that c is v, conditions inside operations included"""
    y = t.cof(x, c, v)
    return t.deep_cof(y, c, v) if c in t.gates_of(y) and y.size < 20000 else y


def split_equal(a, b, depth=0, deadline=None):
    """equality by case analysis on gate conditions"""
    if a is b:
        return True
    if depth > 7 or (deadline and time.time() > deadline):
        return False
    acc = {}
    atoms_of(a, acc)
    atoms_of(b, acc)
    if not acc:
        # conditions inside the terms
        gs = [g for g in t.gates_of(a) | t.gates_of(b) if closed(g)]
        if not gs:
            return False
        c = min(gs, key=lambda g: (g.size, g.dig))
        return all(split_equal(t.deep_cof(a, c, v), t.deep_cof(b, c, v), depth + 1, deadline) for v in (True, False))
    # prefer equations
    cs = sorted(acc, key=lambda c: (c.op != "eq0", c.size))
    c = cs[0]
    s = solve_eq(c)
    at, bt = deep(a, c, True), deep(b, c, True)
    if s is not None:
        try:
            at, bt = t.subst_term(at, s[0], s[1]), t.subst_term(bt, s[0], s[1])
        except t.TooBig:
            pass
    if not split_equal(at, bt, depth + 1, deadline):
        return False
    return split_equal(deep(a, c, False), deep(b, c, False), depth + 1, deadline)


# ------------------------------------------------------------------ verdict
class FFModels:
    def __init__(self, checker):
        self.c, self.memo = checker, {}

    def get(self, n):
        if n in refute.MODELS:
            return refute.MODELS[n]
        name = n[3:]
        if any(self.c.ref_func("ref_" + q) for q in (name, name + "_b", name + "_c")):
            return lambda E, vs, kw: self.value(name, E, vs, kw)
        return None

    def summaries(self, name, nones):
        from . import specs
        k = (name, nones)
        if k not in self.memo:
            out = []
            sp = specs.SPECS.get(name)
            for q in (name, name + "_b", name + "_c"):
                rf = self.c.ref_func("ref_" + q)
                if rf is None:
                    continue
                args = mksyms(sp) if sp else [t.sym(f"{name}.{i}", "any") for i in range(len(nones))]
                args = [t.NONE if z else a for a, z in zip(args, nones)]
                args = args[:len(rf.params())]
                save = t.DEADLINE[0]
                r = Run(self.c.prog, rf, args, self.c.mode(False), 10)
                t.DEADLINE[0] = save
                if r.ok and not r.why:
                    out.append((args, r.term))
            self.memo[k] = out
        return self.memo[k]

    def random(self, name, seen=()):
        """does the reference of the function draw random numbers?"""
        if name.startswith("random_"):
            return True
        if name in seen:
            return False
        sp = specs_of(name)
        for args, term in self.summaries(name, (False,) * (len(sp.args) if sp else 0)) if sp else ():
            if random_parts(term) or any(self.random(o[1][3:], seen + (name,)) for o in t.ops_of(term) if isinstance(o, tuple) and o[0] == "app" and o[1].startswith("ff.")):
                return True
        return False

    def value(self, name, E, vs, kw):
        if kw:
            return None
        why = None
        for args, term in self.summaries(name, tuple(v is t.NONE for v in vs)):
            if len(args) > len(vs):
                continue
            e = E.child({a: v for a, v in zip(args, vs) if a is not t.NONE})
            try:
                v = e.ev(term)
            except refute.Unsup as x:
                why = refute.Unsup(f"{x} (in {name})") if "(in" not in str(x) else x
                continue
            if random_parts(term) or any(self.random(o[1][3:]) for o in t.ops_of(term) if isinstance(o, tuple) and o[0] == "app" and o[1].startswith("ff.")):
                # only the shape is known
                return fresh_like(E, v, t.mk("app", "ff." + name, tuple(refute.S.key(x) for x in vs), ()))
            return v
        if why is not None:
            raise why
        return None


def specs_of(name):
    from . import specs
    return specs.SPECS.get(name)


def random_parts(v):
    if isinstance(v, T):
        return "draw" in t.ops_of(v) or any(isinstance(o, tuple) and o[0] == "app" and o[1].startswith("ff.random") for o in t.ops_of(v))
    if isinstance(v, refute.A):
        return any(random_parts(x) for x in v.d)
    if isinstance(v, refute.L):
        return any(random_parts(x) for x in v.xs)
    return False


def fresh_like(E, v, base):
    if isinstance(v, T):
        refute.S.ENTRIES.add(base)
        return base
    if isinstance(v, refute.A):
        return E.entries(base, v.shape)
    if isinstance(v, refute.L):
        return refute.L(v.kind, [fresh_like(E, x, t.mk("index", base, (t.num(i),))) for i, x in enumerate(v.xs)])
    return v


class Checker:
    def __init__(self, prog, refprog_prefix="ffref", public=(), accept=None):
        self.prog, self.accept = prog, accept
        self.public = set(public)
        self.memo = {}

    def mode(self, inlined, probed=None):
        pub = self.public - {probed}

        def inl(fn):
            if fn.module.name.startswith("ffref"):
                return True
            if inlined:
                return True
            return fn.name not in pub
        return inl

    def ref_func(self, name):
        for m in self.prog.modules.values():
            if m.name.startswith("ffref.") and name in m.funcs:
                return m.funcs[name]
        return None

    def check(self, spec):
        if spec.key in self.memo:
            return self.memo[spec.key]
        r = self._check(spec)
        self.memo[spec.key] = r
        return r

    def models(self):
        """public package functions stand for their reference definitions"""
        if not hasattr(self, "_models"):
            self._models = FFModels(self)
        return self._models

    def variants(self, spec, args):
        """argument vectors: every optional argument given / None"""
        out = [[]]
        for a, x in zip(spec.args, args):
            xs = [class_sym(x, c) for c in a.classes] if a.classes else [x]
            if a.opt:
                xs.append(t.NONE)
            out = [v + [y] for v in out for y in xs]
        return out

    def _check(self, spec):
        f = self.prog.find(spec.name)
        if not isinstance(f, Func):
            return Result(spec.name, "missing", "public function not found")
        args = mksyms(spec)
        n = len(f.params())
        ds = f.defaults()
        ps = f.params()
        if n < len(args):
            return Result(spec.name, VIOLATION, f"takes {n} positional arguments, contract has {len(args)}", f.where())
        extra = []
        I0 = vflow.Interp(self.prog)
        for p in ps[len(args):]:
            if p not in ds:
                return Result(spec.name, VIOLATION, f"new required argument {p}", f.where())
            try:
                st0 = vflow.State()
                extra.append(I0.tv(st0, I0.expr(ds[p], st0, vflow.Frame(f, f.module))))
            except Exception:
                return Result(spec.name, UNDECIDED, "default of " + p, f.where())
        stats = {"params": n, "modes": []}
        whys = []
        und = False
        vs = self.variants(spec, args)
        for k, v in enumerate(vs):
            r = self._check_variant(spec, f, v, extra, stats)
            bits = [p + "=None" for p, x in zip(ps, v) if x is t.NONE] + [p + ":" + x.args[0].split("!")[1] for p, x in zip(ps, v) if x in t.CLS]
            lab = "[" + ", ".join(bits) + "] " if bits else ""
            if r.verdict == VIOLATION:
                r.why = lab + r.why
                return r
            if r.verdict == UNDECIDED:
                und = True
                whys.append(lab + r.why)
        if und:
            return Result(spec.name, UNDECIDED, "; ".join(whys), f.where(), stats=stats)
        stats["variants"] = len(vs)
        return Result(spec.name, HOLDS, "", f.where(), stats=stats)

    def _check_variant(self, spec, f, args, extra, stats):
        fargs = args + extra
        whys = []
        cands = []
        for inlined in (False, True):
            if spec.probe:
                if not inlined and not spec.open:
                    continue
                cur = Run(self.prog, self.ref_func("probe_" + spec.probe), args, self.mode(inlined, spec.name), spec.budget)
            else:
                cur = Run(self.prog, f, fargs, self.mode(inlined), spec.budget, spec.reject == "any")
            mode = "inlined" if inlined else "modular"
            if not cur.ok or cur.why:
                whys.append(mode + ": " + cur.why)
                continue
            names = ["rel_" + spec.rel] if spec.rel else ["ref_" + r for r in spec.refs]
            for rn in names:
                rf = self.ref_func(rn)
                if rf is None:
                    continue
                if spec.rel:
                    ref = Run(self.prog, rf, args + [cur.term], self.mode(inlined), spec.budget)
                else:
                    ref = Run(self.prog, rf, args[:len(rf.params())], self.mode(inlined), spec.budget, spec.reject == "any")
                if not ref.ok or ref.why:
                    whys.append(mode + " reference: " + ref.why)
                    continue
                t.DEADLINE[0] = time.time() + spec.budget
                try:
                    what, why = self.compare_rel(ref) if spec.rel else self.compare_runs(cur, ref, spec)
                except t.OutOfTime:
                    what, why = None, "comparison budget"
                if what == []:
                    stats["modes"].append({"mode": mode, "reference": rn, "size": cur.term.size, "loops": cur.I.loops, "functions": sorted(cur.I.calls)})
                    return Result(spec.name, HOLDS)
                if what is None:
                    whys.append(f"{mode}/{rn}: {why}")
                else:
                    cands.append((inlined, rn, cur, ref, what))
        # normal forms differ: is it a difference in value?
        cands.sort(key=lambda c: (not c[0], c[2].term.size + c[3].term.size))
        told = {}
        for inlined, rn, cur, ref, what in cands[:4]:
            if rn in told:
                continue
            mode = "inlined" if inlined else "modular"
            t.DEADLINE[0] = time.time() + 40
            if spec.name == "generate_random_planar_graph":
                msg = refute.graphs.planar_outcome(cur.term, args[0], time.time() + 30)
                if msg:
                    return Result(spec.name, VIOLATION, "a returned graph is not planar and connected on all nodes", f.where(), msg, stats)
                whys.append(f"{mode}/{rn}: normal forms differ, no bad outcome found")
                continue
            rf = refute.Refuter(budget=spec.refute, models=refute.graphs.MODELS if spec.name in refute.graphs.NAMES else self.models(),
                                canon=refute.graphs.canonical if spec.name == "find_perfect_matchings_brute" else None, accept=self.accept)
            try:
                if spec.rel or spec.reject:
                    care = ([], [])
                else:
                    care = tuple([pc for pc, ex in r.raises if str(ex) != "AssertionError"] for r in (cur, ref))
                conds = [w for w in what if isinstance(w[1], tuple)] if not self.accept else []
                vals = [w for w in what if not isinstance(w[1], tuple)]
                insts = refute.instances(spec, args)
                v, msg = rf.run(conds, ([], []), insts) if conds else (refute.SAME, None)
                if v != refute.DIFF and vals:
                    v, msg = rf.run(vals, care, insts)
                if v != refute.DIFF:                # sizes that only this program singles out
                    ks = set()
                    for q in [cur.term] + [pc for pc, ex in cur.raises]:
                        ks |= refute.int_consts(q)
                    for q in [ref.term] + [pc for pc, ex in ref.raises]:
                        ks -= refute.int_consts(q)
                    ks = {k for k in ks if 2 < k < 1000}
                    more = refute.large_instances(spec, args, ks) if ks else []
                    if more:
                        rf.deadline = time.time() + min(20, spec.refute)
                        if conds:
                            v, msg = rf.run(conds, ([], []), more)
                        if v != refute.DIFF and vals:
                            v, msg = rf.run(vals, care, more)
            except (t.OutOfTime, t.TooBig, RecursionError) as e:
                v, msg = refute.UNKNOWN, None
                rf.note(type(e).__name__)
            except Exception as e:
                v, msg = refute.UNKNOWN, None
                if refute.DEBUG:
                    __import__("traceback").print_exc()
                rf.note(f"analyser: {type(e).__name__}: {e}")
            if v != refute.DIFF and not spec.rel and not spec.reject and not self.accept:
                try:
                    msg = draw_change(cur.term, ref.term, insts)
                    if msg is None and "draw" in t.ops_of(cur.term) and "draw" in t.ops_of(ref.term):
                        msg = refute.distributions(cur.term, ref.term, insts, time.time() + 15)
                    if msg:
                        return Result(spec.name, VIOLATION, "random numbers are drawn from another distribution than defined", f.where(), msg, stats)
                except (t.TooBig, t.OutOfTime, RecursionError, refute.Unsup):
                    pass
            if v == refute.DIFF and spec.alts:
                told[rn] = msg
                if len(told) < len([r for r in spec.refs if self.ref_func("ref_" + r)]):
                    continue
            if v == refute.DIFF:
                return Result(spec.name, VIOLATION, "accepts or rejects other inputs than documented" if spec.reject else "value differs from the definition",
                              f.where(), msg, stats)
            whys.append(f"{mode}/{rn}: normal forms differ, no difference in value confirmed {rf.stats}")
        return Result(spec.name, UNDECIDED, "; ".join(dict.fromkeys(whys)), f.where(), stats=stats)

    # each comparison gives [] (equal), a list of (label, current, reference) still to be told apart, or None (not comparable)
    def compare_rel(self, ref):
        r = ref.term
        if r.op != "tuple" or len(flat(r.args)) < 2:
            return None, "relation not understood"
        xs = [x for x in flat(r.args) if isinstance(x, T)]
        a, b = xs[0], xs[1]
        if a is b or split_equal(a, b, 0, time.time() + 20):
            return [], ""
        return [("", a, b)], ""

    def compare_runs(self, cur, ref, spec):
        dl = time.time() + 20
        if spec.reject:
            return self.compare_rejects(cur, ref, spec, dl)
        out = []
        if spec.raises:
            a, b = raise_cond(cur.raises), raise_cond(ref.raises)
            a = {k: v for k, v in a.items() if k in b or k in spec_types(spec)}
            for k in sorted(set(a) | set(b)):
                x, y = a.get(k, FALSE), b.get(k, FALSE)
                if x is not y and not split_equal(x, y, 0, dl):
                    if cur.I.handlers:
                        return None, "exception handlers"
                    out.append((f"raising {k}", (x,), (y,)))
        if cur.term is ref.term:
            return out, ""
        x, y = cur.term, ref.term
        try:
            # values matter only where neither raises
            care = TRUE
            for pc, ex in cur.raises + ref.raises:
                if str(ex) != "AssertionError":
                    care = t.b_and(care, t.b_not(pc))
            x, y = t.restrict(x, care), t.restrict(y, care)
            if x is y or split_equal(x, y, 0, dl):
                return out, ""
        except (t.TooBig, RecursionError):
            pass
        return out + [("", x, y)], ""

    def compare_rejects(self, cur, ref, spec, dl):
        a, b = raise_cond(cur.raises), raise_cond(ref.raises)
        if spec.reject == "any":
            x, y = FALSE, FALSE
            for v in a.values():
                x = t.b_or(x, v)
            for v in b.values():
                y = t.b_or(y, v)
            a, b = {"an exception": x}, {"an exception": y}
        else:
            a = {k: v for k, v in a.items() if k in spec.reject or k in b}
        out = []
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k, FALSE), b.get(k, FALSE)
            if x is y or split_equal(x, y, 0, dl):
                continue
            if cur.I.handlers:
                return None, "exception handlers"
            out.append((f"raising {k}", (x,), (y,)))
        return out, ""


def draws_of(x):
    acc, seen, todo = set(), set(), [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "draw":
            acc.add(y)
        todo += t.children(y)
    return acc


def draw_change(cur, ref, insts):
    """the two summaries agree except for the parameters of one draw"""
    a, b = draws_of(cur), draws_of(ref)
    a, b = a - b, b - a
    if len(a) != 1 or len(b) != 1:
        return None
    (x,), (y,) = a, b
    if x.args[0] != y.args[0] or len(x.args[1]) != len(y.args[1]) or x.fvs or y.fvs or x.args[2:4] != y.args[2:4]:
        return None
    # the shape of a draw belongs to the summary, not to its distribution
    z = t.mk("draw", "same draw", (), *y.args[2:])
    if x.args[4:] != y.args[4:]:
        return None
    u, v = t.subst_term(cur, x, z), t.subst_term(ref, y, z)
    if u is not v and not split_equal(u, v, 0, time.time() + 10):
        return None
    for inst in insts[:60]:
        e = refute.Ev(inst.syms)
        try:
            ps = [(e.ev(p), e.ev(q)) for p, q in zip(x.args[1], y.args[1]) if p is not q]
        except (refute.Unsup, refute.S.Split):
            continue
        for p, q in ps:
            p, q = refute.S.key(p), refute.S.key(q)
            simple = {"num", "true", "false", "none", "str"}
            if p is not q and p.op in simple and q.op in simple:
                return [f"for ({inst.label})", f"{x.args[0]} draws with parameter {t.show(p)[:80]}; by the definition {t.show(q)[:80]}"]
    return None


def spec_types(spec):
    return spec.raises if isinstance(spec.raises, (set, tuple, list)) else ()
