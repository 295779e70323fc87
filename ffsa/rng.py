"""Random-generator typestate (seeded reproducibility, unseeded neutrality).

An abstract interpreter walks every public function once per *seed case*
(None, 0, positive, negative), following calls inside the package, and tracks for
the two shared generators (numpy's and Python's) how they were last seeded.
Values are small sets of abstract values; conditions on the seed are decided,
all others are explored both ways and joined.
"""
import ast
from .front import Func, Module, import_map

UNK = ("unk",)
NONE, TRUE, FALSE = ("none",), ("true",), ("false",)
MAXDEPTH = 14

NP_META = {"seed", "get_state", "set_state", "default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64",
           "PCG64DXSM", "BitGenerator", "mtrand", "bit_generator"}
PY_META = {"seed", "getstate", "setstate", "Random", "SystemRandom"}
NX_SEEDPOS = {"gnm_random_graph": 2, "gnp_random_graph": 2, "erdos_renyi_graph": 2, "binomial_graph": 2, "fast_gnp_random_graph": 2,
              "dense_gnm_random_graph": 2, "random_regular_graph": 2}
NX_NP = {"spring_layout", "fruchterman_reingold_layout", "random_layout", "forceatlas2_layout", "arf_layout"}
ENTROPY = {"os.urandom", "uuid.uuid1", "uuid.uuid4", "secrets.token_bytes", "secrets.token_hex", "secrets.randbelow", "secrets.randbits",
           "secrets.choice", "os.getrandom"}


CLOCKS = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time",
          "os.getpid", "os.times", "builtins.id", "datetime.datetime.now", "datetime.datetime.utcnow", "threading.get_ident"}
ENT = ("entropy",)                # value that differs from run to run


def stringy(e):
    """does an expression (or part of it) make a string, whose hash differs from process to process?"""
    for n in ast.walk(e):
        if isinstance(n, ast.JoinedStr) or isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("str", "repr", "bytes", "format"):
            return True
    return False


class Event:
    def __init__(self, kind, node, func, msg, states=None, val=None):
        self.kind, self.node, self.func, self.msg, self.states, self.val = kind, node, func, msg, states, val


class S:
    """abstract state: variables and the shared generators"""

    def __init__(self, env=None, np=frozenset(["caller"]), py=frozenset(["caller"]), touched=False, heap=None):
        self.env, self.np, self.py, self.touched = env or {}, np, py, touched

    def copy(self):
        return S(dict(self.env), self.np, self.py, self.touched)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k), b.env.get(k)
        env[k] = (x or frozenset()) | (y or frozenset())
    return S(env, a.np | b.np, a.py | b.py, a.touched or b.touched)


def same(a, b):
    return a is not None and b is not None and a.env == b.env and a.np == b.np and a.py == b.py and a.touched == b.touched


def fs(*x):
    return frozenset(x)


def seeddep(vals):
    """does a value depend on the seed?"""
    return any(v[0] in ("seed", "dep") for v in vals)


class Out:
    def __init__(self):
        self.ret, self.val = None, frozenset()
        self.brk, self.cont = None, None


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.events = []
        self.stack = []
        self.funcs = set()
        self.sites = 0
        self.undecided = []
        self.raises = []

    # ---------------------------------------------------------- entry
    def run(self, func, vals):
        st = S({p: v for p, v in vals.items()})
        v, st2 = self.body(func.node, func.module, st, func)
        return v, st2

    def body(self, node, module, st, func, closure=None, imports=None):
        self.stack.append(node)
        self.funcs.add(f"{module.name}.{node.name}" if hasattr(node, "name") else f"{module.name}.<lambda>")
        fr = Fr(module, dict(imports or {}), closure or {}, func)
        out = Out()
        try:
            s = self.block(node.body, st, fr, out)
        finally:
            self.stack.pop()
        val = out.val
        end = out.ret
        if s is not None:
            val = val | fs(NONE)
            end = join(end, s)
        return (val or fs(UNK)), end

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, fr, out):
        for n in stmts:
            if st is None:
                return None
            st = self.stmt(n, st, fr, out)
        return st

    def stmt(self, n, st, fr, out):
        ty = type(n)
        if ty is ast.Expr:
            self.ev(n.value, st, fr)
            return st
        if ty is ast.Assign:
            v = self.ev(n.value, st, fr)
            for t in n.targets:
                self.assign(t, v, st, fr)
            return st
        if ty is ast.AnnAssign:
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, st, fr), st, fr)
            return st
        if ty is ast.AugAssign:
            v = self.ev(n.value, st, fr)
            if isinstance(n.target, ast.Name):
                st.env[n.target.id] = self.arith(self.lookup(n.target.id, st, fr), v)
            else:
                self.ev(n.target, st, fr)
            return st
        if ty is ast.Return:
            v = self.ev(n.value, st, fr) if n.value is not None else fs(NONE)
            out.ret = join(out.ret, st)
            out.val = out.val | v
            return None
        if ty is ast.If:
            a, b = self.branch(n.test, st, fr)
            r1 = self.block(n.body, a, fr, out) if a is not None else None
            r2 = self.block(n.orelse, b, fr, out) if b is not None else None
            return join(r1, r2)
        if ty in (ast.For, ast.AsyncFor):
            self.ev(n.iter, st, fr)
            return self.loop(n, st, fr, out, lambda s: (self.assign(n.target, fs(UNK), s, fr), s)[1])
        if ty is ast.While:
            return self.loop(n, st, fr, out, None)
        if ty is ast.Raise:
            if n.exc is not None:
                self.ev(n.exc, st, fr)
            self.raises.append((n, st.copy(), fr, tuple(self.stack)))
            return None
        if ty is ast.Assert:
            a, b = self.branch(n.test, st, fr)
            return a if a is not None else None
        if ty is ast.Break:
            out.brk = join(out.brk, st.copy())
            return None
        if ty is ast.Continue:
            out.cont = join(out.cont, st.copy())
            return None
        if ty in (ast.Import, ast.ImportFrom):
            fr.imports.update(import_map([n], self.prog.pkg, fr.module.name))
            return st
        if ty in (ast.FunctionDef, ast.AsyncFunctionDef):
            fr.local[n.name] = (n, fr)
            st.env[n.name] = fs(("clo", n.name))
            return st
        if ty is ast.Try or ty.__name__ == "TryStar":
            before = st.copy()
            s = self.block(n.body, st, fr, out)
            s2 = self.block(n.orelse, s, fr, out) if s is not None else None
            res = s2
            mid = join(before, s.copy() if s is not None else None)
            for h in n.handlers:
                res = join(res, self.block(h.body, mid.copy(), fr, out))
            if n.finalbody:
                if res is not None:
                    res = self.block(n.finalbody, res, fr, out)
                else:
                    self.block(n.finalbody, mid.copy(), fr, out)
            return res
        if ty in (ast.With, ast.AsyncWith):
            for it in n.items:
                v = self.ev(it.context_expr, st, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st, fr)
            return self.block(n.body, st, fr, out)
        if ty is ast.Delete or ty in (ast.Pass, ast.Global, ast.Nonlocal, ast.ClassDef):
            return st
        if ty.__name__ == "Match":
            self.ev(n.subject, st, fr)
            res = st.copy()
            for c in n.cases:
                res = join(res, self.block(c.body, st.copy(), fr, out))
            return res
        self.undecided.append(f"statement {ty.__name__} at {fr.module.rel}:{n.lineno}")
        return st

    def loop(self, n, st, fr, out, enter):
        o = Out()
        head = st
        brk = None
        for _ in range(12):
            o.brk = o.cont = None
            s = head.copy()
            if enter:
                s = enter(s)
                body_in = s
                exit_ = head.copy()
            else:
                body_in, exit_ = self.branch(n.test, s, fr)
            r = self.block(n.body, body_in, fr, o) if body_in is not None else None
            brk = join(brk, o.brk)
            nxt = join(join(head.copy(), r), o.cont)
            if same(nxt, head):
                break
            head = nxt
        out.ret = join(out.ret, o.ret)
        out.val = out.val | o.val
        if not enter:
            _, exit_ = self.branch(n.test, head.copy(), fr)
        else:
            exit_ = head.copy()
        res = self.block(n.orelse, exit_, fr, out) if exit_ is not None else None
        return join(res, brk)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            tup = [x for x in v if x[0] == "tup"]
            for i, e in enumerate(t.elts):
                if len(tup) == len(v) == 1 and len(tup[0][1]) == len(t.elts) and not any(isinstance(y, ast.Starred) for y in t.elts):
                    self.assign(e, tup[0][1][i], st, fr)
                else:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, fs(("dep",)) if seeddep(v) else fs(UNK), st, fr)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, st, fr)
            self.ev(t.slice, st, fr)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, st, fr)

    # ---------------------------------------------------------- conditions
    def truth(self, v):
        """possible truth values of an abstract value"""
        k = v[0]
        if k in ("none", "false"):
            return {False}
        if k == "true":
            return {True}
        if k == "seed":
            return {v[1] != "zero"}
        if k == "const":
            return {bool(v[1])}
        if k in ("rng", "mod", "lib", "func", "clo"):
            return {True}
        return {True, False}

    def branch(self, test, st, fr):
        """states where the test may be true / false"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.branch(test.operand, st, fr)
            return b, a
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur, other = st, None
            for v in test.values:
                if cur is None:
                    break
                a, b = self.branch(v, cur, fr)
                if isand:
                    other = join(other, b)
                    cur = a
                else:
                    other = join(other, a)
                    cur = b
            return (cur, other) if isand else (other, cur)
        v = self.ev(test, st, fr)
        ts = set()
        for x in v:
            ts |= self.truth(x)
        a = st.copy() if True in ts else None
        b = st.copy() if False in ts else None
        if isinstance(test, ast.Name):
            # refine the tested variable
            if a is not None:
                a.env[test.id] = frozenset(x for x in v if True in self.truth(x)) or v
            if b is not None:
                b.env[test.id] = frozenset(x for x in v if False in self.truth(x)) or v
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            cur = self.lookup(test.left.id, st, fr)
            pos, neg = frozenset(x for x in cur if x == NONE or x == UNK), frozenset(x for x in cur if x != NONE)
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                pos, neg = neg, pos
            if a is not None and pos:
                a.env[test.left.id] = pos
            if b is not None and neg:
                b.env[test.left.id] = neg
        return a, b

    def cmp(self, op, x, y):
        """possible outcomes of x op y"""
        both = {True, False}
        if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            r = both
            if NONE in (x, y):
                o = y if x == NONE else x
                if o == NONE:
                    r = {True}
                elif o[0] not in ("unk", "dep") or o[0] == "dep":
                    r = {False} if o[0] != "unk" else both
            elif x[0] in ("rng", "lib", "pkgmod", "func") and y[0] in ("rng", "lib", "pkgmod", "func") and (x[0] != "rng" or y[0] != "rng"):
                r = {x == y}
            elif x[0] == "const" and y[0] == "const":
                r = {x[1] == y[1]}
            elif {x[0], y[0]} <= {"seed", "const", "true", "false"}:
                s, c = (x, y) if x[0] == "seed" else (y, x)
                if s[0] == "seed" and c[0] == "const":
                    r = {c[1] == 0} if s[1] == "zero" else ({False} if c[1] == 0 else both)
                elif s[0] == "seed" and c[0] in ("true", "false"):
                    r = {c[0] == "false"} if s[1] == "zero" and isinstance(op, (ast.Eq, ast.NotEq)) else (both if isinstance(op, (ast.Eq, ast.NotEq)) else {False})
                elif x[0] in ("true", "false") and y[0] in ("true", "false"):
                    r = {x == y}
            return {not b for b in r} if neg else r
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if x[0] == "seed" and y[0] == "const" and y[1] == 0:
                s = {"zero": 0, "pos": 1, "neg": -1}[x[1]]
            elif y[0] == "seed" and x[0] == "const" and x[1] == 0:
                s = -{"zero": 0, "pos": 1, "neg": -1}[y[1]]
            elif x[0] == "seed" and x[1] == "zero" and y[0] == "const" and isinstance(y[1], (int, float)):
                s = (0 > y[1]) - (0 < y[1])
            elif x[0] == "const" and y[0] == "const":
                try:
                    s = (x[1] > y[1]) - (x[1] < y[1])
                except TypeError:
                    return both
            else:
                return both
            return {{ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[type(op)]}
        return both

    # ---------------------------------------------------------- expressions
    def lookup(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        if name in fr.closure:
            return fr.closure[name]
        if name in fr.imports:
            return self.resolved(self.prog.resolve_dotted(fr.imports[name]))
        r = self.prog.resolve(fr.module, name)
        if r is None:
            return fs(("lib", "builtins." + name))
        return self.resolved(r, fr)

    def resolved(self, r, fr=None):
        if isinstance(r, Func):
            return fs(("func", r))
        if isinstance(r, Module):
            return fs(("pkgmod", r.name))
        if isinstance(r, str):
            return fs(("lib", r))
        if isinstance(r, tuple) and r[0] == "const":
            e = r[1].consts[r[2]]
            if isinstance(e, ast.Constant):
                return self.constval(e.value)
            if isinstance(e, ast.Call):
                # a module-level generator object
                v = self.ev(e, S(), Fr(r[1], {}, {}, None))
                return frozenset(("rng", "module" if x[1] in ("fixed", "fresh") else x[1]) if x[0] == "rng" else x for x in v)
        return fs(UNK)

    def constval(self, v):
        if v is None:
            return fs(NONE)
        if v is True:
            return fs(TRUE)
        if v is False:
            return fs(FALSE)
        return fs(("const", v))

    def arith(self, *vs):
        if any(ENT in v for v in vs):
            return fs(ENT)
        if any(seeddep(v) for v in vs):
            return fs(("dep",))
        return fs(UNK)

    def ev(self, e, st, fr):
        ty = type(e)
        if ty is ast.Constant:
            return self.constval(e.value)
        if ty is ast.Name:
            return self.lookup(e.id, st, fr)
        if ty is ast.BinOp:
            a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
            return self.arith(a, b)
        if ty is ast.UnaryOp:
            v = self.ev(e.operand, st, fr)
            if isinstance(e.op, ast.Not):
                r = set()
                for x in v:
                    r |= {FALSE if b else TRUE for b in self.truth(x)}
                return frozenset(r)
            if isinstance(e.op, ast.USub) and len(v) == 1 and next(iter(v))[0] == "const":
                x = next(iter(v))[1]
                if isinstance(x, (int, float, complex)):
                    return fs(("const", -x))
            return self.arith(v)
        if ty is ast.BoolOp:
            res = frozenset()
            cur = st
            for k, sub in enumerate(e.values):
                if cur is not st:
                    self.absorb(st, cur)
                    cur = st
                v = self.ev(sub, cur, fr)
                if k == len(e.values) - 1:
                    res |= v
                    break
                stop = frozenset(x for x in v if (False in self.truth(x)) == isinstance(e.op, ast.And) or len(self.truth(x)) == 2)
                res |= stop
                go = [x for x in v if (True in self.truth(x)) == isinstance(e.op, ast.And) or len(self.truth(x)) == 2]
                if not go:
                    break
                a, b = self.branch(sub, st.copy(), fr)
                cur2 = a if isinstance(e.op, ast.And) else b
                if cur2 is not None:
                    cur = cur2
            if cur is not st:
                self.absorb(st, cur)
            return res
        if ty is ast.Compare:
            left = self.ev(e.left, st, fr)
            outs = {True}
            for op, c in zip(e.ops, e.comparators):
                right = self.ev(c, st, fr)
                r = set()
                for x in left:
                    for y in right:
                        r |= self.cmp(op, x, y)
                outs = ({True} if True in r and True in outs else set()) | ({False} if False in r or False in outs else set())
                left = right
            return frozenset(TRUE if o else FALSE for o in outs)
        if ty is ast.IfExp:
            a, b = self.branch(e.test, st, fr)
            va = self.ev(e.body, a, fr) if a is not None else frozenset()
            vb = self.ev(e.orelse, b, fr) if b is not None else frozenset()
            j = join(a, b)
            self.absorb(st, j, replace=True)
            return va | vb
        if ty in (ast.Tuple, ast.List):
            return fs(("tup", tuple(self.ev(x, st, fr) for x in e.elts)))
        if ty is ast.Call:
            return self.call(e, st, fr)
        if ty is ast.Attribute:
            b = self.ev(e.value, st, fr)
            out = set()
            for x in b:
                out |= self.attr(x, e.attr)
            return frozenset(out)
        if ty is ast.Subscript:
            v = self.ev(e.value, st, fr)
            i = self.ev(e.slice, st, fr)
            if len(v) == 1 and len(i) == 1:
                x, k = next(iter(v)), next(iter(i))
                if x[0] == "tup" and k[0] == "const" and isinstance(k[1], int) and -len(x[1]) <= k[1] < len(x[1]):
                    return x[1][k[1]]
            return self.arith(v)
        if ty in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            s = st.copy()
            for g in e.generators:
                self.ev(g.iter, s, fr)
                self.assign(g.target, fs(UNK), s, fr)
                for c in g.ifs:
                    self.ev(c, s, fr)
            for _ in range(2):
                if ty is ast.DictComp:
                    self.ev(e.key, s, fr)
                    self.ev(e.value, s, fr)
                else:
                    self.ev(e.elt, s, fr)
            st.np, st.py, st.touched = st.np | s.np if s.np != st.np else s.np, s.py | st.py if s.py != st.py else s.py, s.touched or st.touched
            return fs(UNK)
        if ty is ast.Lambda:
            k = f"<lambda {e.lineno}:{e.col_offset}>"
            fr.local[k] = (e, fr)
            return fs(("clo", k))
        if ty is ast.NamedExpr:
            v = self.ev(e.value, st, fr)
            st.env[e.target.id] = v
            return v
        if ty is ast.Starred:
            return self.ev(e.value, st, fr)
        if ty is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, st, fr)
            return fs(UNK)
        dep = False
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                dep = seeddep(self.ev(c, st, fr)) or dep
        return fs(("dep",)) if dep and ty is not ast.JoinedStr else fs(UNK)

    def absorb(self, st, s, replace=False):
        if s is None:
            return
        st.env, st.np, st.py, st.touched = s.env, s.np, s.py, s.touched

    def attr(self, x, name):
        k = x[0]
        if k == "lib":
            return {("lib", x[1] + "." + name)}
        if k == "pkgmod":
            return set(self.resolved(self.prog.resolve(self.prog.modules[x[1]], name)))
        if k == "rng":
            return {("rngm", x[1], name)}
        if k in ("seed", "dep"):
            return {("dep",)}
        return {("attr", name)} if k != "unk" else {("attr", name)}

    # ---------------------------------------------------------- calls
    def call(self, e, st, fr):
        self.sites += 1
        f = self.ev(e.func, st, fr)
        args, kw = [], {}
        for a in e.args:
            args.append(self.ev(a, st, fr))
        for k in e.keywords:
            kw[k.arg or "**"] = self.ev(k.value, st, fr)
        if isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            return self.isinstance(args[0], e.args[1])
        res = frozenset()
        base = st.copy() if len(f) > 1 else None
        acc = None
        for x in f:
            s = base.copy() if base is not None else st
            res |= self.apply(x, e, args, kw, s, fr)
            if base is not None:
                acc = join(acc, s)
        if acc is not None:
            self.absorb(st, acc)
        return res or fs(UNK)

    def isinstance(self, v, tn):
        names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(tn) if isinstance(n, (ast.Attribute, ast.Name))}
        r = set()
        for x in v:
            if x == NONE:
                r.add(FALSE if "NoneType" not in names else TRUE)
            elif x[0] == "seed":
                r.add(TRUE if names & {"int", "Integral", "Number", "Real", "integer_types"} else FALSE)
                if not names & {"int", "Integral", "Number", "Real"}:
                    r.add(TRUE)
            else:
                r |= {TRUE, FALSE}
        return frozenset(r)

    def apply(self, x, e, args, kw, st, fr):
        k = x[0]
        if k == "func":
            return self.call_package(x[1], e, args, kw, st, fr)
        if k == "clo":
            return self.call_closure(x[1], e, args, kw, st, fr)
        if k == "rngm":
            return self.rng_method(x[1], x[2], e, args, st, fr)
        if k == "lib":
            return self.call_lib(x[1], e, args, kw, st, fr)
        return self.arith(*(args + list(kw.values()))) if (args or kw) else fs(UNK)

    def bind(self, node, args, kw, st, fr, dfr):
        a = node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        for p, v in zip(ps, args):
            vals[p] = v
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in ps + [p.arg for p in a.kwonlyargs]:
            if p in kw:
                vals[p] = kw[p]
            elif p not in vals:
                vals[p] = self.ev(ds[p], S(), dfr) if p in ds else fs(UNK)
        for p in (a.vararg, a.kwarg):
            if p is not None:
                vals[p.arg] = fs(UNK)
        return vals

    def call_package(self, func, e, args, kw, st, fr):
        node = func.node
        if node in self.stack or len(self.stack) > MAXDEPTH:
            return fs(UNK)
        if any(isinstance(a, ast.Starred) for a in e.args) or "**" in kw:
            args, kw = [], {}
            vals = self.bind(node, [], {}, st, fr, Fr(func.module, {}, {}, func))
            vals = {p: fs(UNK) for p in vals}
        else:
            vals = self.bind(node, args, kw, st, fr, Fr(func.module, {}, {}, func))
        s = S(vals, st.np, st.py, st.touched)
        v, s2 = self.body(node, func.module, s, func)
        if s2 is not None:
            st.np, st.py, st.touched = s2.np, s2.py, s2.touched
        return v

    def call_closure(self, name, e, args, kw, st, fr):
        f2 = fr
        while f2 is not None and name not in f2.local:
            f2 = f2.parent
        if f2 is None:
            return fs(UNK)
        node, dfr = f2.local[name]
        if node in self.stack or len(self.stack) > MAXDEPTH:
            return fs(UNK)
        clo = dict(dfr.closure)
        clo.update(st.env)
        vals = self.bind(node, args, kw, st, fr, dfr)
        s = S(vals, st.np, st.py, st.touched)
        nf = Fr(dfr.module, dfr.imports, clo, dfr.func, dfr)
        if isinstance(node, ast.Lambda):
            self.stack.append(node)
            try:
                v = self.ev(node.body, s, nf)
            finally:
                self.stack.pop()
            s2 = s
        else:
            self.stack.append(node)
            out = Out()
            try:
                s3 = self.block(node.body, s, nf, out)
            finally:
                self.stack.pop()
            v, s2 = out.val | (fs(NONE) if s3 is not None else frozenset()), join(out.ret, s3)
        if s2 is not None:
            st.np, st.py, st.touched = s2.np, s2.py, s2.touched
        return v or fs(UNK)

    def event(self, kind, e, fr, msg, st, val=None):
        self.events.append(Event(kind, e, fr, msg, (st.np, st.py), val))

    def rng_kind(self, v):
        """kind of generator made from a seed argument"""
        ks = set()
        for x in v:
            if x == NONE:
                ks.add("none")
            elif x == ENT:
                ks.add("fresh")
            elif x[0] in ("seed", "dep"):
                ks.add("seeded")
            elif x[0] == "rng":
                ks.add(x[1])
            elif x[0] == "lib" and x[1] in ("numpy.random", "random"):
                ks.add("np" if x[1] == "numpy.random" else "py")
            elif x[0] in ("const", "true", "false"):
                ks.add("fixed")
            else:
                ks.add("unknown")
        return ks

    def draw(self, fam, e, fr, st):
        st.touched = True
        self.event("draw", e, fr, fam, st)

    def rng_method(self, kind, name, e, args, st, fr):
        if name in ("seed",):
            return fs(NONE)
        if name in ("get_state", "getstate", "bit_generator"):
            return fs(UNK)
        if kind == "np":
            return self.call_lib("numpy.random." + name, e, args, {}, st, fr)
        if kind == "py":
            return self.call_lib("random." + name, e, args, {}, st, fr)
        self.event("pdraw", e, fr, kind, st)
        return fs(UNK)

    def call_lib(self, d, e, args, kw, st, fr):
        parts = d.split(".")
        allv = args + list(kw.values())
        if d.startswith("numpy.random."):
            n = parts[2]
            if n == "mtrand" and len(parts) > 3:
                n = parts[-1]
            if n == "seed":
                v = args[0] if args else next(iter(kw.values()), fs(NONE))
                st.touched = True
                self.event("seed", e, fr, "np", st, v)
                st.np = self.seeded(v)
                return fs(NONE)
            if n == "set_state":
                st.touched = True
                self.event("setstate", e, fr, "np", st, args[0] if args else None)
                st.np = fs("unknown") if not (args and seeddep(args[0])) else fs("seeded")
                return fs(NONE)
            if n == "get_state":
                return fs(UNK)
            if n in ("default_rng", "RandomState"):
                v = args[0] if args else next(iter(kw.values()), fs(NONE))
                return frozenset(("rng", "fresh" if k == "none" else k) for k in self.rng_kind(v))
            if n in ("Generator", "PCG64", "MT19937", "Philox", "SFC64", "SeedSequence", "PCG64DXSM"):
                v = args[0] if args else next(iter(kw.values()), fs(NONE))
                return frozenset(("rng", "fresh" if k == "none" else k) for k in self.rng_kind(v))
            self.draw("np", e, fr, st)
            return fs(UNK)
        if parts[0] == "random" and len(parts) == 2:
            n = parts[1]
            if n == "seed":
                v = args[0] if args else next(iter(kw.values()), fs(NONE))
                st.touched = True
                self.event("seed", e, fr, "py", st, v)
                st.py = self.seeded(v)
                return fs(NONE)
            if n == "setstate":
                st.touched = True
                self.event("setstate", e, fr, "py", st)
                st.py = fs("unknown")
                return fs(NONE)
            if n == "getstate":
                return fs(UNK)
            if n == "Random":
                v = args[0] if args else fs(NONE)
                return frozenset(("rng", "fresh" if k == "none" else k) for k in self.rng_kind(v))
            if n == "SystemRandom":
                return fs(("rng", "fresh"))
            self.draw("py", e, fr, st)
            return fs(UNK)
        if d.startswith("scipy.stats.") and parts[-1] == "rvs" or d.endswith("ortho_group.rvs") or d.endswith("unitary_group.rvs"):
            rs = kw.get("random_state")
            if rs is None and "unitary_group" in d or rs is None and "ortho_group" in d:
                rs = args[2] if len(args) > 2 else None
            self.private_or(rs, "np", e, fr, st)
            return fs(UNK)
        if d.startswith("scipy.") and parts[-1] in ("unitary_group", "special_ortho_group", "ortho_group"):
            sd = kw.get("seed") or (args[1] if len(args) > 1 else None)
            return fs(("unk",)) if sd is None else frozenset(("rng", k) for k in self.rng_kind(sd))
        if parts[-1] == "check_random_state" and args:
            ks = self.rng_kind(args[0])
            return frozenset(("rng", "np" if k == "none" else k) for k in ks)
        if parts[0] == "networkx":
            n = parts[-1]
            if "random" in n or n in NX_NP:
                sd = kw.get("seed")
                if sd is None and n in NX_SEEDPOS and len(args) > NX_SEEDPOS[n]:
                    sd = args[NX_SEEDPOS[n]]
                self.private_or(sd, "np" if n in NX_NP else "py", e, fr, st)
            return fs(UNK)
        if parts[0] == "stim" and parts[-1] in ("random", "sample", "compile_sampler", "measure"):
            if "seed" not in kw:
                self.event("entropy", e, fr, "stim", st)
            return fs(UNK)
        if d in CLOCKS or d == "builtins.hash" and e.args and stringy(e.args[0]):
            return fs(ENT)
        if d in ENTROPY or parts[0] == "secrets":
            self.event("entropy", e, fr, d, st)
            return fs(UNK)
        return self.arith(*allv) if allv else fs(UNK)

    def seeded(self, v):
        out = set()
        for x in v:
            if x in (NONE, ENT):
                out.add("fresh")
            elif x[0] in ("seed", "dep"):
                out.add("seeded")
            elif x[0] in ("const", "true", "false"):
                out.add("fixed")
            else:
                out.add("unknown")
        return frozenset(out)

    def private_or(self, rs, fam, e, fr, st):
        """a library draw that uses the given generator/seed, or the shared one"""
        if rs is None:
            self.draw(fam, e, fr, st)
            return
        for k in self.rng_kind(rs):
            if k == "none":
                self.draw(fam, e, fr, st)
            elif k in ("np", "py"):
                self.draw(k, e, fr, st)
            else:
                self.event("pdraw", e, fr, k, st)


class Fr:
    def __init__(self, module, imports, closure, func, parent=None):
        self.module, self.imports, self.closure, self.func, self.parent = module, imports, closure, func, parent
        self.local = {}


# -------------------------------------------------------------- the analyses
def is_random(name):
    return "random" in name


EXEMPT = {"plot_graph_with_edge_weights", "plot_planar_embedding", "analyze_pdf", "print_custom"}
STIM = {"random_CHP_state"}


def where(ev):
    q = ev.func.func.qual if ev.func.func is not None else "<module>"
    return f"{ev.func.module.rel}:{ev.node.lineno} ({q})"


def label(ev):
    return ast.unparse(ev.node)[:80]


def memoised(func):
    for d in func.node.decorator_list:
        s = ast.unparse(d)
        if "cache" in s.lower() or "memo" in s.lower():
            return s
    return None


def publics(prog):
    out = {}
    for n, f in prog.public.items():
        if isinstance(f, Func):
            out.setdefault(f.node, (n, f))
    from . import specs
    for n in specs.PUBLIC:
        f = prog.find(n)
        if isinstance(f, Func):
            out.setdefault(f.node, (n, f))
    return sorted(out.values(), key=lambda p: p[0])


def case(prog, f, seed):
    I = Interp(prog)
    vals = {}
    ps = f.params() + [a.arg for a in f.node.args.kwonlyargs]
    for p in ps:
        vals[p] = fs(UNK)
    for p in (f.node.args.vararg, f.node.args.kwarg):
        if p is not None:
            vals[p.arg] = fs(UNK)
    if seed is not None:
        vals["seed"] = seed
    v, st = I.run(f, vals)
    return I, st


SEEDS = {"0": fs(("seed", "zero")), "positive": fs(("seed", "pos")), "negative": fs(("seed", "neg"))}


def reproducible(ctx, rep):
    """C01"""
    from .props import Finding
    rep.rules.append("random-generator typestate: with a seed given (0, positive, negative), every reachable draw comes from a generator seeded from "
                     "that seed within the same call")
    n = 0
    for name, f in publics(ctx.prog):
        ps = f.params() + [a.arg for a in f.node.args.kwonlyargs]
        if "seed" not in ps:
            continue
        n += 1
        rep.functions.add(name)
        bad = {}
        draws = 0
        for lab, sv in SEEDS.items():
            I, st = case(ctx.prog, f, sv)
            rep.functions |= I.funcs
            rep.undecided += I.undecided
            for ev in I.events:
                if ev.kind in ("draw", "pdraw", "entropy"):
                    draws += 1
                p = None
                if ev.kind == "draw":
                    s = ev.states[0] if ev.msg == "np" else ev.states[1]
                    g = "numpy's" if ev.msg == "np" else "Python's"
                    if "caller" in s:
                        p = f"draws from {g} shared generator, which this call may not have seeded (seed {lab})"
                    elif "fresh" in s:
                        p = f"draws from {g} generator after it was reseeded from entropy (seed {lab})"
                    elif "fixed" in s:
                        p = f"draws from {g} generator seeded with a constant instead of the given seed (seed {lab})"
                elif ev.kind == "pdraw":
                    if ev.msg in ("fresh", "fixed", "module"):
                        p = {"fresh": "draws from a private generator seeded from entropy", "fixed": "draws from a private generator with a constant seed",
                             "module": "draws from a generator shared between calls"}[ev.msg] + f" (seed {lab})"
                elif ev.kind == "entropy":
                    p = f"takes randomness from {ev.msg}, which the seed does not control (seed {lab})"
                if p:
                    bad.setdefault((where(ev), label(ev)), p)
            if st is not None and lab == "positive":
                pass
        rep.ob(not bad)
        c = memoised(f)
        if not draws:
            rep.broken.append(f"no draw found in {name}")
        rep.samples.append({"function": name, "where": f.where(), "draw_events": draws, "seed_cases": list(SEEDS)})
        for (w, l), p in bad.items():
            rep.findings.append(Finding("unseeded-draw", f"{name}: {l}", w, p))
    rep.extra["seeded_functions"] = n
    if n < 8:
        rep.broken.append(f"only {n} functions with a seed argument")


def neutral(ctx, rep):
    """C02"""
    from .props import Finding
    rep.rules.append("random-generator typestate: without a seed no reachable statement reseeds or replaces a shared generator or draws from a fixed or private "
                     "stream; functions that are not random generators do not touch the shared generators at all; nothing is seeded at import")
    k = 0
    for name, f in publics(ctx.prog):
        if name in EXEMPT:
            continue
        ps = f.params() + [a.arg for a in f.node.args.kwonlyargs]
        rnd = is_random(name)
        I, st = case(ctx.prog, f, fs(NONE) if "seed" in ps else None)
        rep.functions |= I.funcs
        rep.undecided += I.undecided
        k += 1
        bad = {}
        for ev in I.events:
            p = None
            if ev.kind in ("seed", "setstate"):
                p = "reseeds a shared generator although no seed was given" if rnd else "reseeds a shared random generator"
            elif ev.kind == "draw" and not rnd:
                p = "advances a shared random generator in a function that is not a random generator"
            elif ev.kind == "pdraw" and rnd:
                if ev.msg in ("fixed", "module"):
                    p = "an unseeded call draws from a fixed stream, so repeated calls are not independent of each other or of the shared generators"
                elif ev.msg == "fresh":
                    p = "an unseeded call ignores the shared generators the caller may have seeded"
            elif ev.kind == "entropy" and rnd and name not in STIM:
                p = f"an unseeded call takes randomness from {ev.msg} instead of the shared generators"
            if p:
                bad.setdefault((where(ev), label(ev)), p)
        if rnd and memoised(f):
            bad[(f.where(), memoised(f))] = "a random generator's results are cached, so repeated calls repeat the first draw"
        for g in {x for x in (ctx.prog.find(q.split(".")[-1]) for q in I.funcs) if isinstance(x, Func)}:
            if memoised(g) and any(ev.func.func is g for ev in I.events if ev.kind in ("draw", "pdraw")):
                bad[(g.where(), memoised(g))] = "cached helper contains random draws"
        rep.ob(not bad)
        if rnd:
            rep.samples.append({"function": name, "where": f.where(), "events": len(I.events)})
        for (w, l), p in bad.items():
            rep.findings.append(Finding("shared-generator", f"{name}: {l}", w, p))
    for m in ctx.prog.own():
        I = Interp(ctx.prog)
        fr = Fr(m, {}, {}, None)
        out = Out()
        I.block([s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))], S(), fr, out)
        bad = [ev for ev in I.events if ev.kind in ("seed", "setstate", "draw")]
        rep.ob(not bad)
        for ev in bad:
            rep.findings.append(Finding("shared-generator", f"import of {m.name}: {label(ev)}", f"{m.rel}:{ev.node.lineno}",
                                        "importing the package seeds or advances a shared random generator"))
    rep.extra["functions_checked"] = k
    if k < 50:
        rep.broken.append(f"only {k} public functions")


def validated_first(names):
    """invalid sizes are rejected before the shared generators are touched"""
    def run(ctx, rep):
        from .props import Finding
        rep.rules.append("random-generator typestate at every explicit TypeError/ValueError of the function: no seeding or draw precedes it")
        pubs = {n for n, _ in publics(ctx.prog)}
        for n in names:
            f = ctx.prog.find(n)
            if not isinstance(f, Func):
                rep.broken.append(f"public function {n} not found")
                continue
            ps = f.params() + [a.arg for a in f.node.args.kwonlyargs]
            bad = {}
            cnt = 0
            for lab, sv in list(SEEDS.items())[:2] + [("None", fs(NONE))]:
                I, st = case(ctx.prog, f, sv if "seed" in ps else None)
                rep.functions |= I.funcs
                for node, s, fr, stack in I.raises:
                    if any(q is not f.node and getattr(q, 'name', None) in pubs for q in stack):
                        continue        # another public function rejecting its own input
                    nm = exc_name(node)
                    if nm in ("TypeError", "ValueError"):
                        cnt += 1
                        if s.touched:
                            bad[(f"{fr.module.rel}:{node.lineno}", ast.unparse(node)[:80])] = "raised after the shared generator was seeded or advanced"
                if "seed" not in ps:
                    break
            rep.ob(not bad)
            rep.samples.append({"function": n, "raise_sites": cnt})
            for (w, l), p in bad.items():
                rep.findings.append(Finding("late-validation", f"{n}: {l}", w, p))
    return run


def exc_name(node):
    e = node.exc
    if isinstance(e, ast.Call):
        e = e.func
    return e.id if isinstance(e, ast.Name) else (e.attr if isinstance(e, ast.Attribute) else None)
