"""Node labels are opaque: label typestate and relabelled instances.

Typestate.  Every function reachable from the graph entry points is interpreted
over tags that say what is known of a graph's node labels: `raw` (any distinct
hashable objects), `int` (integers, but not positions), `pos` (the positions
0..n-1 in node order).  The tags follow labels through containers, calls and
relabelling.  A raw or int label used as a matrix or list position, a raw label
ordered, compared or used in arithmetic, and a position used as a raw label are
violations.

Instances.  The matching functions are summarised once; the summary is evaluated
on pairs of graphs of the same structure and weights with other labels or another
insertion order (package functions stand for their contracts).  Different counts
are violations.
"""
import ast
import itertools
from . import compare, specs, refute, graphs
from . import scalar as S
from . import terms as t
from .flags import MUTATORS
from .front import Func, Module, import_map

ROOTS = ("pfo_algorithm", "count_perfect_matchings", "count_perfect_matchings_planar", "find_perfect_matchings_brute")
RAW, INT, POS, UNK = "raw", "int", "pos", "unknown"


class V:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def key(self):
        return (self.k, kk(self.a), kk(self.b))

    def __repr__(self):
        return f"{self.k}({'' if self.a is None else self.a}{'' if self.b is None else ', ' + repr(self.b)})"


class View(V):
    """a graph's nodes or edges view: iterates as a container, is subscripted by label"""
    __slots__ = ()


def kk(x):
    if isinstance(x, V):
        return x.key()
    if isinstance(x, (list, tuple)):
        return tuple(kk(y) for y in x)
    if isinstance(x, frozenset):
        return tuple(sorted(x))
    return x if isinstance(x, (str, bool, int, type(None))) else id(x)


OTHER, UNKV, INTV = V("other"), V("unk"), V("intv")
# graph(tags) lab(tags) con(elem, in node order) tup([..]) dict(key, val) mat(by label) idx(node order) func(Func) deg(tags)


def graph(tags):
    return V("graph", frozenset(tags))


def lab(tags):
    return V("lab", frozenset(tags))


def con(e, order=False):
    return V("con", e, order)


def join(a, b):
    if a is None or a is b:
        return b
    if b is None:
        return a
    if a.k == b.k:
        if a.k in ("graph", "lab", "deg"):
            return a if a.a == b.a and a.b == b.b else V(a.k, a.a | b.a, a.b if a.b == b.b else None)
        if a.k == "con":
            return con(join(a.a, b.a), a.b is True and b.b is True)
        if a.k == "tup":
            if len(a.a) == len(b.a):
                return V("tup", [join(x, y) for x, y in zip(a.a, b.a)])
            return con(join(elem(a), elem(b)))
        if a.k == "dict":
            return V("dict", join(a.a, b.a), join(a.b, b.b))
        if a.k in ("mat", "idx"):
            return a if a.a == b.a else V(a.k, False)
        if a.k == "func":
            return a if a.a is b.a else UNKV
        return a
    ks = {a.k, b.k}
    if ks == {"con", "tup"}:
        return con(join(elem(a), elem(b)))
    if ks <= {"other", "idx", "intv"}:
        return OTHER if "other" in ks else V("idx", False)
    if ks & {"other", "intv", "idx"} and "unk" not in ks:          # None or a number instead of the object: the object is what can go wrong
        return a if b.k in ("other", "intv", "idx") else b
    return UNKV


def elem(v):
    """value obtained by iterating"""
    if v.k == "graph":
        return lab(v.a)
    if v.k == "con":
        return v.a if v.a is not None else OTHER
    if v.k == "tup":
        r = None
        for x in v.a:
            r = join(r, x)
        return r or OTHER
    if v.k == "dict":
        return v.a or OTHER
    if v.k == "deg":
        return V("tup", [lab(v.a), OTHER])
    if v.k == "mat":
        return V("mat", v.a)
    return OTHER if v.k == "other" else UNKV


def labels_in(v, depth=4):
    """tags of the labels an ordering of the value would compare"""
    if v is None or depth < 0:
        return frozenset()
    if v.k == "lab":
        return v.a
    if v.k == "con":
        return labels_in(v.a, depth - 1)
    if v.k == "tup":
        r = frozenset()
        for x in v.a:
            r |= labels_in(x, depth - 1)
        return r
    if v.k == "unk":
        return frozenset((UNK,))
    return frozenset()


class Env(dict):
    def copy(self):
        return Env(self)


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = Env()
    for k in set(a) | set(b):
        out[k] = join(a.get(k), b.get(k))
    return out


TRANSPARENT_TESTS = {"len", "nx.is_planar", "nx.is_connected", "nx.is_tree", "nx.is_forest", "nx.is_directed", "nx.check_planarity", "nx.number_of_nodes", "nx.number_of_edges", "nx.is_empty", "isinstance", "hasattr",
                     "nx.is_frozen", "nx.number_connected_components", "nx.is_bipartite", "nx.is_weighted", "nx.is_negatively_weighted", "nx.is_eulerian", "bool", "callable", "type"}
SAMEGRAPH = {"nx.maximum_spanning_tree", "nx.minimum_spanning_tree", "nx.bfs_tree", "nx.dfs_tree", "nx.Graph", "nx.DiGraph", "nx.MultiGraph", "nx.subgraph", "nx.induced_subgraph", "nx.freeze", "nx.complement",
             "copy.copy", "copy.deepcopy", "nx.k_core", "nx.to_undirected", "nx.to_directed", "nx.line_graph", "nx.create_empty_copy", "nx.edge_subgraph", "nx.PlanarEmbedding", "nx.minimum_spanning_arborescence"}
PLAIN = {"len", "sum", "any", "all", "print", "isinstance", "hash", "str", "repr", "format", "id", "bool", "type", "round", "callable", "hasattr", "math.prod", "math.sqrt", "input", "issubclass", "math.log", "math.comb"}
MAKERS = {"list", "tuple", "set", "frozenset", "iter", "reversed", "collections.deque", "np.unique"}


def displays(f, memo={}):
    """a function that returns nothing and changes none of its arguments"""
    if f.node not in memo:
        ps = set(f.params())
        memo[f.node] = not any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)
                               or isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store)
                               or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ps
                               and n.func.attr in MUTATORS or isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
    return memo[f.node]


class Labels:
    def __init__(self, prog):
        self.prog = prog
        self.memo, self.busy = {}, []
        self.bad, self.unsure, self.sites, self.ok = {}, {}, set(), set()
        self.funcs = set()

    # ---------------------------------------------------------------- sinks
    def sink(self, node, tags, what, bad=(RAW, INT)):
        f = self.busy[-1][0]
        if any(displays(x[0]) for x in self.busy):
            return
        k = (f.module.rel, node.lineno, node.col_offset, what)
        self.sites.add(k)
        wrong = [x for x in bad if x in tags]
        if wrong:
            self.bad.setdefault(k, (f, "node label" + (" (an integer that is not a position)" if RAW not in tags else "") + " " + what, " <- ".join(x[0].qual for x in reversed(self.busy))))
        elif UNK in tags:
            self.unsure[k] = (f, what)

    # ---------------------------------------------------------------- functions
    def call(self, f, args, kws, env0=None):
        ps = f.params()
        env = Env(env0 or {})
        ds = f.defaults()
        for p in ps:
            env[p] = None
        for p, v in zip(ps, args):
            env[p] = v
        for k, v in kws.items():
            if k in ps or k in ds:
                env[k] = v
        for p in list(ds):
            if env.get(p) is None:
                env[p] = OTHER if not isinstance(ds[p], ast.Constant) or not isinstance(ds[p].value, int) or isinstance(ds[p].value, bool) else INTV
        for p in ps:
            if env[p] is None:
                env[p] = UNKV
        key = (id(f.node), tuple((p, env[p].key()) for p in ps))
        if not env0 and key in self.memo:
            return self.memo[key]
        if any(g is f for g, *_ in self.busy) and any(k == key for _, k, *_ in self.busy) or len(self.busy) > 12:
            return OTHER
        self.funcs.add(f.qual)
        saved = self.__dict__.get("ret"), self.__dict__.get("imports")
        self.busy.append((f, key))
        self.ret = None
        self.imports = import_map([n for n in ast.walk(f.node) if isinstance(n, (ast.Import, ast.ImportFrom))], self.prog.pkg, f.module.name)
        try:
            self.block(f.node.body, env)
            r = self.ret or OTHER
        finally:
            self.busy.pop()
            self.ret, self.imports = saved
        if not env0:
            self.memo[key] = r
        return r

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        """environment after the block, None when it does not fall through"""
        for s in body:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for tg in s.targets:
                self.bind(tg, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(ast.copy_location(ast.BinOp(left=load(s.target), op=s.op, right=s.value), s), env)
            self.bind(s.target, v, env)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else OTHER
            self.ret = join(self.ret, v)
            return None
        elif isinstance(s, ast.Raise):
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            e1, e2 = self.split(s.test, env)
            return merge(self.block(s.body, e1), self.block(s.orelse, e2))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            cur = env
            for _ in range(3):
                e = cur.copy()
                self.bind(s.target, elem(it), e)
                cur = merge(cur, self.block(s.body, e))
            return self.block(s.orelse, cur)
        elif isinstance(s, ast.While):
            cur = env
            for _ in range(3):
                self.ev(s.test, cur)
                cur = merge(cur, self.block(s.body, cur.copy()))
            return self.block(s.orelse, cur)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            b = self.block(s.body, env.copy())
            if b is not None:
                b = self.block(s.orelse, b)
            for h in s.handlers:
                b = merge(b, self.block(h.body, env.copy()))
            if s.finalbody:
                e = self.block(s.finalbody, b.copy() if b is not None else env.copy())
                b = e if b is not None else None
            return b
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, (ast.FunctionDef,)):
            env[s.name] = V("func", Func(self.busy[-1][0].module, s, self.busy[-1][0].qual + "." + s.name), True)
        elif isinstance(s, (ast.Break, ast.Continue)):
            return env                                      # the loop joins anyway
        elif isinstance(s, ast.Delete):
            pass
        return env

    def bind(self, tg, v, env):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            xs = v.a if v.k == "tup" and len(v.a) == len(tg.elts) and not any(isinstance(x, ast.Starred) for x in tg.elts) else None
            for i, x in enumerate(tg.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, con(elem(v)), env)
                else:
                    self.bind(x, xs[i] if xs else elem(v), env)
        elif isinstance(tg, ast.Subscript):
            b, i = self.ev(tg.value, env), self.ev(tg.slice, env)
            self.index(tg, b, i)
            if isinstance(tg.value, ast.Name):
                n = tg.value.id
                if b.k == "dict":
                    env[n] = V("dict", join(b.a, i), join(b.b, v))
                elif b.k == "con":
                    env[n] = con(join(b.a, v))

    def split(self, test, env):
        """environments for the two outcomes of a test on the labels of a graph"""
        pol = True
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, pol = test.operand, not pol
        hit = self.classify(test, env)
        e1, e2 = env.copy(), env.copy()
        if hit:
            name, tag, sense = hit
            yes, no = (e1, e2) if pol == sense else (e2, e1)
            g = env[name]
            if tag == UNK:
                for e in (e1, e2):
                    e[name] = graph(UNK if x == RAW else x for x in g.a)
            else:
                yes[name] = graph(tag if x == RAW or tag == POS else x for x in g.a)
        return e1, e2

    def classify(self, test, env):
        names = [n.id for n in ast.walk(test) if isinstance(n, ast.Name) and n.id in env and env[n.id] is not None and env[n.id].k == "graph" and RAW in env[n.id].a]
        if not names:
            return None
        name = names[0]
        src = ast.unparse(test)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.NotEq)):
            sense = isinstance(test.ops[0], ast.Eq)
            ls, rs = ast.unparse(test.left), ast.unparse(test.comparators[0])
            if "range(" in ls:
                ls, rs = rs, ls
            if "range(" in rs and name in ls:
                if ls.startswith(("list(", "tuple(", "[*")) and rs.startswith(("list(", "tuple(", "[*")):
                    return name, POS, sense
                if ls.startswith(("set(", "sorted(", "frozenset(")):
                    return name, INT, sense
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "all" and test.args and isinstance(test.args[0], (ast.GeneratorExp, ast.ListComp)):
            g = test.args[0]
            it, el = ast.unparse(g.generators[0].iter), g.elt
            if "enumerate(" in it and isinstance(el, ast.Compare) and isinstance(el.ops[0], ast.Eq):
                return name, POS, True
            if isinstance(el, ast.Call) and isinstance(el.func, ast.Name) and el.func.id == "isinstance":
                return name, INT if "int" in ast.unparse(el.args[1]) else RAW, True
        # tests that say nothing about the labels
        ok = True
        par = {c: p for p in ast.walk(test) for c in ast.iter_child_nodes(p)}
        for n in ast.walk(test):
            if isinstance(n, ast.Name) and n.id == name:
                p = par.get(n)
                if isinstance(p, ast.Call) and n in p.args and self.dotted(p.func) in TRANSPARENT_TESTS:
                    continue
                if isinstance(p, ast.Attribute) and p.attr in ("number_of_nodes", "number_of_edges", "order", "size", "is_directed", "is_multigraph", "nodes", "edges"):
                    q = par.get(p)
                    if p.attr in ("nodes", "edges") and not (isinstance(q, ast.Call) and (self.dotted(q.func) == "len" or q.func is p and isinstance(par.get(q), ast.Call) and self.dotted(par[q].func) == "len")):
                        ok = False
                    continue
                if p is None or isinstance(p, (ast.UnaryOp, ast.BoolOp)) or isinstance(p, ast.Compare) and any(isinstance(c, ast.Constant) and c.value is None for c in p.comparators):
                    continue
                ok = False
        return None if ok else (name, UNK, True)

    # ---------------------------------------------------------------- expressions
    def dotted(self, e):
        """name of an external function, with the usual aliases"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        head = e.id
        m = self.busy[-1][0].module
        if head in (self.imports or {}):
            head = self.imports[head]
        elif head in m.imports and isinstance(m.imports[head], str):
            head = m.imports[head]
        d = ".".join([head] + parts[::-1])
        for a, b in (("networkx.", "nx."), ("numpy.", "np."), ("builtins.", "")):
            if d.startswith(a):
                d = b + d[len(a):]
        return d

    def resolve(self, e, env):
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            if v is not None:
                return v
            m = self.busy[-1][0].module
            r = self.prog.resolve(m, e.id)
            if r is None and e.id in (self.imports or {}):
                r = self.prog.resolve_dotted(self.imports[e.id])
            if isinstance(r, Func):
                return V("func", r)
        elif isinstance(e, ast.Attribute):
            d = self.dotted(e)
            base = e
            while isinstance(base, ast.Attribute):
                base = base.value
            if d and isinstance(base, ast.Name) and env.get(base.id) is None:
                r = self.prog.resolve_dotted(d)
                if isinstance(r, Func):
                    return V("func", r)
        return None

    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m:
            return m(e, env) or UNKV
        r = None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return UNKV

    def e_Constant(self, e, env):
        return INTV if isinstance(e.value, int) and not isinstance(e.value, bool) else OTHER

    def e_JoinedStr(self, e, env):
        return OTHER

    def e_Name(self, e, env):
        v = self.resolve(e, env)
        return v if v is not None else OTHER

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.bind(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        return V("func", None)

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        e1, e2 = self.split(e.test, env)
        return join(self.ev(e.body, e1), self.ev(e.orelse, e2))

    def e_BoolOp(self, e, env):
        r = None
        cur = env
        for x in e.values:
            r = join(r, self.ev(x, cur))
            a, b = self.split(x, cur)
            cur = a if isinstance(e.op, ast.And) else b
        return r

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = None
            for x in e.elts:
                r = join(r, elem(self.ev(x.value, env)) if isinstance(x, ast.Starred) else self.ev(x, env))
            order = len(e.elts) == 1 and isinstance(self.order(e.elts[0].value, env), bool) and self.order(e.elts[0].value, env)
            return con(r, order)
        return V("tup", [self.ev(x, env) for x in e.elts])

    e_List = e_Tuple

    def order(self, e, env):
        v = self.ev(e, env)
        return v.k == "graph" or v.k == "con" and v.b is True

    def e_Set(self, e, env):
        r = None
        for x in e.elts:
            r = join(r, self.ev(x, env))
        return con(r)

    def e_Dict(self, e, env):
        k = v = None
        for a, b in zip(e.keys, e.values):
            if a is not None:
                k = join(k, self.ev(a, env))
            v = join(v, self.ev(b, env))
        return V("dict", k, v)

    def comp(self, e, env):
        env = env.copy()
        order = False
        for i, g in enumerate(e.generators):
            it = self.ev(g.iter, env)
            order = i == 0 and len(e.generators) == 1 and not g.ifs and (it.k == "graph" or it.k == "con" and it.b is True)
            self.bind(g.target, elem(it), env)
            for c in g.ifs:
                self.ev(c, env)
                env, _ = self.split(c, env)
        return env, order

    def e_ListComp(self, e, env):
        env, o = self.comp(e, env)
        return con(self.ev(e.elt, env), o)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        env, o = self.comp(e, env)
        return con(self.ev(e.elt, env))

    def e_DictComp(self, e, env):
        env, o = self.comp(e, env)
        return V("dict", self.ev(e.key, env), self.ev(e.value, env))

    def e_Compare(self, e, env):
        xs = [self.ev(e.left, env)] + [self.ev(c, env) for c in e.comparators]
        for op, a, b in zip(e.ops, xs, xs[1:]):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (a.k in ("lab", "tup") or b.k in ("lab", "tup")):
                self.sink(e, labels_in(a) | labels_in(b), "ordered by <, >", (RAW,))
        return OTHER

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if v.k == "lab" and not isinstance(e.op, ast.Not):
            self.sink(e, v.a, "used in arithmetic", (RAW,))
        return v if v.k in ("mat", "intv") else OTHER

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return OTHER
        for x in (a, b):
            if x.k == "lab":
                self.sink(e, x.a, "used in arithmetic", (RAW,))
        for x, y in ((a, b), (b, a)):
            if x.k == "mat":
                return x
        if a.k == "con" and b.k in ("con", "tup") or a.k == "tup" and b.k == "con":
            if isinstance(e.op, (ast.Add, ast.BitOr, ast.BitXor)):
                return con(join(elem(a), elem(b)))
            return con(elem(a))
        if a.k == "tup" and b.k == "tup" and isinstance(e.op, ast.Add):
            return V("tup", a.a + b.a)
        if a.k in ("con", "tup"):
            return con(elem(a))
        if a.k == "idx" or b.k == "idx":
            return V("idx", False)
        if a.k == "intv" and b.k == "intv":
            return INTV
        if "unk" in (a.k, b.k):
            return UNKV
        return OTHER

    def index(self, node, b, i):
        """effects and value of b[i]"""
        parts = i.a if i.k == "tup" else [i]
        if b.k == "graph":
            self.aslabel(node, b.a, i)
            return V("dict", lab(b.a), V("dict", OTHER, lab(b.a) if b.b == "emb" else OTHER))
        if isinstance(b, View):
            for p in parts:
                self.aslabel(node, labels_in(b), p)
            return V("dict", OTHER, OTHER)
        if b.k == "dict":
            return b.b or OTHER
        if b.k in ("con", "tup", "mat"):
            for p in parts:
                q = elem(p) if p.k in ("con",) else p
                if q.k == "lab":
                    self.sink(node, q.a, "used as a matrix or list position", (RAW,) if b.k == "mat" and b.a else (RAW, INT))
                elif q.k == "unk":
                    self.sink(node, frozenset((UNK,)), "used as a matrix or list position")
                elif b.k != "con" or q.k in ("idx", "intv"):
                    self.sink(node, frozenset(), "used as a matrix or list position")
        if b.k == "tup":
            return elem(b)
        if b.k == "con":
            return elem(b)
        if b.k == "mat":
            return b
        return OTHER if b.k == "other" else UNKV

    def aslabel(self, node, tags, v):
        """a value used as the label of a graph with these tags"""
        f = self.busy[-1][0]
        if v.k in ("idx", "intv") and RAW in tags and not any(displays(x[0]) for x in self.busy):
            self.bad.setdefault((f.module.rel, node.lineno, node.col_offset, "aslabel"), (f, "a position is used as a node label", " <- ".join(x[0].qual for x in reversed(self.busy))))

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(x, env)
            if b.k in ("con", "tup"):
                return con(elem(b), b.k == "con" and b.b is True and e.slice.lower is None and e.slice.upper is None and e.slice.step is None)
            return b if b.k == "mat" else UNKV if b.k == "unk" else OTHER
        i = self.ev(e.slice, env)
        if b.k == "tup" and isinstance(e.slice, (ast.Constant, ast.UnaryOp)):
            try:
                return b.a[ast.literal_eval(e.slice)]
            except (IndexError, ValueError, TypeError):
                return UNKV
        return self.index(e, b, i)

    def e_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                v = self.ev(x, env)
                if v.k == "lab":
                    self.sink(e, v.a, "used as a matrix or list position")
        return OTHER

    def e_Attribute(self, e, env):
        r = self.resolve(e, env)
        if r is not None:
            return r
        b = self.ev(e.value, env)
        if b.k == "graph":
            if e.attr in ("nodes", "_node"):
                return View("con", lab(b.a), True)
            if e.attr == "edges":
                return View("con", V("tup", [lab(b.a), lab(b.a)]), False)
            if e.attr in ("adj", "_adj"):
                return V("dict", lab(b.a), V("dict", lab(b.a), OTHER))
            if e.attr in ("degree", "in_degree", "out_degree"):
                return V("deg", b.a)
            return UNKV
        if b.k == "mat":
            return V("mat", b.a) if e.attr not in ("shape", "size", "ndim", "nnz", "dtype") else OTHER
        return OTHER if b.k in ("other", "intv", "idx") else UNKV

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                args += v.a if v.k == "tup" else [elem(v), elem(v)]
            else:
                args.append(self.ev(a, env))
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        fv = self.resolve(e.func, env)
        if fv is not None and fv.k == "func":
            if fv.a is None:
                return UNKV
            return self.call(fv.a, args, kws, env if fv.b else None)
        if isinstance(e.func, ast.Attribute):
            base = e.func
            while isinstance(base, ast.Attribute):
                base = base.value
            local = not isinstance(base, ast.Name) or env.get(base.id) is not None or self.dotted(base) == base.id and base.id not in self.busy[-1][0].module.imports and base.id not in (self.imports or {})
            if local:
                b = self.ev(e.func.value, env)
                return self.method(e, b, e.func.attr, args, kws, env)
        d = self.dotted(e.func)
        if d is None:
            self.ev(e.func, env)
            return UNKV
        return self.external(e, d, args, kws, env)

    def method(self, e, b, m, args, kws, env):
        name = e.func.value.id if isinstance(e.func.value, ast.Name) else None
        if b.k == "graph":
            L = lab(b.a)
            if m in ("nodes",):
                data = [k for k in e.keywords if not (isinstance(k.value, ast.Constant) and k.value.value is False)] or e.args
                return con(V("tup", [L, OTHER]) if data else L, not data)
            if m == "edges":
                data = [k for k in e.keywords if k.arg in ("data", "keys") and not (isinstance(k.value, ast.Constant) and k.value.value is False)]
                return con(V("tup", [L, L, OTHER] if data else [L, L]))
            if m in ("neighbors", "successors", "predecessors", "neighbors_cw_order"):
                for a in args:
                    self.aslabel(e, b.a, a)
                return con(L)
            if m == "adjacency":
                return con(V("tup", [L, V("dict", L, OTHER)]))
            if m in ("copy", "subgraph", "to_undirected", "to_directed", "edge_subgraph", "reverse"):
                if m == "subgraph" and args:
                    self.aslabel(e, b.a, elem(args[0]))
                return b
            if m in ("has_edge", "has_node", "get_edge_data", "degree", "number_of_edges"):
                for a in args[:2]:
                    self.aslabel(e, b.a, a)
                if m == "degree" and not args:
                    return V("deg", b.a)
                return OTHER
            if m in ("add_node", "add_edge"):
                tags = frozenset()
                for a in args[:2]:
                    tags |= a.a if a.k == "lab" else frozenset((UNK,)) if a.k == "unk" else frozenset()
                if name:
                    env[name] = graph(b.a | tags)
                return OTHER
            if m in ("add_nodes_from", "add_edges_from", "add_weighted_edges_from"):
                if name and args:
                    env[name] = graph(b.a | frozenset(x for x in labels_in(args[0]) if x != UNK))
                return OTHER
            if m == "traverse_face":
                return con(L)
            return OTHER if m.startswith(("remove", "number", "is_", "size", "order", "clear", "update", "set_", "check")) else UNKV
        if b.k in ("con", "tup", "dict"):
            x = elem(b)
            if m in ("append", "add", "appendleft", "insert"):
                if name and args:
                    env[name] = con(join(b.a if b.k == "con" else x, args[-1])) if b.k != "tup" or b.a else con(args[-1])
                return OTHER
            if m in ("extend", "update", "extendleft") and b.k != "dict":
                if name and args:
                    env[name] = con(join(b.a if b.k == "con" else x if b.a else None, elem(args[0])))
                return OTHER
            if m == "sort":
                if "key" not in kws:
                    self.sink(e, labels_in(x), "ordered by sort", (RAW,))
                return OTHER
            if isinstance(b, View) and m in ("data", "get", "items", "values", "keys"):
                return {"data": con(V("tup", (x.a if x.k == "tup" else [x]) + [OTHER])), "items": con(V("tup", [x, V("dict", OTHER, OTHER)])), "keys": con(x),
                        "values": con(V("dict", OTHER, OTHER)), "get": V("dict", OTHER, OTHER)}[m]
            if m == "get":
                return join(b.b, args[1] if len(args) > 1 else OTHER) if b.k == "dict" else OTHER
            if m in ("pop", "popleft"):
                return b.b if b.k == "dict" else x
            if m in ("items",):
                return con(V("tup", [b.a or OTHER, b.b or OTHER])) if b.k == "dict" else UNKV
            if m == "keys":
                return con(b.a or OTHER)
            if m == "values":
                return con(b.b or OTHER) if b.k == "dict" else UNKV
            if m in ("index", "count", "issubset", "issuperset", "isdisjoint", "discard", "remove", "clear", "reverse"):
                return OTHER
            if m in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                r = x
                for a in args:
                    r = join(r, elem(a))
                return con(r) if b.k != "dict" else b
            if m == "setdefault" and b.k == "dict":
                if name:
                    env[name] = V("dict", join(b.a, args[0]), join(b.b, args[1] if len(args) > 1 else OTHER))
                return join(b.b, args[1] if len(args) > 1 else OTHER)
            return UNKV
        if b.k == "deg":
            return OTHER
        if b.k == "mat":
            return b if m in ("toarray", "todense", "copy", "astype", "conj", "transpose", "tolil", "tocsr", "tocsc", "tocoo", "A", "tolist", "dot", "reshape") else OTHER
        return OTHER if b.k in ("other", "intv", "idx") else UNKV

    def external(self, e, d, args, kws, env):
        a0 = args[0] if args else None
        if d in ("min", "max"):
            if "key" not in kws:
                tags = frozenset()
                for a in args:
                    tags |= labels_in(elem(a) if len(args) == 1 else a)
                self.sink(e, tags, "ordered by " + d, (RAW,))
            r = None
            for a in args:
                r = join(r, elem(a) if len(args) == 1 else a)
            return r
        if d in ("sorted",):
            if "key" not in kws and a0 is not None:
                self.sink(e, labels_in(elem(a0)), "ordered by sorted", (RAW,))
            x = elem(a0)
            return con(x, (a0.k == "graph" or a0.k == "con" and a0.b is True) and x.k == "lab" and x.a == frozenset((POS,)) and not kws)
        if d in MAKERS:
            if a0 is None:
                return con(None)
            if d in ("list", "tuple") and a0.k == "tup":
                return a0
            o = (a0.k == "graph" or a0.k == "con" and a0.b is True) and d in ("list", "tuple", "iter")
            return con(elem(a0), o)
        if d == "enumerate":
            o = a0.k == "graph" or a0.k == "con" and a0.b is True
            start = len(args) > 1 or kws
            return con(V("tup", [V("idx", bool(o and not start)), elem(a0)]))
        if d in ("zip",):
            o = any(a.k == "graph" or a.k == "con" and a.b is True for a in args)
            return con(V("tup", [V("idx", o) if a.k == "con" and a.b == "range" else elem(a) for a in args]))
        if d in ("range", "itertools.count"):
            for a in args:
                if a.k == "lab":
                    self.sink(e, a.a, "used as a number", (RAW,))
            return V("con", V("idx", False), "range" if len(args) == (1 if d == "range" else 0) else False)
        if d in ("int", "float", "abs", "complex", "divmod", "pow", "operator.index"):
            if a0 is not None and a0.k == "lab":
                self.sink(e, a0.a, "used as a number", (RAW,))
            return OTHER if a0 is None or a0.k != "unk" else UNKV
        if d in PLAIN:
            return OTHER
        if d == "next":
            return elem(a0) if a0 is not None else UNKV
        if d == "dict":
            if a0 is None:
                return V("dict")
            if a0.k in ("dict",):
                return a0
            x = elem(a0)
            if x.k == "tup" and len(x.a) == 2:
                return V("dict", x.a[0], x.a[1])
            return UNKV
        if d in ("map", "filter"):
            if d == "filter" and len(args) == 2:
                return con(elem(args[1]))
            if len(args) == 2 and e.args:
                n = self.dotted(e.args[0])
                if n in ("list", "tuple", "set", "frozenset", "sorted"):
                    return con(self.external(e, n, [elem(args[1])], {}, env))
                if n in ("len", "str", "repr"):
                    return con(OTHER)
            return UNKV
        if d in ("itertools.combinations", "itertools.permutations", "itertools.combinations_with_replacement"):
            return con(con(elem(a0))) if a0 is not None else UNKV
        if d == "itertools.product":
            r = None
            for a in args:
                r = join(r, elem(a))
            return con(con(r)) if "repeat" in kws else con(V("tup", [elem(a) for a in args]))
        if d == "itertools.chain":
            r = None
            for a in args:
                r = join(r, elem(a))
            return con(r)
        if d == "itertools.chain.from_iterable":
            return con(elem(elem(a0)))
        if d.startswith("nx."):
            return self.networkx(e, d, args, kws, env)
        if d.startswith("np."):
            n = d[3:]
            if n in ("ix_",):
                return V("tup", args)
            if n in ("zeros", "ones", "empty", "eye", "zeros_like", "full", "identity", "ones_like", "triu", "tril"):
                return V("mat", a0.a if a0 is not None and a0.k == "mat" else False)
            for a in args:
                if a.k == "mat":
                    return a if n not in ("allclose", "sum", "any", "all", "shape", "trace", "size", "array_equal", "linalg.det") else OTHER
            if n in ("array", "asarray"):
                if a0 is not None and a0.k in ("con", "tup"):
                    return con(elem(a0))
            if n in ("argsort", "argmin", "argmax", "sort", "min", "max", "amin", "amax"):
                if a0 is not None and a0.k in ("con", "tup"):
                    self.sink(e, labels_in(elem(a0)), "ordered by " + n, (RAW,))
                    return con(elem(a0)) if n == "sort" else OTHER
            return OTHER if not any(a.k == "unk" for a in args) else UNKV
        if any(a is not None and a.k == "graph" for a in args):
            if d.endswith("triangulate_embedding"):
                return V("tup", [args[0], con(lab(args[0].a))])
            if d in SAMEGRAPH or d.startswith("copy."):
                return args[0]
            return UNKV
        if d in ("copy.copy", "copy.deepcopy", "copy"):
            return a0
        if d in ("collections.defaultdict", "collections.OrderedDict", "collections.Counter"):
            return V("dict")
        return OTHER if not any(a.k in ("unk", "lab", "con") for a in args) else UNKV

    def networkx(self, e, d, args, kws, env):
        n = d[3:].split(".")[-1]
        g = args[0] if args else kws.get("G")
        if n in ("Graph", "DiGraph", "MultiGraph", "OrderedGraph"):
            if g is None:
                return graph(())
            if g.k == "graph":
                return g
            return graph(x for x in labels_in(g))
        if g is None or g.k != "graph":
            return OTHER if g is None or g.k in ("other", "intv", "idx") or n.startswith("draw") else UNKV
        L = lab(g.a)
        if n == "convert_node_labels_to_integers":
            fl = args[1] if len(args) > 1 else kws.get("first_label")
            od = (e.args[2] if len(e.args) > 2 else next((k.value for k in e.keywords if k.arg == "ordering"), None))
            flz = fl is None or isinstance(next((k.value for k in e.keywords if k.arg == "first_label"), e.args[1] if len(e.args) > 1 else None), ast.Constant) and \
                next((k.value for k in e.keywords if k.arg == "first_label"), e.args[1] if len(e.args) > 1 else None).value == 0
            if not (od is None or isinstance(od, ast.Constant)):
                return graph((UNK,))
            if od is not None and od.value == "sorted" and g.a != frozenset((POS,)):
                self.sink(e, g.a, "ordered by sorted", (RAW,))
            return graph((POS if flz and (od is None or od.value == "default" or od.value == "sorted" and g.a == frozenset((POS,))) else INT,))
        if n == "relabel_nodes":
            m = args[1] if len(args) > 1 else kws.get("mapping")
            if m is not None and m.k == "dict" and m.b is not None:
                if m.b.k == "idx":
                    return graph((POS if m.b.a else INT,))
                if m.b.k == "lab":
                    return graph(m.b.a)
            return graph((UNK,))
        if n in ("maximum_spanning_tree", "minimum_spanning_tree", "bfs_tree", "dfs_tree", "subgraph", "induced_subgraph", "freeze", "create_empty_copy", "edge_subgraph", "to_undirected", "complement", "k_core"):
            return g
        if n in ("maximum_spanning_edges", "minimum_spanning_edges", "bfs_edges", "dfs_edges", "edges"):
            data = n.endswith("spanning_edges") and not any(k.arg == "data" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords)
            return con(V("tup", [L, L, OTHER] if data else [L, L]))
        if n == "nodes":
            return con(L, True)
        if n == "check_planarity":
            return V("tup", [OTHER, V("graph", g.a, "emb")])
        if n in ("adjacency_matrix", "to_numpy_array", "to_scipy_sparse_array", "to_numpy_matrix"):
            nl = args[1] if len(args) > 1 else kws.get("nodelist")
            if nl is None or nl.k == "other":
                return V("mat", False)
            x = elem(nl)
            if x.k in ("idx", "intv"):
                self.aslabel(e, g.a, x)
                return V("mat", True)
            return V("mat", False)
        if n in ("connected_components",):
            return con(con(L))
        if n in ("node_connected_component", "neighbors", "all_neighbors", "shortest_path", "dfs_preorder_nodes", "dfs_postorder_nodes", "isolates", "topological_sort", "periphery", "center"):
            return con(L)
        if n in ("degree",):
            return V("deg", g.a)
        if n in ("single_source_shortest_path_length", "shortest_path_length", "eccentricity", "get_node_attributes", "planar_layout", "spring_layout", "single_source_dijkstra_path_length"):
            for a in args[1:2]:
                self.aslabel(e, g.a, a)
            return V("dict", L, OTHER)
        if n == "get_edge_attributes":
            return V("dict", V("tup", [L, L]), OTHER)
        if n.startswith(("is_", "number_", "draw", "density", "diameter", "radius", "has_", "set_")):
            return OTHER
        return UNKV


def load(tg):
    import copy
    x = copy.deepcopy(tg)
    for n in ast.walk(x):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return x


# ------------------------------------------------------------------ relabelled instances
def mark(labels_, edges, order=None, flip=False, tag=""):
    """graph with shared weight symbols: nodes inserted in `order`, edges reversed when flip"""
    n = len(labels_)
    order = list(range(n)) if order is None else order
    at = {p: k for k, p in enumerate(order)}
    es = [(at[a], at[b], t.sym(f"lw{k}", "real")) for k, (a, b) in enumerate(edges)]
    es = [(b, a, w) for a, b, w in reversed(es)] if flip else es
    g = graphs.G([t.num(x) if isinstance(x, int) else t.string(x) for x in (labels_[p] for p in order)], es)
    # networkx lists edges by their first node in insertion order
    es2 = sorted(((a, b, w) if a < b else (b, a, w) for a, b, w in g.edges), key=lambda z: z[0])
    g.edges = es2
    return g


SHAPES = [("square", 4, graphs.cycle(4)), ("path of 4", 4, graphs.path(4)), ("complete graph of 4", 4, graphs.complete(4)), ("square with a chord", 4, graphs.cycle(4) + [(0, 2)]), ("two disjoint edges", 4, [(0, 1), (2, 3)]),
          ("edge", 2, [(0, 1)]), ("two interleaved edges", 4, [(0, 2), (1, 3)]), ("hexagon", 6, graphs.cycle(6)), ("K33", 6, graphs.K33), ("square and an edge", 6, graphs.cycle(4) + [(4, 5)]), ("complete graph of 6", 6, graphs.complete(6))]
PERMS = {2: [(1, 0)], 4: [(2, 0, 3, 1), (3, 2, 1, 0), (1, 0, 2, 3)], 6: [(3, 5, 1, 0, 4, 2), (5, 4, 3, 2, 1, 0)]}


def pairs(n, es):
    base = mark(list(range(n)), es)
    for p in PERMS[n]:
        yield "with other integer labels", base, mark([10 + 3 * x for x in p], es), {}
        yield "with its nodes inserted in another order", base, mark(list(range(20, 20 + n)), es, order=list(p)), {}
        yield "with string labels", base, mark([chr(97 + x) for x in p], es), {}
    yield "with its edges inserted in another order", base, mark(list(range(20, 20 + n)), es, flip=True), {}


def m_pfo(E, vs, kw):
    """orientation matrix in node order: the same orientation whatever the labels and the insertion order"""
    g = graphs.the_graph(vs[0])
    w = g.w()
    xs = []
    names = sorted((x for a, b, x in g.edges if x is not None), key=lambda z: z.args[0])
    first = {}
    # a fixed orientation of every edge, from the weights that meet at its ends
    deg = {i: sorted(x.args[0] for (a, b), x in w.items() if a == i and x is not None) for i in range(g.n)}
    for i in range(g.n):
        for j in range(g.n):
            if (i, j) not in w:
                xs.append(t.ZERO)
                continue
            s = t.sym("or." + (w[i, j].args[0] if w[i, j] is not None else f"{min(i, j)}-{max(i, j)}"), "real")
            if deg[i] == deg[j]:
                sg = 1 if i < j else -1
            else:
                sg = 1 if deg[i] < deg[j] else -1
            xs.append(s if sg > 0 else S.mult(t.num(-1), s))
    return S.A((g.n, g.n), xs, "float")


MODELS = {"ff.pfo_algorithm": m_pfo}


def m_brute(E, vs, kw):
    return graphs.m_brute(E, vs, kw)


def m_planar(E, vs, kw):
    g = graphs.the_graph(vs[0])
    if g.n % 2 or not g.n:
        return t.ZERO
    if not g.planar():
        raise S.Unsup("not planar")
    r = t.ONE
    for c in g.comps():
        s = g.sub(c)
        if s.n % 2:
            return t.ZERO
        r = S.mult(r, t.sym("count" + ",".join(sorted(str(x.args[0]) for a, b, x in s.edges if x is not None)) + "!nonneg", "real"))
    return r


def m_count(E, vs, kw):
    g = graphs.the_graph(vs[0])
    return m_planar(E, vs, kw) if g.planar() else graphs.m_count(E, vs, kw)


def canonical(tr):
    def c(v):
        """list of edge sets, with labels replaced by the node they name"""
        def one(x):
            return tr.get(S.key(x), x) if isinstance(x, t.T) else x
        if isinstance(v, S.L):
            ms = []
            for m in v.xs:
                if not isinstance(m, S.L):
                    return v
                es = [S.L("tuple", sorted(map(one, e.xs), key=lambda z: S.key(z).dig)) if isinstance(e, S.L) and len(e.xs) == 2 else e for e in m.xs]
                ms.append(S.L("tuple", sorted(es, key=lambda z: S.key(z).dig)))
            return S.L("list", sorted(ms, key=lambda z: S.key(z).dig))
        return v
    return c


def relabelled(ctx, name, f, sp):
    """('violation', detail) / ('same', n) / ('unknown', why): one summary, two namings of the same graph"""
    g1, g2 = compare.mksyms(sp)[0], t.sym("graph2", sp.args[0].kind)
    models = dict(graphs.MODELS)
    models.update({"ff.pfo_algorithm": m_pfo, "ff.count_perfect_matchings_planar": m_planar, "ff.count_perfect_matchings": m_count})
    why = ""
    n = 0
    for inlined in (False, True):
        r1 = compare.Run(ctx.prog, f, [g1], ctx.checker.mode(inlined), sp.budget)
        r2 = compare.Run(ctx.prog, f, [g2], ctx.checker.mode(inlined), sp.budget)
        if not r1.ok or r1.term is None or r2.term is None or r1.why:
            why = r1.why
            continue
        c1 = [pc for pc, ex in r1.raises if str(ex) != "AssertionError"]
        c2 = [pc for pc, ex in r2.raises if str(ex) != "AssertionError"]
        for lab_, k, es in SHAPES:
            for how, a, b, _ in pairs(k, es):
                tr = {}
                edges_ = {x.args[0]: i for i, (p, q, x) in enumerate(a.edges)}
                for g in (a, b):
                    for i, l in enumerate(g.nodes):
                        # nodes are named by the weights that meet there, where that is enough
                        tr[S.key(l)] = t.string("node " + ",".join(sorted(x.args[0] for p, q, x in g.edges if i in (p, q))))
                rf = refute.Refuter(budget=min(sp.refute, 10), models=models, canon=canonical(tr))
                inst = refute.Inst(lab_ + " and the same graph " + how, {g1: a, g2: b})
                t.DEADLINE[0] = 1e18
                v, msg = rf.run([("", r1.term, r2.term)], (c1, c2), [inst])
                if v == refute.DIFF:
                    return "violation", msg
                if v == refute.SAME:
                    n += 1
                else:
                    why = str(rf.stats["unsupported"])[:120]
    return ("same", n) if n else ("unknown", why)


def opaque_labels(ctx, rep):
    from .props import Finding
    rep.rules.append("label typestate over the call graph below the matching and orientation entry points (raw labels may only be hashed, compared for equality and iterated; matrix rows are positions); "
                     "the summaries of the matching functions evaluated on relabelled and reordered copies of graphs with symbolic weights give equal counts")
    an = Labels(ctx.prog)
    for r in ROOTS:
        f = ctx.prog.find(r)
        if not isinstance(f, Func):
            rep.broken.append(f"public function {r} not found")
            continue
        bad0, un0, si0 = len(an.bad), len(an.unsure), len(an.sites)
        an.call(f, [graph((RAW,))], {})
        rep.functions.add(r)
    rep.functions |= an.funcs
    for k in sorted(an.sites | set(an.bad)):
        if k in an.bad:
            f, msg, path = an.bad[k]
            rep.findings.append(Finding("label", f"{f.qual} line {k[1]}", f"{k[0]}:{k[1]}", msg, ["called through " + path]))
        elif k in an.unsure:
            f, what = an.unsure[k]
            rep.undecided.append(f"{f.qual} line {k[1]}: value {what} of unknown origin")
        rep.ob(k not in an.bad and k not in an.unsure)
    rep.extra["label_uses"] = len(an.sites)
    for name in ("count_perfect_matchings", "count_perfect_matchings_planar", "find_perfect_matchings_brute"):
        f, sp = ctx.prog.find(name), specs.SPECS.get(name)
        if not isinstance(f, Func) or sp is None:
            continue
        v, x = relabelled(ctx, name, f, sp)
        rep.ob(v == "same")
        if v == "violation":
            rep.findings.append(Finding("relabelling", name, f.where(), "the result depends on node names or insertion order", x))
        elif v == "same":
            rep.samples.append({"function": name, "relabelled_pairs_equal": x})
        else:
            rep.undecided.append(f"{name}: relabelled instances: {x}")
