"""Ownership and effect analysis: argument mutation, hidden state, aliasing of results.

A flow-sensitive abstract interpreter tracks, for every value, which *roots* its
memory may belong to: a parameter of the public function, a module-level object,
a default-argument object, the result of a memoised function, or a variable
captured by a returned closure.  `own` are the roots the value itself may share
memory with, `cont` those of the things it contains.  Views and conversions that
may not copy (asarray, reshape, .T, .real, slices, ...) keep the roots;
arithmetic and copies drop them.
"""
import ast
from .front import Func, Module, import_map

MAXDEPTH = 14
EMPTY = frozenset()


class AV:
    __slots__ = ("own", "cont", "kind", "ref")

    def __init__(self, own=EMPTY, cont=EMPTY, kind=None, ref=None):
        self.own, self.cont, self.kind, self.ref = own, cont, kind, ref

    def __eq__(self, o):
        return (self.own, self.cont, self.kind, self.ref) == (o.own, o.cont, o.kind, o.ref)

    def __hash__(self):
        return hash((self.own, self.cont, self.kind, self.ref))

    def roots(self):
        return self.own | self.cont


FRESH = AV()
NUM = AV(kind="num")
ARR = AV(kind="arr")


def j(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    return AV(a.own | b.own, a.cont | b.cont, a.kind if a.kind == b.kind else None, a.ref if a.ref == b.ref else None)


def jenv(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = {}
    for k in set(a) | set(b):
        out[k] = j(a.get(k), b.get(k))
    return out


ALIAS_FUNCS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "reshape", "ravel", "squeeze",
               "transpose", "swapaxes", "moveaxis", "rollaxis", "real", "imag", "diag", "diagonal", "flip", "fliplr", "flipud", "rot90", "expand_dims",
               "broadcast_to", "split", "hsplit", "vsplit", "array_split", "real_if_close", "matrix", "asmatrix", "require", "matrix_transpose",
               "permute_dims", "asfarray", "asarray_chkfinite"}
ALIAS_METHODS = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "diagonal", "conj", "conjugate", "get", "values", "items", "keys",
                 "__getitem__", "getT", "getH", "getA", "getA1", "subgraph", "edge_subgraph", "setdefault", "pop", "popitem", "adjacency", "neighbors",
                 "to_undirected_view", "data", "__iter__", "__next__"}
ALIAS_ATTRS = {"T", "real", "imag", "flat", "H", "A", "A1", "base", "mT", "nodes", "edges", "adj", "_adj", "_node", "graph", "data", "node", "pred", "succ",
               "_pred", "_succ", "degree"}
SHALLOW = {"builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed", "builtins.enumerate", "builtins.zip", "builtins.map",
           "builtins.filter", "builtins.iter", "builtins.next", "builtins.dict", "builtins.set", "builtins.frozenset", "copy.copy", "builtins.max",
           "builtins.min"}
MUT_METHODS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "difference_update",
               "intersection_update", "symmetric_difference_update", "setdefault", "popitem", "fill", "resize", "itemset", "partition", "put",
               "setflags", "setfield", "add_node", "add_edge", "add_nodes_from", "add_edges_from", "add_weighted_edges_from", "remove_node",
               "remove_edge", "remove_nodes_from", "remove_edges_from", "clear_edges", "__setitem__", "__delitem__", "__iadd__", "__imul__", "setdiag",
               "eliminate_zeros", "sum_duplicates", "sort_indices", "appendleft", "popleft", "move_to_end"}
MUT_FUNCS = {"numpy.fill_diagonal": (0,), "numpy.put": (0,), "numpy.place": (0,), "numpy.putmask": (0,), "numpy.copyto": (0,), "numpy.put_along_axis": (0,),
             "random.shuffle": (0,), "numpy.random.shuffle": (0,), "networkx.set_node_attributes": (0,), "networkx.set_edge_attributes": (0,),
             "networkx.add_path": (0,), "networkx.add_cycle": (0,), "networkx.add_star": (0,), "networkx.freeze": (0,), "heapq.heappush": (0,),
             "heapq.heappop": (0,), "heapq.heapify": (0,), "bisect.insort": (0,), "bisect.insort_left": (0,), "bisect.insort_right": (0,),
             "builtins.setattr": (0,), "builtins.delattr": (0,), "operator.iadd": (0,), "operator.isub": (0,), "operator.imul": (0,),
             "operator.itruediv": (0,), "operator.setitem": (0,), "operator.delitem": (0,), "networkx.set_edge_attributes ": (0,)}
UFUNC_OUT2 = {"add", "subtract", "multiply", "divide", "true_divide", "matmul", "maximum", "minimum", "power", "dot", "kron_", "mod", "remainder",
              "floor_divide", "hypot", "arctan2"}
UFUNC_OUT1 = {"negative", "conj", "conjugate", "sqrt", "abs", "absolute", "exp", "log", "square", "sign", "sin", "cos", "rint", "floor", "ceil"}
IMMUT_CALLS = {"builtins.len", "builtins.int", "builtins.float", "builtins.complex", "builtins.bool", "builtins.str", "builtins.abs", "builtins.isinstance",
               "builtins.hash", "builtins.id", "builtins.repr", "builtins.format", "builtins.round", "builtins.all", "builtins.any", "builtins.hasattr",
               "builtins.range", "builtins.type", "numpy.allclose", "numpy.trace", "numpy.array_equal", "numpy.isclose", "numpy.linalg.norm",
               "numpy.linalg.det", "builtins.ord", "builtins.chr", "builtins.divmod", "builtins.pow"}


class Ev:
    def __init__(self, kind, root, node, fr, what):
        self.kind, self.root, self.node, self.fr, self.what = kind, root, node, fr, what

    def where(self):
        q = self.fr.func.qual if self.fr.func is not None else "<module>"
        return f"{self.fr.module.rel}:{self.node.lineno} ({q})"


class Fr:
    def __init__(self, module, func, imports=None, closure=None, parent=None):
        self.module, self.func, self.imports, self.closure, self.parent = module, func, imports or {}, closure or {}, parent
        self.local = {}


class Out:
    def __init__(self):
        self.env, self.val, self.brk, self.cont = None, None, None, None


def mutable_literal(e):
    """could a module-level or default-argument expression build a mutable object?"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Tuple):
        return any(mutable_literal(x) for x in e.elts)
    if isinstance(e, ast.Call):
        s = ast.unparse(e.func)
        return not (s in ("tuple", "frozenset", "int", "float", "complex", "str", "bool", "len", "range", "namedtuple") or s.endswith(("sqrt", "log", "getLogger", "TypeVar", "compile")))
    if isinstance(e, ast.BinOp):
        return mutable_literal(e.left) or mutable_literal(e.right)
    return False


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.events, self.stack, self.funcs = [], [], set()
        self.sites = 0
        self.undecided = []
        self.seen = set()
        self.globals_written = []

    def run(self, func, vals):
        return self.body(func.node, func.module, dict(vals), func)

    def body(self, node, module, env, func, imports=None, closure=None, parent=None):
        self.stack.append(node)
        self.funcs.add(f"{module.name}.{getattr(node, 'name', '<lambda>')}")
        fr = Fr(module, func, dict(imports or {}), closure, parent)
        out = Out()
        try:
            e = self.block(node.body, env, fr, out)
        finally:
            self.stack.pop()
        v = out.val
        if e is not None:
            v = j(v, NUM)
        return v or NUM

    def event(self, kind, av, node, fr, what):
        for r in av.own:
            k = (kind, r, node, fr.module.name)
            if k not in self.seen:
                self.seen.add(k)
                self.events.append(Ev(kind, r, node, fr, what))

    # ---------------------------------------------------- statements
    def block(self, stmts, env, fr, out):
        for n in stmts:
            if env is None:
                return None
            env = self.stmt(n, env, fr, out)
        return env

    def stmt(self, n, env, fr, out):
        ty = type(n)
        if ty is ast.Expr:
            self.ev(n.value, env, fr)
            return env
        if ty is ast.Assign:
            v = self.ev(n.value, env, fr)
            for t in n.targets:
                self.assign(t, v, env, fr, n.value)
            return env
        if ty is ast.AnnAssign:
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, env, fr), env, fr)
            return env
        if ty is ast.AugAssign:
            v = self.ev(n.value, env, fr)
            t = n.target
            if isinstance(t, ast.Name):
                cur = self.lookup(t.id, env, fr)
                if cur.kind != "num":
                    self.event("mutate", cur, n, fr, f"`{ast.unparse(n)[:70]}` updates the object in place")
                if t.id in getattr(fr, "globals", ()):
                    self.globals_written.append((fr, n, t.id))
                env[t.id] = AV(cur.own, cur.cont | (v.roots() if cur.kind == "list" else EMPTY), cur.kind)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, env, fr)
                self.ev(t.slice, env, fr)
                self.event("mutate", b, n, fr, f"`{ast.unparse(n)[:70]}` writes into the object")
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, env, fr)
                self.event("mutate", b, n, fr, f"`{ast.unparse(n)[:70]}` changes an attribute of the object")
            return env
        if ty is ast.Return:
            v = self.ev(n.value, env, fr) if n.value is not None else NUM
            out.val = j(out.val, v)
            if len(self.stack) == 1 and v.roots():
                self.returned(v, n, fr)
            if v.ref and v.ref[0] == "clo":
                self.escaping_closure(v.ref, env, fr, n)
            return None
        if ty is ast.If:
            self.ev(n.test, env, fr)
            a, b = dict(env), dict(env)
            self.refine(n.test, a, b, fr)
            return jenv(self.block(n.body, a, fr, out), self.block(n.orelse, b, fr, out))
        if ty in (ast.For, ast.AsyncFor):
            it = self.ev(n.iter, env, fr)
            return self.loop(n, env, fr, out, lambda e: self.assign(n.target, self.element(it, n.iter), e, fr, None))
        if ty is ast.While:
            return self.loop(n, env, fr, out, lambda e: self.ev(n.test, e, fr))
        if ty is ast.Raise:
            if n.exc is not None:
                self.ev(n.exc, env, fr)
            return None
        if ty is ast.Assert:
            self.ev(n.test, env, fr)
            return env
        if ty is ast.Break:
            out.brk = jenv(out.brk, dict(env))
            return None
        if ty is ast.Continue:
            out.cont = jenv(out.cont, dict(env))
            return None
        if ty in (ast.Import, ast.ImportFrom):
            fr.imports.update(import_map([n], self.prog.pkg, fr.module.name))
            return env
        if ty in (ast.FunctionDef, ast.AsyncFunctionDef):
            fr.local[n.name] = (n, fr)
            env[n.name] = AV(ref=("clo", n.name))
            return env
        if ty is ast.Try or ty.__name__ == "TryStar":
            before = dict(env)
            e = self.block(n.body, env, fr, out)
            res = self.block(n.orelse, e, fr, out) if e is not None else None
            mid = jenv(before, dict(e) if e is not None else None)
            for h in n.handlers:
                res = jenv(res, self.block(h.body, dict(mid), fr, out))
            if n.finalbody:
                if res is not None:
                    res = self.block(n.finalbody, res, fr, out)
                else:
                    self.block(n.finalbody, dict(mid), fr, out)
            return res
        if ty in (ast.With, ast.AsyncWith):
            for it in n.items:
                v = self.ev(it.context_expr, env, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, fr)
            return self.block(n.body, env, fr, out)
        if ty is ast.Delete:
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    b = self.ev(t.value, env, fr)
                    self.event("mutate", b, n, fr, f"`{ast.unparse(n)[:70]}` removes an entry of the object")
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
            return env
        if ty in (ast.Global, ast.Nonlocal):
            fr.globals = getattr(fr, "globals", set()) | set(n.names)
            fr.nonlocal_ = ty is ast.Nonlocal
            return env
        if ty.__name__ == "Match":
            self.ev(n.subject, env, fr)
            res = dict(env)
            for c in n.cases:
                res = jenv(res, self.block(c.body, dict(env), fr, out))
            return res
        return env

    def refine(self, test, a, b, fr):
        """isinstance(x, number): x is immutable in the branch"""
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(test.args[1]) if isinstance(n, (ast.Attribute, ast.Name))} - {"np", "numpy"}
            nm = test.args[0].id
            if names and names <= {"int", "float", "complex", "str", "bool", "number", "bytes", "integer", "floating", "complexfloating", "NoneType", "generic"}:
                a[nm] = NUM
            elif nm in a and "list" not in names and "tuple" not in names and names & {"ndarray", "matrix"}:
                v = a[nm]
                a[nm] = AV(v.own, v.cont, "arr")
            elif nm in a and names == {"list"}:
                v = a[nm]
                a[nm] = AV(v.own, v.cont, "list")
        elif isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.refine(test.operand, b, a, fr)
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            for v in test.values:
                self.refine(v, a, {}, fr)

    def loop(self, n, env, fr, out, enter):
        o = Out()
        head, brk = env, None
        for _ in range(10):
            o.brk = o.cont = None
            e = dict(head)
            enter(e)
            r = self.block(n.body, e, fr, o)
            brk = jenv(brk, o.brk)
            nxt = jenv(jenv(dict(head), r), o.cont)
            if nxt == head:
                break
            head = nxt
        out.val = j(out.val, o.val) if o.val is not None else out.val
        res = self.block(n.orelse, dict(head), fr, out)
        return jenv(res, brk)

    def element(self, it, node):
        if it.kind in ("num", "range"):
            return NUM
        return AV(it.own | it.cont, it.cont, "num" if it.kind == "vec" else None)

    def assign(self, t, v, env, fr, src=None):
        if isinstance(t, ast.Name):
            env[t.id] = v
            if t.id in getattr(fr, "globals", ()):
                self.globals_written.append((fr, t, t.id))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, e in enumerate(t.elts):
                if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and v.ref and v.ref[0] == "tup":
                    self.assign(e, v.ref[1][k], env, fr)
                elif v.ref and v.ref[0] == "tup" and len(v.ref[1]) == len(t.elts) and not isinstance(e, ast.Starred):
                    self.assign(e, v.ref[1][k], env, fr)
                else:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.element(v, None), env, fr)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, fr)
            self.ev(t.slice, env, fr)
            self.event("mutate", b, t, fr, f"`{ast.unparse(t)[:60]} = ...` writes into the object")
            # storing a rooted value into a fresh container
            if v.roots() and isinstance(t.value, ast.Name) and b.kind not in ("arr", "vec"):
                cur = env.get(t.value.id)
                if cur is not None:
                    env[t.value.id] = AV(cur.own, cur.cont | v.roots(), cur.kind)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, fr)
            self.event("mutate", b, t, fr, f"`{ast.unparse(t)[:60]} = ...` changes an attribute of the object")
            if b.ref and b.ref[0] == "func":
                self.events.append(Ev("global", ("g", b.ref[1].name + "." + t.attr), t, fr, "writes an attribute of a function"))
            if b.ref and b.ref[0] == "pkgmod":
                self.events.append(Ev("global", ("g", b.ref[1] + "." + t.attr), t, fr, "writes a module attribute"))

    # ---------------------------------------------------- expressions
    def lookup(self, name, env, fr):
        if name in env:
            return env[name]
        if name in fr.closure:
            return fr.closure[name]
        if name in fr.imports:
            return self.resolved(self.prog.resolve_dotted(fr.imports[name]))
        r = self.prog.resolve(fr.module, name)
        if r is None:
            return AV(ref=("lib", "builtins." + name))
        return self.resolved(r)

    def resolved(self, r):
        if isinstance(r, Func):
            return AV(ref=("func", r))
        if isinstance(r, Module):
            return AV(ref=("pkgmod", r.name))
        if isinstance(r, str):
            return AV(ref=("lib", r))
        if isinstance(r, tuple) and r[0] == "const":
            e = r[1].consts[r[2]]
            if mutable_literal(e):
                root = frozenset([("g", f"{r[1].name}.{r[2]}")])
                if isinstance(e, ast.Tuple):
                    return AV(EMPTY, root, "tuple")
                return AV(root, root, None)
            return NUM if isinstance(e, ast.Constant) else AV(kind=None)
        return FRESH

    def ev(self, e, env, fr):
        ty = type(e)
        if ty is ast.Constant:
            return NUM
        if ty is ast.Name:
            return self.lookup(e.id, env, fr)
        if ty is ast.Attribute:
            b = self.ev(e.value, env, fr)
            if b.ref and b.ref[0] == "lib":
                return AV(ref=("lib", b.ref[1] + "." + e.attr))
            if b.ref and b.ref[0] == "pkgmod":
                return self.resolved(self.prog.resolve(self.prog.modules[b.ref[1]], e.attr))
            if b.ref and b.ref[0] == "func" and b.ref[1].node:
                return AV(frozenset([("g", b.ref[1].name + "." + e.attr)]), EMPTY)
            if e.attr in ("shape", "ndim", "size", "dtype", "__name__"):
                return NUM
            if e.attr in ALIAS_ATTRS:
                return AV(b.own, b.cont, b.kind)
            return AV(ref=("meth", e.attr, b)) if False else AV()
        if ty is ast.BinOp:
            a, b = self.ev(e.left, env, fr), self.ev(e.right, env, fr)
            if a.kind == "num" and b.kind == "num":
                return NUM
            if isinstance(e.op, (ast.Add, ast.Mult)) and (a.kind in (None, "list", "tuple")) and (b.kind in (None, "list", "tuple", "num")) and "arr" not in (a.kind, b.kind):
                c = (a.cont if a.kind in ("list", "tuple") else EMPTY) | (b.cont if b.kind in ("list", "tuple") else EMPTY)
                return AV(EMPTY, c, "list" if "list" in (a.kind, b.kind) else None)
            return AV(kind="arr" if "arr" in (a.kind, b.kind) or isinstance(e.op, ast.MatMult) else None)
        if ty is ast.UnaryOp:
            v = self.ev(e.operand, env, fr)
            return NUM if v.kind == "num" or isinstance(e.op, ast.Not) else AV(kind=v.kind if v.kind == "arr" else None)
        if ty is ast.BoolOp:
            r = None
            for x in e.values:
                r = j(r, self.ev(x, env, fr))
            return r
        if ty is ast.Compare:
            self.ev(e.left, env, fr)
            for x in e.comparators:
                self.ev(x, env, fr)
            return AV(kind="mask")
        if ty is ast.IfExp:
            self.ev(e.test, env, fr)
            a, b = dict(env), dict(env)
            self.refine(e.test, a, b, fr)
            return j(self.ev(e.body, a, fr), self.ev(e.orelse, b, fr))
        if ty in (ast.Tuple, ast.List, ast.Set):
            vs = [self.ev(x, env, fr) for x in e.elts]
            c = EMPTY
            for x, v in zip(e.elts, vs):
                c |= v.cont if isinstance(x, ast.Starred) else v.roots()
            if ty is ast.Tuple and not any(isinstance(x, ast.Starred) for x in e.elts):
                return AV(EMPTY, c, "tuple", ("tup", tuple(vs)))
            return AV(EMPTY, c, "list" if ty is ast.List else ("tuple" if ty is ast.Tuple else "set"))
        if ty is ast.Dict:
            c = EMPTY
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    self.ev(k, env, fr)
                c |= self.ev(v, env, fr).roots()
            return AV(EMPTY, c, "dict")
        if ty is ast.Subscript:
            b = self.ev(e.value, env, fr)
            idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            ivs = [self.ev(i, env, fr) for i in idx]
            if b.ref and b.ref[0] == "tup" and len(idx) == 1 and isinstance(idx[0], ast.Constant) and isinstance(idx[0].value, int) and -len(b.ref[1]) <= idx[0].value < len(b.ref[1]):
                return b.ref[1][idx[0].value]
            if any(v.kind in ("arr", "list", "mask", "vec") for v in ivs) or any(isinstance(i, (ast.Compare, ast.List)) for i in idx):
                return AV(kind="arr")       # fancy indexing copies
            if b.kind == "list" and any(isinstance(i, ast.Slice) for i in idx):
                return AV(EMPTY, b.cont, "list")
            if b.kind in ("arr", "mat") and len(idx) == 2 and not any(isinstance(i, (ast.Slice, ast.Starred)) for i in idx) and all(v.kind == "num" for v in ivs):
                return NUM
            if b.kind == "vec" and not any(isinstance(i, ast.Slice) for i in idx):
                return NUM
            if b.kind in ("arr", "mat", "vec"):
                return AV(b.own, EMPTY, "arr")
            return AV(b.own | b.cont if b.kind not in ("list", "tuple", "dict") else b.cont | (b.own if b.own & b.cont else EMPTY), b.cont)
        if ty is ast.Call:
            return self.call(e, env, fr)
        if ty in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            s = dict(env)
            for g in e.generators:
                it = self.ev(g.iter, s, fr)
                self.assign(g.target, self.element(it, g.iter), s, fr)
                for c in g.ifs:
                    self.ev(c, s, fr)
            if ty is ast.DictComp:
                self.ev(e.key, s, fr)
                v = self.ev(e.value, s, fr)
            else:
                v = self.ev(e.elt, s, fr)
            return AV(EMPTY, v.roots(), "list" if ty is ast.ListComp else None)
        if ty is ast.Lambda:
            k = f"<lambda {e.lineno}:{e.col_offset}>"
            fr.local[k] = (e, fr)
            return AV(ref=("clo", k))
        if ty is ast.NamedExpr:
            v = self.ev(e.value, env, fr)
            env[e.target.id] = v
            return v
        if ty is ast.Starred:
            return self.ev(e.value, env, fr)
        if ty is ast.JoinedStr:
            for p in e.values:
                if isinstance(p, ast.FormattedValue):
                    self.ev(p.value, env, fr)
            return NUM
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env, fr)
        return FRESH

    # ---------------------------------------------------- calls
    def call(self, e, env, fr):
        self.sites += 1
        meth = None
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value, env, fr)
            if b.ref and b.ref[0] in ("lib", "pkgmod"):
                f = self.ev(e.func, env, fr)
            else:
                meth, f = e.func.attr, None
        else:
            f = self.ev(e.func, env, fr)
        args = [self.ev(a, env, fr) for a in e.args]
        kw = {k.arg or "**": self.ev(k.value, env, fr) for k in e.keywords}
        kwn = {k.arg: k.value for k in e.keywords}
        allv = args + list(kw.values())
        if "out" in kw:
            self.event("mutate", kw["out"], e, fr, f"`{ast.unparse(e)[:70]}` writes its output into the object")
            if meth is None or True:
                pass
        for i, k in ((0, "overwrite_a"), (1, "overwrite_b"), (0, "overwrite_x")):
            if k in kwn and not (isinstance(kwn[k], ast.Constant) and kwn[k].value is False) and i < len(args):
                self.event("mutate", args[i], e, fr, f"`{ast.unparse(e)[:70]}` may overwrite the object")
        if meth is not None:
            if meth in MUT_METHODS and not (meth == "reverse" and False):
                self.event("mutate", b, e, fr, f"`{ast.unparse(e)[:70]}` changes the object")
                if isinstance(e.func.value, ast.Name) and b.kind not in ("arr", "vec"):
                    cur = env.get(e.func.value.id)
                    if cur is not None:
                        c = cur.cont
                        for v in allv:
                            c |= v.roots()
                        env[e.func.value.id] = AV(cur.own, c, cur.kind)
            if meth in ("astype",):
                c = kwn.get("copy")
                if c is not None and not (isinstance(c, ast.Constant) and c.value):
                    return AV(b.own, b.cont, b.kind)
                return AV(kind="arr")
            if meth == "byteswap" and (args or "inplace" in kw):
                self.event("mutate", b, e, fr, "byteswap in place")
            if meth in ALIAS_METHODS:
                if meth in ("conj", "conjugate") and b.kind == "cplx":
                    return AV(kind="arr")
                return AV(b.own | (b.cont if meth in ("get", "pop", "values", "items", "__getitem__", "setdefault", "popitem") else EMPTY), b.cont, b.kind)
            if meth in ("edges", "nodes", "in_edges", "out_edges", "get_edge_data", "data") and (args or kw):
                return AV(b.own, b.cont)            # attribute dictionaries of the graph itself
            if meth == "copy":
                return AV(EMPTY, b.cont if b.kind in ("list", "dict", "set", None) and b.kind != "arr" and not b.own else (b.cont - b.own if b.kind == "arr" else EMPTY), b.kind)
            if meth in ("tolist", "toarray", "todense", "flatten", "dot", "round", "sum", "mean", "cumsum", "repeat"):
                return AV(kind="list" if meth == "tolist" else "arr")
            if "out" in kw:
                return kw["out"]
            return FRESH
        if f is None or f.ref is None:
            return FRESH
        k = f.ref[0]
        if k == "func":
            return self.call_package(f.ref[1], e, args, kw, env, fr)
        if k == "clo":
            return self.call_closure(f.ref[1], e, args, kw, env, fr)
        if k != "lib":
            return FRESH
        d = f.ref[1]
        last = d.split(".")[-1]
        for i in MUT_FUNCS.get(d, ()):
            if i < len(args):
                self.event("mutate", args[i], e, fr, f"`{ast.unparse(e)[:70]}` changes the object in place")
        if d.startswith("numpy.") and last == "at" and args:
            self.event("mutate", args[0], e, fr, f"`{ast.unparse(e)[:70]}` changes the object in place")
        if d.startswith("numpy.") and last in UFUNC_OUT2 and len(args) > 2:
            self.event("mutate", args[2], e, fr, f"`{ast.unparse(e)[:70]}` writes its output into the object")
        if d.startswith("numpy.") and last in UFUNC_OUT1 and len(args) > 1:
            self.event("mutate", args[1], e, fr, f"`{ast.unparse(e)[:70]}` writes its output into the object")
        if last in ("relabel_nodes", "convert_node_labels_to_integers", "contracted_nodes", "contracted_edge", "nan_to_num", "stochastic_graph", "double_edge_swap"):
            c = kwn.get("copy")
            if last == "double_edge_swap" or c is not None and not (isinstance(c, ast.Constant) and c.value):
                if args:
                    self.event("mutate", args[0], e, fr, f"`{ast.unparse(e)[:70]}` changes the object in place")
                    return AV(args[0].own, args[0].cont)
        if d == "numpy.array" and args:
            c = kwn.get("copy")
            if c is not None and not (isinstance(c, ast.Constant) and c.value):
                return AV(args[0].own, EMPTY, "arr")
            return ARR
        if (d.startswith("numpy.") or d.startswith("scipy.")) and last in ALIAS_FUNCS and args:
            return AV(args[0].own | (args[0].cont if last in ("asarray", "asanyarray") and False else EMPTY), EMPTY, "arr")
        if d in SHALLOW:
            c = EMPTY
            for v in args:
                c |= v.roots() if v.kind not in ("num",) else EMPTY
            if d in ("builtins.max", "builtins.min", "builtins.next"):
                return AV(c, c)
            return AV(EMPTY, c, "list" if d in ("builtins.list", "builtins.sorted") else ("tuple" if d == "builtins.tuple" else None))
        if d == "builtins.range":
            return AV(kind="range")
        if d == "builtins.getattr" and args:
            return AV(args[0].own, args[0].cont)
        if d in IMMUT_CALLS:
            return NUM
        if "out" in kw:
            return kw["out"]
        if d.startswith(("numpy.", "scipy.")):
            return ARR
        return FRESH

    def memo(self, func):
        for dec in func.node.decorator_list:
            s = ast.unparse(dec)
            if "cache" in s.lower() or "memo" in s.lower():
                return s
        return None

    def bind(self, node, args, kw, env, dfr, starred, qual):
        a = node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        if starred:
            r = FRESH
            for v in args:
                r = j(r, AV(v.own | v.cont, v.cont))
            for p in ps:
                vals[p] = r
        else:
            for p, v in zip(ps, args):
                vals[p] = v
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in ps + [p.arg for p in a.kwonlyargs]:
            if p in kw:
                vals[p] = kw[p]
            elif p not in vals:
                vals[p] = self.default(qual, p, ds.get(p))
        extra = FRESH
        for v in args[len(ps):]:
            extra = j(extra, AV(EMPTY, v.roots()))
        for p in (a.vararg, a.kwarg):
            if p is not None:
                vals[p.arg] = extra
        return vals

    def default(self, qual, p, d):
        if d is None:
            return FRESH
        if mutable_literal(d):
            r = frozenset([("d", f"{qual}({p})")])
            return AV(r, r)
        return NUM if isinstance(d, ast.Constant) else FRESH

    def call_package(self, func, e, args, kw, env, fr):
        node = func.node
        if node in self.stack or len(self.stack) > MAXDEPTH:
            return FRESH
        vals = self.bind(node, args, kw, env, None, any(isinstance(a, ast.Starred) for a in e.args), func.name)
        v = self.body(node, func.module, vals, func)
        if self.memo(func) and v.kind != "num":
            r = frozenset([("c", func.name)])
            v = AV(v.own | (r if v.kind != "tuple" else EMPTY), v.cont | r, v.kind)
        return v

    def call_closure(self, name, e, args, kw, env, fr):
        f2 = fr
        while f2 is not None and name not in f2.local:
            f2 = f2.parent
        if f2 is None:
            return FRESH
        node, dfr = f2.local[name]
        if node in self.stack or len(self.stack) > MAXDEPTH:
            return FRESH
        clo = dict(dfr.closure)
        clo.update(env)
        vals = self.bind(node, args, kw, env, None, any(isinstance(a, ast.Starred) for a in e.args), name)
        if isinstance(node, ast.Lambda):
            nf = Fr(dfr.module, dfr.func, dfr.imports, clo, dfr)
            self.stack.append(node)
            try:
                return self.ev(node.body, vals, nf)
            finally:
                self.stack.pop()
        return self.body(node, dfr.module, vals, dfr.func, dfr.imports, clo, dfr)

    def escaping_closure(self, ref, env, fr, n):
        """a function handed to the caller: what it keeps must not change between calls"""
        name = ref[1]
        f2 = fr
        while f2 is not None and name not in f2.local:
            f2 = f2.parent
        if f2 is None or len(self.stack) > 1:
            return
        node, dfr = f2.local[name]
        free = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}
        clo = {}
        for k, v in list(dfr.closure.items()) + list(env.items()):
            if v.kind == "num" or v.ref and v.ref[0] in ("lib", "func", "pkgmod", "clo"):
                clo[k] = v
                continue
            r = frozenset([("k", k)])
            clo[k] = AV(v.own | r, v.cont | r, v.kind)
            if k in free and any(x[0] == "p" for x in v.own):
                self.events.append(Ev("captures", next(x for x in v.own if x[0] == "p"), node, fr, f"the returned function keeps `{k}`, which shares the caller's memory"))
        a = node.args
        vals = {p.arg: AV(frozenset([("p", p.arg)])) if False else FRESH for p in a.posonlyargs + a.args + a.kwonlyargs}
        nf = Fr(dfr.module, dfr.func, dfr.imports, clo, dfr)
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, vals, nf)
            self.returned(v, node, nf)
            return
        self.stack.append(node)
        out = Out()
        try:
            self.block(node.body, vals, nf, out)
        finally:
            self.stack.pop()
        if getattr(nf, "nonlocal_", False):
            self.events.append(Ev("global", ("k", name), node, fr, "the returned function rebinds variables it keeps between calls"))
        if out.val is not None:
            self.returned(out.val, node, nf)

    def returned(self, v, n, fr):
        for r in v.own | v.cont:
            if r[0] in ("g", "d", "c", "k"):
                k = ("return", r, n)
                if k not in self.seen:
                    self.seen.add(k)
                    self.events.append(Ev("return", r, n, fr, "the result shares memory with it"))


# -------------------------------------------------------------- analyses
ALLOWED = {("complete_face", "pfo")}
IMMUTABLE_KINDS = {"int", "real", "scalar", "bool", "str", "seed"}
EXTRA_KINDS = {"plot_graph_with_edge_weights": {"title": "num"}, "plot_planar_embedding": {"title": "num"}, "print_custom": {"k": "num"},
               "analyze_pdf": {"name": "num", "stem": "num"}, "complete_face": {"verbose": "num"}, "pfo_algorithm": {"verbose": "num"}}


def entry(prog, name, f):
    from . import specs
    sp = specs.SPECS.get(name)
    I = Interp(prog)
    vals = {}
    ps = f.params() + [a.arg for a in f.node.args.kwonlyargs]
    for k, p in enumerate(ps):
        r = frozenset([("p", p)])
        kind = None
        if sp is not None and k < len(sp.args):
            a = sp.args[k]
            if a.kind in IMMUTABLE_KINDS or a.classes and all(c in ("int", "float") for c in a.classes):
                vals[p] = NUM
                continue
            kind = {"mat": "arr", "vec": "vec"}.get(a.kind)
            if a.kind.startswith("list:"):
                kind = None
        if EXTRA_KINDS.get(name, {}).get(p) == "num" or p in ("seed", "verbose"):
            vals[p] = NUM
            continue
        vals[p] = AV(r, r if kind is None else EMPTY, kind)
        d = f.defaults().get(p)
        if d is not None and mutable_literal(d):
            x = frozenset([("d", f"{f.name}({p})")])
            vals[p] = AV(r | x, r | x, kind)
    for p in (f.node.args.vararg, f.node.args.kwarg):
        if p is not None:
            vals[p.arg] = AV(EMPTY, frozenset([("p", p.arg)]))
    v = I.run(f, vals)
    return I, v


def analysed(ctx):
    if "effects" not in ctx.memo:
        from .rng import publics
        out = []
        for name, f in publics(ctx.prog):
            out.append((name, f) + entry(ctx.prog, name, f))
        ctx.memo["effects"] = out
    return ctx.memo["effects"]


def arguments(ctx, rep):
    """C03"""
    from .props import Finding
    rep.rules.append("ownership analysis: no in-place operation reachable from a public function is applied to memory that may belong to one of its arguments")
    rows = analysed(ctx)
    sites = 0
    for name, f, I, v in rows:
        rep.functions |= I.funcs
        rep.undecided += I.undecided
        sites += I.sites
        bad = [e for e in I.events if e.kind == "mutate" and e.root[0] == "p" and (name, e.root[1]) not in ALLOWED]
        rep.ob(not bad)
        for e in bad:
            rep.findings.append(Finding("argument-mutated", f"{name}({e.root[1]}): {ast.unparse(e.node)[:80]}", e.where(),
                                        f"{e.what}, which may be the caller's `{e.root[1]}`"))
    rep.extra["call_sites"] = sites
    rep.extra["functions_checked"] = len(rows)
    ok = any(e.root == ("p", "pfo") for n, f, I, v in rows if n == "complete_face" for e in I.events if e.kind == "mutate")
    rep.extra["positive_control"] = "complete_face fills the orientation matrix it is given (documented): " + ("seen" if ok else "not seen")
    if len(rows) < 60:
        rep.broken.append(f"only {len(rows)} public functions")


def history(ctx, rep):
    """C04"""
    from .props import Finding
    rep.rules.append("hidden-state analysis: no public function writes module-level, default-argument, memoised or closure-captured objects, and no result shares "
                     "memory with one")
    rows = analysed(ctx)
    for name, f, I, v in rows:
        rep.functions |= I.funcs
        bad = []
        for e in I.events:
            if e.kind in ("mutate", "return") and e.root[0] in ("g", "d", "c", "k") or e.kind in ("global", "captures"):
                bad.append(e)
        for fr, n, nm in I.globals_written:
            bad.append(Ev("global", ("g", f"{fr.module.name}.{nm}"), n, fr, "rebinds a module-level or enclosing variable"))
        dec = I.memo(f)
        if dec and v.kind != "num":
            bad.append(Ev("return", ("c", name), f.node, Fr(f.module, f), "memoised: every caller receives the same mutable object"))
        rep.ob(not bad)
        for e in bad:
            what = {"g": "module-level object", "d": "default argument", "c": "cached result of", "k": "captured variable", "p": "argument"}[e.root[0]]
            rep.findings.append(Finding("hidden-state", f"{name}: {what} {e.root[1]}", e.where(), e.what))
    rep.extra["functions_checked"] = len(rows)
    if len(rows) < 60:
        rep.broken.append(f"only {len(rows)} public functions")


# -------------------------------------------------------------- process-wide settings
SET = {"numpy.set_printoptions": "printoptions", "numpy.seterr": "err"}
GET = {"numpy.get_printoptions": "printoptions", "numpy.geterr": "err"}
CTX = {"numpy.printoptions", "numpy.errstate", "warnings.catch_warnings", "matplotlib.pyplot.rc_context", "matplotlib.rc_context",
       "matplotlib.pyplot.style.context", "contextlib.redirect_stdout"}
LEAK = {"warnings.simplefilter", "warnings.filterwarnings", "matplotlib.pyplot.rc", "matplotlib.use", "matplotlib.pyplot.style.use",
        "matplotlib.rcParams.update", "matplotlib.pyplot.rcParams.update", "numpy.set_string_function", "sys.setrecursionlimit", "locale.setlocale",
        "os.chdir", "numpy.seterrcall", "numpy.random.set_state_", "os.putenv", "matplotlib.pyplot.switch_backend", "os.environ.update",
        "numpy.setbufsize", "decimal.setcontext", "sys.setswitchinterval", "matplotlib.pyplot.ion", "logging.basicConfig", "logging.disable"}


class Settings:
    """typestate of the process-wide settings along normal and exceptional paths"""

    def __init__(self, prog):
        self.prog = prog
        self.events = []
        self.stack = []
        self.sets = 0
        self.guard = 0

    def touches(self, func, seen=None):
        """does the function (transitively) contain a settings call?"""
        seen = seen if seen is not None else set()
        if func.node in seen:
            return False
        seen.add(func.node)
        s = ast.unparse(func.node)
        if any(k.split(".")[-1] in s for k in list(SET) + list(LEAK)) or "rcParams" in s or "environ" in s:
            return True
        for n in ast.walk(func.node):
            if isinstance(n, ast.Name):
                r = self.prog.resolve(func.module, n.id)
                if isinstance(r, Func) and self.touches(r, seen):
                    return True
        return False


class St:
    __slots__ = ("mod", "env")

    def __init__(self, mod=EMPTY, env=None):
        self.mod, self.env = mod, env or {}

    def copy(self):
        return St(self.mod, dict(self.env))


def jst(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {k: a.env[k] for k in a.env if k in b.env and a.env[k] == b.env[k]}
    return St(a.mod | b.mod, env)


class SOut:
    def __init__(self):
        self.ret = self.brk = self.cont = self.exc = None


def dotted(prog, fr_module, imports, e):
    if isinstance(e, ast.Name):
        if e.id in imports:
            r = prog.resolve_dotted(imports[e.id])
        else:
            r = prog.resolve(fr_module, e.id)
        if isinstance(r, str):
            return r
        if isinstance(r, Func):
            return r
        return "builtins." + e.id if r is None else None
    if isinstance(e, ast.Attribute):
        b = dotted(prog, fr_module, imports, e.value)
        return b + "." + e.attr if isinstance(b, str) and not b.startswith("builtins.") else None
    return None


class SInterp:
    def __init__(self, prog):
        self.prog = prog
        self.S = Settings(prog)
        self.stack = []
        self.sets = 0
        self.leaks = []
        self.sites = 0

    def func(self, f, st):
        """-> (normal exit state, exceptional exit state)"""
        self.stack.append(f.node)
        out = SOut()
        imp = {}
        try:
            s = self.block(f.node.body, st, f.module, imp, out, f)
        finally:
            self.stack.pop()
        return jst(s, out.ret), out.exc

    def block(self, ss, st, m, imp, out, f):
        for n in ss:
            if st is None:
                return None
            st = self.stmt(n, st, m, imp, out, f)
        return st

    def exc(self, st, out):
        out.exc = jst(out.exc, st.copy())

    def calls(self, e, st, m, imp, out, f):
        """effects of the calls in an expression, innermost first"""
        if e is None:
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension)):
                if isinstance(e, ast.Lambda):
                    continue
                self.calls(c, st, m, imp, out, f)
        if isinstance(e, ast.Call):
            self.sites += 1
            d = dotted(self.prog, m, imp, e.func)
            if isinstance(d, Func):
                if d.node not in self.stack and self.S.touches(d):
                    ns, es = self.func(d, St(st.mod, {}))
                    if es is not None:
                        out.exc = jst(out.exc, St(es.mod, dict(st.env)))
                    if ns is not None:
                        st.mod = ns.mod
                else:
                    self.exc(st, out)
                return
            if isinstance(d, str) and d in SET:
                was = st.mod
                self.set(SET[d], e, st)
                now, st.mod = st.mod, was
                if not now < was:       # a call that only restores saved options is taken to succeed
                    self.exc(st, out)
            elif not (isinstance(d, str) and d in GET):
                self.exc(st, out)
            if isinstance(d, str):
                if d in SET:
                    self.sets += 1
                    self.set(SET[d], e, st)
                elif d in LEAK and not self.guarded:
                    self.leaks.append((e, f, d))
        elif isinstance(e, (ast.Subscript, ast.BinOp)) and isinstance(getattr(e, "ctx", ast.Load()), ast.Load):
            if not self.saved(e, st):
                self.exc(st, out)

    guarded = 0

    def set(self, fam, e, st):
        if fam == "printoptions" and e.args:
            st.mod = st.mod | {fam + ".*"}
        for k in e.keywords:
            if k.arg is None:
                if self.saved(k.value, st) == (fam, "*"):
                    st.mod = frozenset(x for x in st.mod if not x.startswith(fam))
                else:
                    st.mod = st.mod | {fam + ".*"}
            else:
                key = fam + "." + k.arg
                if self.saved(k.value, st) == (fam, k.arg):
                    st.mod = st.mod - {key}
                else:
                    st.mod = st.mod | {key}

    def saved(self, e, st):
        """(family, option) when the expression is a saved original setting"""
        if isinstance(e, ast.Name):
            return st.env.get(e.id)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            b = self.saved(e.value, st)
            return (b[0], e.slice.value) if b and b[1] == "*" else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "get"):
            b = self.saved(e.func.value, st)
            if e.func.attr == "copy":
                return b
            return (b[0], e.args[0].value) if b and b[1] == "*" and e.args and isinstance(e.args[0], ast.Constant) else None
        return None

    def value(self, e, st, m, imp):
        if isinstance(e, ast.Call):
            d = dotted(self.prog, m, imp, e.func)
            if isinstance(d, str) and d in GET:
                fam = GET[d]
                return (fam, "*") if not any(x.startswith(fam) for x in st.mod) else None
            if isinstance(d, str) and d == "numpy.seterr":
                return None
            if isinstance(e.func, ast.Name) and e.func.id == "dict" and len(e.args) == 1:
                return self.value(e.args[0], st, m, imp)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            b = self.value(e.value, st, m, imp)
            return (b[0], e.slice.value) if b and b[1] == "*" else None
        return self.saved(e, st)

    def stmt(self, n, st, m, imp, out, f):
        ty = type(n)
        if ty is ast.Assign:
            pre = self.value(n.value, st, m, imp)
            old = st.copy()
            self.calls(n.value, st, m, imp, out, f)
            if isinstance(n.value, ast.Call):
                d = dotted(self.prog, m, imp, n.value.func)
                if isinstance(d, str) and d == "numpy.seterr" and not any(x.startswith("err") for x in old.mod):
                    pre = ("err", "*")
            for t in n.targets:
                self.calls(t, st, m, imp, out, f)
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        st.env.pop(x.id, None)
                if isinstance(t, ast.Name) and pre:
                    st.env[t.id] = pre
                if isinstance(t, ast.Subscript):
                    b = ast.unparse(t.value)
                    if (b.endswith("rcParams") or b in ("os.environ",)) and not self.guarded:
                        self.leaks.append((t, f, b))
            return st
        if ty in (ast.Expr, ast.AugAssign, ast.AnnAssign, ast.Delete):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.calls(c, st, m, imp, out, f)
            return st
        if ty is ast.Return:
            self.calls(n.value, st, m, imp, out, f)
            out.ret = jst(out.ret, st)
            return None
        if ty is ast.Raise:
            self.calls(n.exc, st, m, imp, out, f)
            self.exc(st, out)
            return None
        if ty is ast.Assert:
            self.calls(n.test, st, m, imp, out, f)
            self.exc(st, out)
            return st
        if ty is ast.If:
            self.calls(n.test, st, m, imp, out, f)
            return jst(self.block(n.body, st.copy(), m, imp, out, f), self.block(n.orelse, st.copy(), m, imp, out, f))
        if ty in (ast.For, ast.While):
            o = SOut()
            if ty is ast.For:
                self.calls(n.iter, st, m, imp, out, f)
            head = st
            for _ in range(4):
                s = head.copy()
                if ty is ast.While:
                    self.calls(n.test, s, m, imp, out, f)
                r = self.block(n.body, s, m, imp, o, f)
                nx = jst(jst(head.copy(), r), o.cont)
                o.cont = None
                if nx.mod == head.mod and nx.env == head.env:
                    break
                head = nx
            out.exc, out.ret = jst(out.exc, o.exc), jst(out.ret, o.ret)
            return jst(self.block(n.orelse, head.copy(), m, imp, out, f), o.brk)
        if ty is ast.Break:
            out.brk = jst(out.brk, st)
            return None
        if ty is ast.Continue:
            out.cont = jst(out.cont, st)
            return None
        if ty in (ast.Import, ast.ImportFrom):
            imp.update(import_map([n], self.prog.pkg, m.name))
            return st
        if ty is ast.Try or ty.__name__ == "TryStar":
            o = SOut()
            s = self.block(n.body, st, m, imp, o, f)
            res = self.block(n.orelse, s, m, imp, o, f) if s is not None else None
            uncaught = o.exc.copy() if o.exc is not None else None
            o2 = SOut()
            catch_all = False
            for h in n.handlers:
                if h.type is None or ast.unparse(h.type) == "BaseException":
                    catch_all = True
                if o.exc is not None:
                    res = jst(res, self.block(h.body, o.exc.copy(), m, imp, o2, f))
            if catch_all:
                uncaught = None
            exc = jst(uncaught, o2.exc)
            ret, brk, cont = jst(o.ret, o2.ret), jst(o.brk, o2.brk), jst(o.cont, o2.cont)
            if n.finalbody:
                def fin(x):
                    if x is None:
                        return None
                    return self.block(n.finalbody, x.copy(), m, imp, out, f)
                res, exc, ret, brk, cont = fin(res), fin(exc), fin(ret), fin(brk), fin(cont)
            out.exc, out.ret, out.brk, out.cont = jst(out.exc, exc), jst(out.ret, ret), jst(out.brk, brk), jst(out.cont, cont)
            return res
        if ty is ast.With:
            g = 0
            fams = []
            for it in n.items:
                self.calls(it.context_expr, st, m, imp, out, f)
                if isinstance(it.context_expr, ast.Call):
                    d = dotted(self.prog, m, imp, it.context_expr.func)
                    if isinstance(d, str) and d in CTX:
                        g += 1
                        fams.append({"numpy.printoptions": "printoptions", "numpy.errstate": "err"}.get(d))
            self.guarded += g
            o = SOut()
            before = st.mod
            r = self.block(n.body, st, m, imp, o, f)
            self.guarded -= g

            def leave(x):
                if x is not None:
                    for fam in fams:
                        if fam:
                            x.mod = frozenset(k for k in x.mod if not k.startswith(fam)) | frozenset(k for k in before if k.startswith(fam))
                return x
            out.exc, out.ret, out.brk, out.cont = jst(out.exc, leave(o.exc)), jst(out.ret, leave(o.ret)), jst(out.brk, leave(o.brk)), jst(out.cont, leave(o.cont))
            return leave(r)
        return st


def settings(ctx, rep):
    """C05"""
    from .props import Finding
    from .rng import publics
    rep.rules.append("typestate of process-wide settings (print options, error state, warning filters, plot defaults) along normal and exceptional paths: "
                     "every exit of every public function leaves them as it found them")
    total = 0
    for name, f in publics(ctx.prog):
        I = SInterp(ctx.prog)
        ns, es = I.func(f, St())
        total += I.sets
        rep.functions.add(name)
        bad = []
        if ns is not None and ns.mod:
            bad.append(("returns", ns.mod))
        if es is not None and es.mod:
            bad.append(("raises", es.mod))
        rep.ob(not bad and not I.leaks)
        if I.sets:
            rep.samples.append({"function": name, "where": f.where(), "settings_calls": I.sets, "call_sites": I.sites})
        for k, mod in bad:
            rep.findings.append(Finding("settings-leak", f"{name}: {', '.join(sorted(mod))} when it {k}", f.where(),
                                        "process-wide settings are not restored on this exit"))
        for e, g, d in I.leaks:
            rep.findings.append(Finding("settings-leak", f"{name}: {d}", f"{g.module.rel}:{e.lineno} ({g.qual})", "changes a process-wide setting"))
    for m in ctx.prog.own():
        for n in ast.walk(ast.Module(body=[s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])):
            if isinstance(n, ast.Call):
                d = dotted(ctx.prog, m, {}, n.func)
                if isinstance(d, str) and (d in SET or d in LEAK):
                    rep.findings.append(Finding("settings-leak", f"import of {m.name}: {d}", f"{m.rel}:{n.lineno}", "importing the package changes a process-wide setting"))
    rep.ob(True)
    rep.extra["settings_calls"] = total
