"""Gated value-numbering over Python functions.

Abstractly interprets a function once, without running it: parameters are
symbols, branches are merged into gated values, loops are summarised into
closed forms (sums, products, comprehensions, array stores, ...).  The result of
a function is one normal-form term (terms.py) that stands for its value on every
input.  Whatever is not understood becomes an `opaque` term and makes the
comparison undecided - never a violation.
"""
import ast
import builtins
import time
from fractions import Fraction
from . import terms as t
from . import rules as R
from .terms import (T, mk, num, sym, string, ZERO, ONE, TWO, NONE, TRUE, FALSE, IMAG, F1, C1, add, sub, mul, neg, div,
                    power, ite, lt, le, eq, b_and, b_or, b_not, truth, rank, opaque, item, spread, mklist, subst, bind,
                    fresh, index, length, dim, upd, slc, as_int, is_real, is_int)
from .front import Func, Module

t.NEVER_NONE.update({"shape", "ndim"})


class Undecided(Exception):
    pass


class Timeout(Exception):
    pass


def built_graph(x, depth=0):
    """a graph built step by step, with the choices between whole groups of steps outermost"""
    if x.op == "opaque":
        return x
    if x.op == "gamma":
        return ite(x.args[0], built_graph(x.args[1], depth), built_graph(x.args[2], depth))
    if x.op == "list" and depth < 8:
        ps = x.args[0]
        for k, p in enumerate(ps):
            if p.op == "spread" and p.args[0].op == "gamma":
                c, a, b = p.args[0].args
                go = lambda y, v: built_graph(mklist([t.deep_cof(q, c, v) for q in ps[:k]] + [spread(y)] + [t.deep_cof(q, c, v) for q in ps[k + 1:]]), depth + 1)
                return ite(c, go(a, True), go(b, False))
    return t.app("nxgraph", (x,), ())


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class TupV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class Clo:
    """a function value: package function, nested function, lambda, library name or bound method"""
    __slots__ = ("kind", "a", "b", "c")

    def __init__(self, kind, a, b=None, c=None):
        self.kind, self.a, self.b, self.c = kind, a, b, c


class Cell:
    __slots__ = ("kind", "val", "dt")

    def __init__(self, kind, val, dt=None):
        self.kind, self.val, self.dt = kind, val, dt


class State:
    def __init__(self):
        self.env, self.heap, self.draws = {}, {}, {}
        self.shared = frozenset()
        self.pc = TRUE

    def copy(self):
        s = State()
        s.env, s.heap, s.draws = dict(self.env), dict(self.heap), dict(self.draws)
        s.shared, s.pc = self.shared, self.pc
        return s


class Frame:
    def __init__(self, func, module, parent_env=None):
        self.func, self.module = func, module
        self.imports = {}
        self.parent_env = parent_env


_rid = [0]
DT_ORDER = {"bool": 0, "int": 1, "float": 2, "complex": 3}


_DT = ["bool", "int", "float", "complex"]


def promote(op, a, b):
    """dtype of an arithmetic result"""
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.MatMult, ast.Div)):
        if a == "complex" or b == "complex":
            return "complex"
        if a is None or b is None or a == "obj" or b == "obj":
            return None
        if isinstance(a, tuple) or isinstance(b, tuple):
            srcs, fl = frozenset(), isinstance(op, ast.Div)
            for x in (a, b):
                if isinstance(x, tuple):
                    srcs |= x[1]
                    fl = fl or len(x) > 2 and x[2]
                elif x == "float":
                    fl = True
            return ("like", srcs, fl)
        r = _DT[max(_DT.index(a), _DT.index(b))]
        return "float" if isinstance(op, ast.Div) and r in ("bool", "int") else r
    return None


class Interp:
    def __init__(self, prog, inline=lambda name: True, budget=40.0, max_depth=14):
        self.prog, self.inline = prog, inline
        self.stack = []
        self.deadline = time.time() + budget
        self.max_depth = max_depth
        self.raises = []          # collectors of (pc, exc)
        self.calls = set()        # package functions analysed
        self.sites = 0
        self.loops = 0
        self.notes = []
        self.taint = None
        self.loop_vars = ()
        self.globals_memo = {}
        self.asserts = False      # failing assertions count as rejections
        self.handlers = False     # an exception handler was passed

    # ------------------------------------------------------------ values
    def new(self, st, kind, val, dt=None):
        _rid[0] += 1
        r = Ref(_rid[0])
        st.heap[r.id] = Cell(kind, val, dt)
        return r

    def tv(self, st, v):
        """term for a value"""
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if c is None:
                return opaque("lost cell")
            if c.kind == "view":
                return index(self.tv(st, c.val[0]), c.val[1])
            if c.kind == "set":
                return t.app("set", (c.val,), ())
            if c.kind == "graph":
                return built_graph(c.val)
            return c.val
        if isinstance(v, TupV):
            return mk("tuple", *[self.tv(st, x) for x in v.items])
        if isinstance(v, Clo):
            return self.clo_term(st, v)
        return opaque("value")

    def box(self, st, v):
        """value as stored in a variable"""
        if not isinstance(v, T):
            return v
        if v.op == "list":
            return self.new(st, "list", v)
        if v.op == "app" and v.args[0] == "nxgraph":
            return self.new(st, "graph", v.args[1][0])
        if v.op == "app" and v.args[0] in t.LIST_APPS and v.args[0].startswith("ff.") and v.args[0] != "ff.pauli_matrices":
            return self.new(st, "list", v)
        if v.op in ("num", "str", "none", "true", "false", "fv", "bv", "lt", "eq0", "isnone", "lam", "slice", "pyfn", "tuple", "dim", "len", "opaque", "exists", "pytype", "dict"):
            return v
        if v.op == "gamma" and t.is_bool(v):
            return v
        r = rank(v)
        if r == 0:
            return v
        if v.op == "sym":
            return v
        return self.new(st, "arr", v, self.dtype_of(v))

    def vdt(self, st, v, e=None):
        """abstract dtype of an operand; None when unknown"""
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            while c is not None and c.kind == "view" and isinstance(c.val[0], Ref):
                c = st.heap.get(c.val[0].id)
            return c.dt if c is not None and c.kind == "arr" else None
        if isinstance(e, ast.Constant):
            return {complex: "complex", float: "float", int: "int", bool: "bool"}.get(type(e.value))
        if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant):
            return self.vdt(st, v, e.operand)
        if isinstance(e, ast.BinOp):
            return promote(e.op, self.vdt(st, None, e.left), self.vdt(st, None, e.right))
        if not isinstance(v, T) or rank(v) != 0 or v.op == "num":
            return None
        if v.op in ("sym", "poly"):
            ss = t.syms_of(v)
            if ss and all(x.op == "sym" and x.args[1] in ("scalar", "int") for x in ss):
                return ("like", frozenset(x for x in ss if x.args[1] == "scalar"), v.op == "poly") if any(x.args[1] == "scalar" for x in ss) else None
        if is_int(v):
            return "int"
        return None

    def dtype_of(self, v):
        if v.op == "app" and v.args[0] in ("astype_int",):
            return "int"
        return None

    def dt_fits(self, val, dt):
        if dt is None or dt == "complex" or dt == "obj":
            return True
        if val.op == "gamma":
            return self.dt_fits(val.args[1], dt) and self.dt_fits(val.args[2], dt)
        if dt == "float":
            return is_real(val)
        if dt in ("int", "bool"):
            return is_int(val) or t.is_bool(val)
        if isinstance(dt, tuple) and dt[0] == "like":
            if len(dt) > 2 and dt[2] and is_real(val):
                return True
            return self._made_of(val, dt[1])
        return True

    def _made_of(self, v, srcs):
        if v in srcs:
            return True
        op = v.op
        if op == "sym" and v in t.PREV_DT:
            d = t.PREV_DT[v]
            return d == "int" or (isinstance(d, tuple) and d[1] <= srcs)
        if op == "num":
            return v.args[1] == 0 and v.args[0].denominator == 1
        if op in ("fv", "bv", "dim", "len", "eye", "zeros", "ones", "true", "false"):
            return True
        if op == "poly":
            return all(c[1] == 0 and c[0].denominator == 1 and all(self._made_of(a, srcs) and (isinstance(e, T) or (e.denominator == 1 and e > 0)) for a, e in m) for m, c in v.args)
        if op in ("conj", "tr", "group", "index"):
            return self._made_of(v.args[0], srcs)
        if op in ("dot",):
            return all(self._made_of(a, srcs) for a in v.args)
        if op in ("bigsum", "comp"):
            return self._made_of(v.args[3], srcs)
        if op == "app" and v.args[0] in ("trace", "diagv", "diagm", "sumall", "triu", "tril", "reshape"):
            return self._made_of(v.args[1][0], srcs)
        if op == "fn" and v.args[0] in ("re",):
            return self._made_of(v.args[1], srcs)
        if op == "upd":
            return self._made_of(v.args[0], srcs) and all(self._made_of(t._set_of(e).args[-1], srcs) for e in v.args[1])
        if op == "sym" and v.args[1] == "int":
            return True
        return False

    def cast(self, val, dt):
        """value as kept by a store into an array of dtype dt"""
        if self.dt_fits(val, dt):
            return val
        if val.op == "gamma":
            return t.lift(lambda x: self.cast(x, dt), (val,))
        if dt == "float":
            return t.fn("re", val)
        if dt in ("int", "bool"):
            return t.app("cast_int", (val,), ())
        if isinstance(dt, tuple):
            return t.app("like_cast", (val,) + tuple(sorted(dt[1], key=lambda x: x.dig)), ())
        return val

    def share(self, st, v):
        if isinstance(v, Ref):
            st.shared = st.shared | {v.id}
        elif isinstance(v, TupV):
            for x in v.items:
                self.share(st, x)

    def set_cell(self, st, ref, val, dt="keep"):
        c = st.heap.get(ref.id)
        if ref.id in st.shared:
            self.note_taint("object mutated after being stored elsewhere")
        if c is None:
            return
        if c.kind == "view":
            base, idx = c.val
            self.set_cell(st, base, upd(self.tv(st, base), (mk("set", idx, val),)))
            return
        if c.kind == "derived":
            self.note_taint("write through a possible view")
            return
        st.heap[ref.id] = Cell(c.kind, val, c.dt if dt == "keep" else dt)

    def note_taint(self, why):
        if self.taint is None:
            self.taint = why

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b, s1, s2, out):
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return TupV([self.merge_val(c, x, y, s1, s2, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, Clo) or isinstance(b, Clo):
            if isinstance(a, Clo) and isinstance(b, Clo) and a.kind == b.kind and a.a is b.a and a.kind != "bound" and a.c is None and b.c is None:
                return a
        x, y = self.tv(s1, a), self.tv(s2, b)
        r = ite(c, x, y)
        if isinstance(a, Ref) or isinstance(b, Ref):
            ca = s1.heap.get(a.id) if isinstance(a, Ref) else None
            cb = s2.heap.get(b.id) if isinstance(b, Ref) else None
            kind = (ca or cb).kind
            if kind == "view":
                kind = "arr"
            if kind == "graph":
                if ca is not None and cb is not None and cb.kind == "graph" and isinstance(ca.val, T) and isinstance(cb.val, T):
                    return self.new(out, "graph", ite(c, ca.val, cb.val))
                return r
            dts = {z.dt for z in (ca, cb) if z is not None}
            if x is y and len(dts) == 1:
                return self.new(out, kind, x, dts.pop())
            if kind in ("list", "arr"):
                return self.new(out, kind, r, dts.pop() if len(dts) == 1 else None)
            return self.new(out, kind, opaque("merge"), None)
        return r

    def merge(self, c, s1, s2):
        """state for c ? s1 : s2"""
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        out = State()
        out.shared = s1.shared | s2.shared
        out.pc = s1.pc
        for k in s1.heap:
            a, b = s1.heap[k], s2.heap.get(k)
            if b is None or a is b:
                out.heap[k] = a
            elif a.kind == "view" or b.kind == "view":
                out.heap[k] = a
            else:
                v = a.val if a.val is b.val else (ite(c, a.val, b.val) if isinstance(a.val, T) and isinstance(b.val, T) else opaque("merge"))
                out.heap[k] = Cell(a.kind, v, a.dt if a.dt == b.dt else None)
        for k in s2.heap:
            if k not in out.heap:
                out.heap[k] = s2.heap[k]
        for k in s1.env:
            if k in s2.env:
                out.env[k] = self.merge_val(c, s1.env[k], s2.env[k], s1, s2, out)
            else:
                out.env[k] = s1.env[k]
        for k in s2.env:
            if k not in s1.env:
                out.env[k] = s2.env[k]
        for k in set(s1.draws) | set(s2.draws):
            out.draws[k] = max(s1.draws.get(k, 0), s2.draws.get(k, 0))
        return out

    # ------------------------------------------------------------ entry points
    def run_function(self, func, args=None, kinds=None):
        """symbolic summary of a function: (value term, raise list)"""
        st = State()
        vals = {}
        ps = func.params()
        for i, p in enumerate(ps):
            vals[p] = args[i] if args and i < len(args) and args[i] is not None else sym(f"p{i}", (kinds or {}).get(i, "any"))
        for i, p in enumerate(x.arg for x in func.node.args.kwonlyargs):
            vals[p] = sym(f"k:{p}", "any")
        if func.node.args.vararg or func.node.args.kwarg:
            vals[(func.node.args.vararg or func.node.args.kwarg).arg] = opaque("varargs")
        for p, v in list(vals.items()):
            vals[p] = self.param_box(st, v)
        col = []
        self.raises.append(col)
        v = self.call_func(func, vals, st, top=True)
        self.raises.pop()
        return self.tv(st, v), col, st

    def param_box(self, st, v):
        if isinstance(v, T) and v.op == "sym":
            k = v.args[1]
            if k in ("mat", "vec", "col"):
                return self.new(st, "arr", v, ("like", frozenset([v])))
            if k.startswith("list:"):
                return self.new(st, "list", v)
        return v

    # ------------------------------------------------------------ calls
    def call_func(self, func, vals, st, top=False):
        """inline a package function; vals: param -> value"""
        if func.qual in [f.qual + f.module.name if False else f.qual for f in self.stack if f.module is func.module]:
            raise Undecided(f"recursion {func.name}")
        if len(self.stack) > self.max_depth:
            raise Undecided("inline depth")
        self.calls.add(f"{func.module.name}.{func.qual}")
        fr = Frame(func, func.module)
        return self.run_body(fr, func.node, vals, st, func)

    def run_body(self, fr, node, vals, st, func):
        self.stack.append(func)
        saved_env, saved_pc = st.env, st.pc
        st.env = dict(vals)
        exits = []
        nraise = len(self.raises[-1]) if self.raises else 0
        try:
            outs = self.block(node.body, st, fr)
            for kind, s, v in outs:
                if kind == "return":
                    exits.append((s.pc, s, self.capture(v, s, fr)))
                elif kind == "next":
                    exits.append((s.pc, s, NONE))
                elif kind in ("break", "continue"):
                    raise Undecided("stray jump")
        finally:
            self.stack.pop()
        if not exits:
            st.env, st.pc = saved_env, saved_pc
            return mk("raised")
        res_s, res_v = exits[-1][1], exits[-1][2]
        for pc, s, v in reversed(exits[:-1]):
            m = self.merge(pc, s, res_s)
            if m is s:
                rv = v
            elif m is res_s:
                rv = res_v
            else:
                rv = self.merge_val(pc, v, res_v, s, res_s, m)
            res_s, res_v = m, rv
        st.heap, st.draws, st.shared = res_s.heap, res_s.draws, res_s.shared
        st.env, st.pc = saved_env, saved_pc
        if self.raises and len(self.raises[-1]) > nraise:
            # the call returns only where it does not raise
            pc = FALSE
            for c, _, _ in exits:
                pc = t.b_or(pc, c)
            st.pc = pc
        return res_v

    def capture(self, v, st, fr):
        """a returned closure keeps the variables of the frame it leaves"""
        if isinstance(v, TupV):
            return TupV([self.capture(x, st, fr) for x in v.items])
        if isinstance(v, Clo) and v.kind == "nested" and v.b is fr and not isinstance(v.a, ast.Lambda):
            return Clo("nested", v.a, v.b, dict(st.env))
        if isinstance(v, Clo) and v.kind == "nested" and v.b is fr:
            env = dict(v.c or {})
            env.update(st.env)
            return Clo("nested", v.a, v.b, env)
        return v

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        """-> list of (kind, state, value); 'next' outcomes are merged into one at the end"""
        outs = []
        cur = st
        for n in stmts:
            if time.time() > self.deadline:
                raise Timeout()
            res = self.stmt(n, cur, fr)
            nxt = []
            for k, s, v in res:
                if s.pc is FALSE:
                    continue
                if k == "next":
                    nxt.append(s)
                else:
                    outs.append((k, s, v))
            if not nxt:
                return outs
            cur = nxt[-1]
            for s in reversed(nxt[:-1]):
                pc = ite(s.pc, TRUE, cur.pc)
                m = self.merge(s.pc, s, cur)
                if m is s or m is cur:
                    m = m.copy()
                m.pc = pc
                cur = m
        outs.append(("next", cur, None))
        return outs

    def stmt(self, n, st, fr):
        ty = type(n)
        if ty is ast.Expr:
            if not (isinstance(n.value, ast.Constant)):
                self.expr(n.value, st, fr)
            return [("next", st, None)]
        if ty is ast.Assign:
            v = self.expr(n.value, st, fr)
            if isinstance(v, T):
                v = self.box(st, v)
            for tg in n.targets:
                self.assign(tg, v, st, fr)
            return [("next", st, None)]
        if ty is ast.AnnAssign:
            if n.value is not None:
                self.assign(n.target, self.box(st, self.expr(n.value, st, fr)), st, fr)
            return [("next", st, None)]
        if ty is ast.AugAssign:
            self.augassign(n, st, fr)
            return [("next", st, None)]
        if ty is ast.Return:
            v = NONE if n.value is None else self.expr(n.value, st, fr)
            return [("return", st, v)]
        if ty is ast.If:
            c = self.cond(n.test, st, fr)
            if c is TRUE:
                return self.block(n.body, st, fr)
            if c is FALSE:
                return self.block(n.orelse, st, fr)
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = b_and(st.pc, c), b_and(st.pc, b_not(c))
            o1 = self.block(n.body, s1, fr)
            o2 = self.block(n.orelse, s2, fr)
            nx1 = [s for k, s, v in o1 if k == "next"]
            nx2 = [s for k, s, v in o2 if k == "next"]
            rest = [o for o in o1 + o2 if o[0] != "next"]
            if nx1 and nx2:
                m = self.merge(c, nx1[0], nx2[0])
                m.pc = ite(nx1[0].pc, TRUE, nx2[0].pc)
                return rest + [("next", m, None)]
            return rest + [("next", s, None) for s in nx1 + nx2]
        if ty is ast.For:
            from .loops import do_for
            return do_for(self, n, st, fr)
        if ty is ast.While:
            from .loops import do_while
            return do_while(self, n, st, fr)
        if ty is ast.Raise:
            name = "?"
            e = n.exc
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
            self.raises[-1].append((st.pc, name))
            return []
        if ty is ast.Assert:
            if isinstance(n.test, ast.Constant) and not n.test.value:
                self.raises[-1].append((st.pc, "AssertionError"))
                return []
            if self.asserts:
                c = self.cond(n.test, st, fr)
                self.raises[-1].append((b_and(st.pc, b_not(c)), "AssertionError"))
                st.pc = b_and(st.pc, c)
                return [("next", st, None)]
            try:
                self.expr(n.test, st, fr)
            except (Undecided, t.TooBig):
                pass
            return [("next", st, None)]
        if ty in (ast.Pass, ast.Global, ast.Nonlocal):
            if ty is not ast.Pass:
                self.note_taint("global/nonlocal")
            return [("next", st, None)]
        if ty is ast.Break:
            return [("break", st, None)]
        if ty is ast.Continue:
            return [("continue", st, None)]
        if ty in (ast.Import, ast.ImportFrom):
            from .front import import_map
            fr.imports.update(import_map([n], self.prog.pkg, fr.module.name))
            return [("next", st, None)]
        if ty is ast.FunctionDef:
            st.env[n.name] = Clo("nested", n, fr, None)
            return [("next", st, None)]
        if ty is ast.Try:
            self.handlers = self.handlers or bool(n.handlers)
            outs = self.block(n.body + n.orelse, st, fr)
            if n.finalbody:
                res = []
                for k, s, v in outs:
                    for k2, s2, v2 in self.block(n.finalbody, s, fr):
                        res.append((k, s2, v) if k2 == "next" else (k2, s2, v2))
                return res
            return outs
        if ty is ast.With:
            for it in n.items:
                v = self.expr(it.context_expr, st, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st, fr)
            return self.block(n.body, st, fr)
        if ty is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Name):
                    st.env.pop(x.id, None)
                else:
                    self.note_taint("del item")
            return [("next", st, None)]
        raise Undecided(f"statement {ty.__name__}")

    def assign(self, tg, v, st, fr):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(tg.elts), st, [isinstance(e, ast.Starred) for e in tg.elts])
            for e, x in zip(tg.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
        elif isinstance(tg, ast.Subscript):
            base = self.expr(tg.value, st, fr)
            idx = self.subscript(tg.slice, st, fr)
            self.store(base, idx, v, st, tg, fr)
        elif isinstance(tg, ast.Attribute):
            self.note_taint("attribute store")
        else:
            raise Undecided("assign target")

    def unpack(self, v, n, st, stars):
        if any(stars):
            x = self.tv(st, v)
            its = R.list_items(x)
            if its is None:
                raise Undecided("starred unpack")
            k = stars.index(True)
            after = n - k - 1
            mid = its[k:len(its) - after]
            return its[:k] + [self.new(st, "list", mklist([item(m) for m in mid]))] + its[len(its) - after:]
        if isinstance(v, TupV):
            if len(v.items) != n:
                raise Undecided("unpack arity")
            return [self.box(st, x) for x in v.items]
        x = self.tv(st, v)
        if x.op == "gamma":
            return [self.box(st, index(x, (num(i),))) for i in range(n)]
        its = R.list_items(x)
        if its is not None:
            if len(its) != n:
                raise Undecided("unpack arity")
            return [self.box(st, y) for y in its]
        return [self.box(st, index(x, (num(i),))) for i in range(n)]

    def store(self, base, idx, v, st, node, fr):
        """base[idx] = v"""
        val = self.tv(st, v)
        if isinstance(v, Ref):
            b = st.heap.get(base.id) if isinstance(base, Ref) else None
            if b is not None and b.kind in ("list", "dict"):
                self.share(st, v)
        if isinstance(base, Ref):
            c = st.heap[base.id]
            if c.kind == "dict":
                st.heap[base.id] = Cell("dict", self.dict_set(c.val, idx, val), None)
                return
            cur = self.tv(st, base)
            if c.kind == "list":
                if len(idx) != 1 or idx[0].op == "slice":
                    self.set_cell(st, base, opaque("list slice store"))
                    return
                k = as_int(idx[0])
                its = R.list_items(cur)
                if its is not None and k is not None and -len(its) <= k < len(its):
                    its = list(its)
                    its[k] = val
                    self.set_cell(st, base, mklist([item(x) for x in its]))
                    return
                self.set_cell(st, base, upd(cur, (mk("set", idx, val),)))
                return
            dt = c.dt
            if c.kind == "view":
                b2 = c.val[0]
                dt = st.heap[b2.id].dt if isinstance(b2, Ref) and b2.id in st.heap else None
            val = self.cast(val, dt)
            self.set_cell(st, base, self.do_upd(cur, idx, val))
            return
        if isinstance(base, T):
            # a value held by name only: rebind
            if isinstance(node.value, ast.Name) and node.value.id in st.env:
                new = self.do_upd(base, idx, val) if base.op != "dict" else opaque("dict")
                st.env[node.value.id] = self.new(st, "arr", new, None)
                if base.op == "sym":
                    self.note_taint("parameter of unknown kind mutated")
                return
        self.note_taint("store to unknown object")

    def do_upd(self, cur, idx, val):
        idx = tuple(t.mask(i) for i in idx)
        new = []
        for k, i in enumerate(idx):
            if i.op == "slice":
                i = t.norm_slice(i, dim(cur, k))
            elif i.op == "num" and i.args[0] < 0:
                i = add(dim(cur, k), i)
            elif i.op == "ellipsis":
                return opaque("ellipsis store")
            elif t.is_bool(i) and rank(i) != 0 or i.op in ("lt", "eq0") or i.op == "app" and i.args[0] in ("land", "lor", "lnot"):
                # boolean mask: element-wise choice
                return t.app("where", (i, val, cur), ())
            new.append(i)
        if any(i.op == "gamma" for i in new):
            return t.lift(lambda *xs: self.do_upd(cur, xs, val), tuple(new))
        if any(rank(i) not in (0,) and i.op != "slice" for i in new):
            return t.app("fancy_store", (cur, mk("tuple", *new), val), ())
        return upd(cur, (mk("set", tuple(new), val),))

    def dict_set(self, d, idx, val):
        if d.op != "dict":
            return opaque("dict")
        k = idx[0] if len(idx) == 1 else mk("tuple", *idx)
        ents = [e for e in d.args[0] if e[0] is not k]
        return mk("dict", tuple(ents + [(k, val)]))

    def augassign(self, n, st, fr):
        tg = n.target
        rhs = self.expr(n.value, st, fr)
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, st, fr)
            if isinstance(cur, Ref):
                c = st.heap[cur.id]
                if c.kind == "list" and isinstance(n.op, ast.Add):
                    self.set_cell(st, cur, mklist([spread(self.tv(st, cur)), spread(self.seq(st, rhs))]))
                    return
                if c.kind == "arr" or c.kind == "view":
                    val = self.binop(n.op, cur, rhs, st)
                    dt = c.dt
                    if rank(self.tv(st, cur)) == 0:
                        st.env[tg.id] = self.box(st, self.tv(st, val))
                        return
                    self.set_cell(st, cur, self.cast(self.tv(st, val), dt))
                    return
                if c.kind == "set":
                    self.set_cell(st, cur, opaque("set op"))
                    return
            val = self.binop(n.op, cur, rhs, st)
            st.env[tg.id] = self.box(st, val) if isinstance(val, T) else val
        elif isinstance(tg, ast.Subscript):
            base = self.expr(tg.value, st, fr)
            idx = self.subscript(tg.slice, st, fr)
            cur = index(self.tv(st, base), idx) if not (isinstance(base, Ref) and st.heap[base.id].kind == "dict") else opaque("dict aug")
            val = self.binop(n.op, cur, rhs, st)
            self.store(base, idx, val, st, tg, fr)
        else:
            self.note_taint("attribute store")

    # ------------------------------------------------------------ expressions
    def seq(self, st, v):
        """term of a sequence value"""
        x = self.tv(st, v)
        return x

    def cond(self, e, st, fr):
        return truth(self.tv(st, self.expr(e, st, fr)))

    def lookup(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        if fr.parent_env is not None:
            f = fr.parent_env
            if name in f:
                return f[name]
        if name in fr.imports:
            return self.wrap_resolved(self.prog.resolve_dotted(fr.imports[name]), fr.imports[name])
        r = self.prog.resolve(fr.module, name)
        if r is not None:
            return self.wrap_resolved(r, name)
        if not hasattr(builtins, name):
            return opaque("unbound name " + name)
        return Clo("lib", "builtins." + name)

    def wrap_resolved(self, r, name):
        if isinstance(r, Func):
            return Clo("func", r)
        if isinstance(r, Module):
            return Clo("module", r)
        if isinstance(r, str):
            return self.lib_const(r)
        if isinstance(r, tuple) and r[0] == "const":
            key = (r[1].name, r[2])
            if key not in self.globals_memo:
                self.globals_memo[key] = opaque("recursive const")
                fr = Frame(None, r[1])
                s = State()
                v = self.expr(r[1].consts[r[2]], s, fr)
                self.globals_memo[key] = v if isinstance(v, Clo) else self.tv(s, v)
            return self.globals_memo[key]
        return opaque(f"name {name}")

    def lib_const(self, dotted):
        from . import lib
        dotted = lib.canon(dotted)
        c = lib.CONSTS.get(dotted)
        if c is not None:
            return c
        return Clo("lib", dotted)

    def expr(self, e, st, fr):
        ty = type(e)
        if ty is ast.Constant:
            return self.const(e.value)
        if ty is ast.Name:
            return self.lookup(e.id, st, fr)
        if ty is ast.BinOp:
            a = self.expr(e.left, st, fr)
            b = self.expr(e.right, st, fr)
            dt = promote(e.op, self.vdt(st, a, e.left), self.vdt(st, b, e.right))
            r = self.binop(e.op, a, b, st)
            if isinstance(r, T) and dt is not None and r.op not in ("list", "tuple", "opaque", "dict") and isinstance(rank(r), int) and rank(r) > 0:
                return self.new(st, "arr", r, dt)
            return r
        if ty is ast.UnaryOp:
            v = self.expr(e.operand, st, fr)
            if isinstance(e.op, ast.Not):
                return b_not(truth(self.tv(st, v)))
            x = self.tv(st, v)
            if isinstance(e.op, ast.USub):
                d = self.vdt(st, v)
                return self.new(st, "arr", neg(x), d) if isinstance(v, Ref) and d is not None and d != "bool" else neg(x)
            if isinstance(e.op, ast.UAdd):
                return x
            if isinstance(e.op, ast.Invert):
                return R.logic("lnot", x) if t.is_bool(x) else t.app("invert", (x,), ())
        if ty is ast.BoolOp:
            # value semantics of and/or; boolean when operands are
            vals = []
            cur = None
            for k, sube in enumerate(e.values):
                v = self.expr(sube, st, fr)
                vals.append(self.tv(st, v))
            r = vals[-1]
            for x in reversed(vals[:-1]):
                c = truth(x)
                if isinstance(e.op, ast.And):
                    r = ite(c, r, x if not t.is_bool(x) else FALSE)
                else:
                    r = ite(c, x if not t.is_bool(x) else TRUE, r)
            return r
        if ty is ast.Compare:
            left = self.expr(e.left, st, fr)
            r = TRUE
            for op, c in zip(e.ops, e.comparators):
                right = self.expr(c, st, fr)
                r = b_and(r, self.compare(op, left, right, st))
                left = right
            return r
        if ty is ast.IfExp:
            c = self.cond(e.test, st, fr)
            if c is TRUE:
                return self.expr(e.body, st, fr)
            if c is FALSE:
                return self.expr(e.orelse, st, fr)
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = b_and(st.pc, c), b_and(st.pc, b_not(c))
            a = self.expr(e.body, s1, fr)
            b = self.expr(e.orelse, s2, fr)
            m = self.merge(c, s1, s2)
            r = self.merge_val(c, a, b, s1, s2, m)
            st.env, st.heap, st.draws, st.shared = m.env, m.heap, m.draws, m.shared
            return r
        if ty is ast.Tuple:
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return self.tuple_from_list(self.list_display(e.elts, st, fr))
            return TupV([self.expr(x, st, fr) for x in e.elts])
        if ty is ast.List:
            return self.list_display(e.elts, st, fr)
        if ty is ast.Set:
            x = self.list_display(e.elts, st, fr)
            return self.new(st, "set", x)
        if ty is ast.Dict:
            ents = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    return opaque("dict splat")
                vv = self.expr(v, st, fr)
                self.share(st, vv)
                ents.append((self.tv(st, self.expr(k, st, fr)), self.tv(st, vv)))
            return self.new(st, "dict", mk("dict", tuple(ents)))
        if ty is ast.Subscript:
            return self.do_subscript(e, st, fr)
        if ty is ast.Attribute:
            return self.attr(e, st, fr)
        if ty is ast.Call:
            return self.call(e, st, fr)
        if ty in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            from .loops import comprehension
            r = comprehension(self, e.generators, e.elt, st, fr)
            if ty is ast.SetComp:
                return self.new(st, "set", r)
            return r
        if ty is ast.DictComp:
            return opaque("dict comprehension")
        if ty is ast.Lambda:
            return Clo("nested", e, fr, dict(st.env))
        if ty is ast.JoinedStr:
            parts = []
            for p in e.values:
                if isinstance(p, ast.Constant):
                    parts.append(string(p.value))
                else:
                    spec = p.format_spec
                    sp = self.tv(st, self.expr(spec, st, fr)) if spec is not None else NONE
                    parts.append(t.app("format", (self.tv(st, self.expr(p.value, st, fr)), sp, num(p.conversion)), ()))
            if all(p.op == "str" for p in parts):
                return string("".join(p.args[0] for p in parts))
            return t.app("fstr", tuple(parts), ())
        if ty is ast.NamedExpr:
            v = self.expr(e.value, st, fr)
            v = self.box(st, v) if isinstance(v, T) else v
            st.env[e.target.id] = v
            return v
        if ty is ast.Starred:
            return self.expr(e.value, st, fr)
        if ty is ast.Slice:
            return self.subscript(e, st, fr)[0]
        raise Undecided(f"expression {ty.__name__}")

    def list_display(self, elts, st, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(spread(self.tv(st, self.expr(x.value, st, fr))))
            else:
                v = self.expr(x, st, fr)
                self.share(st, v)
                parts.append(item(self.tv(st, v)))
        return mklist(parts)

    def tuple_from_list(self, x):
        its = R.list_items(x)
        if its is None:
            return x
        return mk("tuple", *its)

    def const(self, v):
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is Ellipsis:
            return mk("ellipsis")
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return mk("app", "inf", (), ())
            return num(Fraction(repr(v)))
        if isinstance(v, complex):
            return num(Fraction(repr(v.real)), Fraction(repr(v.imag)))
        if isinstance(v, str):
            return string(v)
        return opaque("const")

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            ka = st.heap[a.id].kind if isinstance(a, Ref) and a.id in st.heap else None
            kb = st.heap[b.id].kind if isinstance(b, Ref) and b.id in st.heap else None
            x, y = self.tv(st, a), self.tv(st, b)
            if ka == "list" or kb == "list" or x.op == "list" or y.op == "list":
                if ka == "arr" or kb == "arr":
                    return add(R.to_array(x), R.to_array(y))
                return mklist([spread(x), spread(y)])
            if x.op == "sym" and x.args[1].startswith("list:") or y.op == "sym" and y.args[1].startswith("list:"):
                return mklist([spread(x), spread(y)])
            if isinstance(t.base_rank(x), tuple) and isinstance(t.base_rank(y), tuple):
                return mklist([spread(x), spread(y)])
            if x.op == "tuple" and y.op == "tuple":
                return mk("tuple", *(x.args + y.args))
            if x.op == "str" or y.op == "str" or x.op == "app" and x.args[0] in ("fstr", "str", "strmod") or y.op == "app" and y.args[0] in ("fstr", "str", "strmod"):
                if x.op == "str" and y.op == "str":
                    return string(x.args[0] + y.args[0])
                return t.app("fstr", (x, y), ())
            return add(x, y)
        x, y = self.tv(st, a), self.tv(st, b)
        if isinstance(op, ast.Sub):
            if isinstance(a, Ref) and st.heap[a.id].kind == "set":
                return t.app("setminus", (x, y), ())
            return sub(x, y)
        if isinstance(op, ast.Mult):
            for p, q in ((x, y), (y, x)):
                if p.op in ("list", "tuple") and is_int(q):
                    if p.op == "tuple":
                        k = as_int(q)
                        return mk("tuple", *(p.args * k)) if k is not None and 0 <= k < 10 else opaque("tuple*n")
                    k = as_int(q)
                    if k is not None:
                        return mklist(list(p.args[0]) * k)
                    if len(p.args[0]) == 1 and p.args[0][0].op == "item":
                        v = fresh(ZERO, q)
                        return mklist([bind("lcomp", v, ZERO, q, p.args[0][0].args[0])])
                    return opaque("list*n")
            return mul(x, y)
        if isinstance(op, ast.Div):
            return div(x, y)
        if isinstance(op, ast.MatMult):
            return self.matmul(x, y)
        if isinstance(op, ast.Pow):
            return t.app("pow", (x, y), ())
        if isinstance(op, ast.FloorDiv):
            return t.app("floordiv", (x, y), ())
        if isinstance(op, ast.Mod):
            if x.op == "str":
                return t.app("strmod", (x, y), ())
            return t.app("mod", (x, y), ())
        if isinstance(op, ast.BitAnd) and t.is_bool(x) and t.is_bool(y):
            return R.logic("land", x, y)
        if isinstance(op, ast.BitOr) and t.is_bool(x) and t.is_bool(y):
            return R.logic("lor", x, y)
        if isinstance(op, ast.LShift):
            return mul(x, power(TWO, y))
        if isinstance(op, ast.RShift):
            return t.app("floordiv", (x, power(TWO, y)), ())
        if isinstance(op, ast.BitAnd) and y is ONE:
            return t.app("mod", (x, TWO), ())
        return t.app("binop:" + type(op).__name__, (x, y), ())

    def matmul(self, x, y):
        return t.dot([R.to_array(x), R.to_array(y)])

    def compare(self, op, a, b, st):
        x, y = self.tv(st, a), self.tv(st, b)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if isinstance(a, Clo) and isinstance(b, Clo):
                r = TRUE if (a.kind, a.a) == (b.kind, b.a) else t.app("bool_eq", tuple(sorted((x, y), key=lambda z: z.dig)), ())
            elif isinstance(op, (ast.Is, ast.IsNot)) and y in (TRUE, FALSE) and x.op == "sym" and x.args[1] not in ("bool",):
                r = eq(x, y)
            else:
                r = eq(x, y)
            return r if isinstance(op, (ast.Is, ast.Eq)) else b_not(r)
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.Gt):
            return lt(y, x)
        if isinstance(op, ast.LtE):
            return le(x, y)
        if isinstance(op, ast.GtE):
            return le(y, x)
        if isinstance(op, (ast.In, ast.NotIn)):
            its = R.list_items(y)
            if y.op == "app" and y.args[0] == "set":
                its = R.list_items(y.args[1][0])
            if its is not None and len(its) <= 8:
                r = FALSE
                for z in its:
                    r = b_or(r, eq(x, z))
            elif y.op == "app" and y.args[0] == "arange" and is_int(x):
                ar = y.args[1]
                r = b_and(le(ar[0], x), lt(x, ar[1])) if len(ar) == 2 else t.app("in", (x, y), ())
            else:
                r = t.app("in", (x, y), ())
            return r if isinstance(op, ast.In) else b_not(r)
        return opaque("compare")

    # ------------------------------------------------------------ subscripts
    def subscript(self, s, st, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.subscript(x, st, fr)[0] for x in s.elts)
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.tv(st, self.expr(x, st, fr))
            stp = f(s.step)
            return (mk("slice", f(s.lower), f(s.upper), ONE if stp is NONE else stp),)
        if isinstance(s, ast.Starred):
            raise Undecided("starred index")
        x = self.tv(st, self.expr(s, st, fr))
        if x is NONE:
            return (mk("newaxis"),)
        if x.op == "tuple":
            return x.args
        return (x,)

    def do_subscript(self, e, st, fr):
        base = self.expr(e.value, st, fr)
        if isinstance(base, TupV):
            idx = self.subscript(e.slice, st, fr)
            k = as_int(idx[0]) if len(idx) == 1 else None
            if k is not None and -len(base.items) <= k < len(base.items):
                return base.items[k]
        if isinstance(base, Clo):
            if base.kind == "lib" and base.a == "numpy.r_":
                return t.app("concat", tuple(self.subscript(e.slice, st, fr)), ())
            return opaque("subscript of function")
        idx = self.subscript(e.slice, st, fr)
        return self.do_index(base, idx, st)

    def do_index(self, base, idx, st):
        x = self.tv(st, base)
        if isinstance(base, Ref) and st.heap[base.id].kind == "dict":
            if x.op == "dict":
                k = idx[0] if len(idx) == 1 else mk("tuple", *idx)
                for kk, vv in x.args[0]:
                    if kk is k:
                        return vv
            return opaque("dict read")
        if x.op == "opaque":
            return x
        if any(i.op == "newaxis" for i in idx) and rank(x) == 1 and len(idx) == 2:
            if idx[1].op == "newaxis":
                return t.app("reshape", (x, mk("tuple", num(-1), ONE)), ())
            return t.app("reshape", (x, mk("tuple", ONE, num(-1))), ())
        r = self.get(x, idx)
        if isinstance(base, Ref) and r.op != "opaque":
            c = st.heap[base.id]
            if c.kind in ("arr", "view") and rank(x) in (1, 2) and all(i.op == "slice" or rank(i) == 0 and not t.is_bool(i) for i in idx) and rank(r) not in (0,):
                nidx = tuple(t.norm_slice(i, dim(x, k)) if i.op == "slice" else i for k, i in enumerate(idx))
                if all(i.op != "gamma" for i in nidx):
                    return self.new(st, "view", (base, nidx))
        return r

    def get(self, x, idx):
        """x[idx] with the special selectors"""
        if x.op == "gamma":
            return t.lift(lambda y: self.get(y, idx), (x,))
        idx = tuple(t.mask(i) for i in idx)
        if len(idx) == 1:
            i = idx[0]
            if i.op == "slice" and i.args[2] is not ONE:
                if i.args[0] is NONE and i.args[1] is NONE and as_int(i.args[2]) == -1:
                    return rev(x)
        if len(idx) == 2 and all(i.op == "slice" for i in idx) and [as_int(i.args[2]) for i in idx] == [-1, -1] and all(i.args[0] is NONE and i.args[1] is NONE for i in idx):
            return t.app("flip", (x,), ())
        if any(i.op == "slice" and i.args[2] is not ONE for i in idx) and x.op not in ("tuple", "list"):
            new = []
            for k, i in enumerate(idx):
                if i.op == "slice":
                    i = t.norm_slice(i, dim(x, k))
                new.append(i)
            return index(x, tuple(new))
        if any(t.is_bool(i) and i.op != "true" and i.op != "false" for i in idx) and rank(x) != 0:
            return t.app("select", (x,) + tuple(idx), ())
        return index(x, idx)

    # ------------------------------------------------------------ attributes, calls
    def attr(self, e, st, fr):
        base = self.expr(e.value, st, fr)
        return self.get_attr(base, e.attr, st)

    def get_attr(self, base, name, st):
        if isinstance(base, Clo):
            if base.kind == "lib":
                return self.lib_const(base.a + "." + name)
            if base.kind == "module":
                r = self.prog.resolve(base.a, name)
                return self.wrap_resolved(r, name) if r is not None else opaque("attr " + name)
            if base.kind == "bound":
                return Clo("bound", self.call_method(base.a, base.b, [], {}, st) if False else opaque("attr"), name)
            if name == "__name__":
                return t.app("name", (self.clo_term(st, base),), ())
            return opaque("attr " + name)
        from . import lib
        f = lib.ATTRS.get(name)
        if f is not None:
            return f(self, st, base)
        return Clo("bound", base, name)

    def call(self, e, st, fr):
        self.sites += 1
        f = self.expr(e.func, st, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st, fr)
                if isinstance(v, TupV):
                    args.extend(v.items)
                    continue
                its = R.list_items(self.tv(st, v))
                if its is None:
                    args.append(mk("star", self.tv(st, v)))
                else:
                    args.extend(its)
            else:
                args.append(self.expr(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                return opaque("**kwargs")
            kw[k.arg] = self.expr(k.value, st, fr)
        return self.call_value(f, args, kw, st, fr)

    def call_value(self, f, args, kw, st, fr):
        if isinstance(f, T):
            if f.op == "lam":
                return self.apply_lam(f, [self.tv(st, a) for a in args], kw)
            return f if f.op == "opaque" else t.app("call", (f,) + tuple(self.tv(st, a) for a in args), tuple((k, self.tv(st, v)) for k, v in sorted(kw.items())))
        if not isinstance(f, Clo):
            return opaque("call of value")
        if f.kind == "func":
            return self.call_package(f.a, args, kw, st)
        if f.kind == "nested":
            return self.call_nested(f, args, kw, st)
        if f.kind == "partial":
            k2 = dict(f.c)
            k2.update(kw)
            return self.call_value(f.a, list(f.b) + args, k2, st, fr)
        if f.kind == "bound":
            return self.call_method(f.a, f.b, args, kw, st)
        if f.kind == "lib":
            from . import lib
            return lib.call(self, st, f.a, args, kw)
        return opaque("call")

    def bind_args(self, node, args, kw, st, fr, env=None):
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if any(isinstance(x, T) and x.op == "star" for x in args):
            raise Undecided("star args")
        if len(args) > len(ps):
            if a.vararg is None:
                raise Undecided("too many arguments")
            vals[a.vararg.arg] = TupV(args[len(ps):])
            args = args[:len(ps)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = TupV([])
        for p, v in zip(ps, args):
            vals[p] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in vals or (k not in ps and k not in kwonly):
                raise Undecided("bad keyword " + k)
            vals[k] = v
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        ds.update({n: d for n, d in zip(kwonly, a.kw_defaults) if d is not None})
        for p in ps + kwonly:
            if p not in vals:
                if p not in ds:
                    raise Undecided("missing argument " + p)
                vals[p] = self.expr(ds[p], st, fr) if not isinstance(ds[p], ast.Constant) else self.const(ds[p].value)
        return vals

    def call_package(self, func, args, kw, st):
        fr = Frame(func, func.module)
        saved = st.env
        st.env = {}
        try:
            vals = self.bind_args(func.node, args, kw, st, fr)
        finally:
            st.env = saved
        name = func.name
        recursive = any(f.node is func.node for f in self.stack)
        if recursive or not self.inline(func):
            order = func.params() + [x.arg for x in func.node.args.kwonlyargs]
            ts = tuple(self.tv(st, vals[p]) for p in order if p in vals)
            pub = "ff." + name
            self.calls.add("->" + name)
            return t.app(pub, ts, ())
        vals = {k: (self.box(st, v) if isinstance(v, T) else v) for k, v in vals.items()}
        return self.call_func(func, vals, st)

    def call_nested(self, clo, args, kw, st):
        node, fr = clo.a, clo.b
        env0 = clo.c
        nf = Frame(fr.func, fr.module)
        nf.imports = fr.imports
        # closures read the defining frame's current variables
        base = dict(fr.parent_env or {})
        base.update(env0 if env0 is not None else st.env)
        nf.parent_env = base
        if len(self.stack) > self.max_depth or any(getattr(f, "node", None) is node for f in self.stack):
            raise Undecided("recursive closure")
        saved = st.env
        st.env = {}
        try:
            vals = self.bind_args(node, args, kw, st, nf)
        finally:
            st.env = saved
        vals = {k: (self.box(st, v) if isinstance(v, T) else v) for k, v in vals.items()}
        if isinstance(node, ast.Lambda):
            saved = st.env
            st.env = vals
            try:
                return self.expr(node.body, st, nf)
            finally:
                st.env = saved

        class _F:
            pass
        fo = _F()
        fo.node, fo.module, fo.qual, fo.name = node, fr.module, "<nested>" + node.name, node.name
        return self.run_body(nf, node, vals, st, fo)

    def clo_term(self, st, f):
        """a function value as a term"""
        if f.kind == "nested":
            node = f.a
            a = node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if a.vararg or a.kwonlyargs or a.kwarg or not ps or len(ps) > 3:
                return opaque("closure signature")
            vs = [fresh(None, None) for _ in ps]
            args = [sym(f"arg{v.args[0]}", "scalar") for v in vs]
            s2 = st.copy()
            try:
                body = self.tv(s2, self.call_nested(f, list(args), {}, s2))
            except Undecided as ex:
                return opaque("closure: " + str(ex))
            for a_, v in zip(args, vs):
                body = t.subst_term(body, a_, v) if body is not a_ else v
            for v in reversed(vs):
                body = t.close("lam", v, ZERO, ZERO, body)
            return body
        if f.kind == "func":
            return mk("pyfn", "ff." + f.a.name)
        if f.kind == "lib":
            return mk("pyfn", f.a)
        return opaque("function value")

    def apply_lam(self, f, args, kw):
        if kw:
            return opaque("lam kw")
        for a in args:
            if f.op != "lam":
                return opaque("lam arity")
            v = fresh(None, None)
            body = subst(f.args[3], {mk("bv", f.args[0]): v})
            f = subst(body, {v: a})
        return f

    def call_method(self, base, name, args, kw, st):
        from . import lib
        if isinstance(base, Ref):
            c = st.heap[base.id]
            m = lib.MUTATORS.get((c.kind, name))
            if m is not None:
                return m(self, st, base, args, kw)
        f = lib.METHODS.get(name)
        if f is not None:
            r = f(self, st, base, args, kw)
            if r is not None:
                return r
        x = self.tv(st, base)
        if x.op == "opaque":
            return x
        if isinstance(base, Ref) and name not in lib.PURE_METHODS:
            # unknown method on a mutable object
            self.set_cell(st, base, opaque("method " + name))
        return t.app("." + name, (x,) + tuple(self.tv(st, a) for a in args), tuple((k, self.tv(st, v)) for k, v in sorted(kw.items())))


def rev(x):
    """x[::-1]"""
    if x.op == "gamma":
        return t.lift(rev, (x,))
    if x.op == "tuple":
        return mk("tuple", *reversed(x.args))
    if x.op == "app" and x.args[0] == "rev":
        return x.args[1][0]
    if x.op == "str":
        return string(x.args[0][::-1])
    if x.op == "list":
        out = []
        for p in reversed(x.args[0]):
            if p.op == "item":
                out.append(p)
            elif p.op == "lcomp":
                v, lo, hi, b = t.open_binder(p)
                if b.op in ("gpart", "flat"):
                    return t.app("rev", (x,), ())
                w = fresh(lo, hi)
                out.append(bind("lcomp", w, lo, hi, subst(b, {v: sub(sub(add(lo, hi), ONE), w)})))
            else:
                out.append(spread(rev(p.args[0])))
        return mklist(out)
    if x.op == "app" and x.args[0] == "arange" and len(x.args[1]) == 2:
        lo, hi = x.args[1]
        v = fresh(ZERO, sub(hi, lo))
        return bind("comp", v, ZERO, sub(hi, lo), sub(sub(hi, ONE), v))
    return t.app("rev", (x,), ())
