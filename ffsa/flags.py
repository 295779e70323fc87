"""Verbosity and extra-output flags: the summaries for both settings must denote the same result.

First the value analysis: the function is summarised with the flag true and with
the flag false; equal normal forms show that the flag has no influence, and a
difference counts when it is confirmed on instances.  Functions the value
analysis cannot summarise get an information-flow analysis: from the flag
(explicit flow through assignments, implicit flow through branches it controls)
nothing may reach a returned value, a control transfer or an object that outlives
the branch.
"""
import ast
import itertools
import time
from . import compare, specs, refute, vflow
from . import terms as t
from .front import Func, Module, import_map
from .terms import TRUE, FALSE, ZERO, NONE

EXTRA = {"random_FF_state": ("returnH",), "random_FF_state_rotPDF": ("returnS",)}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update", "popitem", "setdefault", "remove_node", "remove_nodes_from", "add_node",
            "add_nodes_from", "add_edge", "add_edges_from", "add_weighted_edges_from", "remove_edge", "remove_edges_from", "fill", "resize", "itemset", "partition", "put", "setflags",
            "intersection_update", "difference_update", "symmetric_difference_update"}


def flags_of(prog):
    """[(function, flag, kind)]"""
    out = []
    for f in prog.all_funcs():
        if f.module.name.startswith("ffref"):
            continue
        for p in f.params():
            if p == "verbose":
                out.append((f, p, "verbose"))
            elif p in EXTRA.get(f.name, ()):
                out.append((f, p, "extra"))
    return out


def neutral(ctx, rep):
    rep.rules.append("each function is summarised with the flag on and off; the two values must be equal (first component when more output is requested); where no summary "
                     "exists, information flow from the flag must not reach results, control transfers or objects that outlive the branch")
    flow = Flow(ctx.prog)
    for f, p, kind in flags_of(ctx.prog):
        rep.functions.add(f.qual)
        v, why, detail = by_value(ctx, f, p, kind)
        if v == compare.UNDECIDED and kind == "verbose":
            bad = flow.check(f, p)
            if bad is None:
                rep.undecided.append(f"{f.qual}({p}): {why}")
                rep.ob(False)
                continue
            if bad == []:
                v, why = compare.HOLDS, "no information flow"
            else:
                v, why, detail = compare.VIOLATION, "the flag influences more than output", bad
        rep.ob(v == compare.HOLDS)
        if v == compare.HOLDS:
            rep.samples.append({"function": f.qual, "flag": p, "by": why})
        elif v == compare.VIOLATION:
            from .props import Finding
            rep.findings.append(Finding("flag", f"{f.qual}: {p}", f.where(), why, detail))
        else:
            rep.undecided.append(f"{f.qual}({p}): {why}")


# ------------------------------------------------------------------ values
def by_value(ctx, f, p, kind):
    sp = specs.SPECS.get(f.name)
    if sp is None or ctx.prog.find(f.name) is not f and getattr(ctx.prog.find(f.name), "node", None) is not f.node:
        return compare.UNDECIDED, "no argument contract", None
    ps = f.params()
    k = ps.index(p)
    args = compare.mksyms(sp)
    if len(ps) < len(args):
        return compare.UNDECIDED, "signature", None
    ds = f.defaults()
    whys = []
    on = [TRUE] + ([t.num(2)] if kind == "verbose" and k < len(sp.args) and sp.args[k].kind == "any" else [])
    done = True
    for v in ctx.checker.variants(sp, args):
        extra = []
        for q in ps[len(args):]:
            if q not in ds:
                return compare.UNDECIDED, "required argument " + q, None
            I0 = vflow.Interp(ctx.prog)
            st0 = vflow.State()
            extra.append(I0.tv(st0, I0.expr(ds[q], st0, vflow.Frame(f, f.module))))
        full = v + extra
        for val in on:
            r = pair(ctx, f, sp, full, k, val, kind)
            if r[0] == compare.VIOLATION:
                return r
            if r[0] != compare.HOLDS:
                done = False
                whys.append(r[1])
    return (compare.HOLDS, "equal summaries", None) if done else (compare.UNDECIDED, "; ".join(dict.fromkeys(whys)), None)


def pair(ctx, f, sp, full, k, val, kind):
    a1, a0 = list(full), list(full)
    a1[k], a0[k] = val, FALSE
    whys, cands = [], []
    for inlined in (False, True):
        r1 = compare.Run(ctx.prog, f, a1, ctx.checker.mode(inlined), sp.budget)
        r0 = compare.Run(ctx.prog, f, a0, ctx.checker.mode(inlined), sp.budget)
        if not r1.ok or not r0.ok or r1.why or r0.why:
            whys.append(r1.why or r0.why)
            continue
        x, y = r1.term, r0.term
        opq = [o for z in (x, y) for o in t.ops_of(z) if isinstance(o, tuple) and o[0] == "opaque"]
        if kind == "extra":
            x = first(x)
            if x is None:
                whys.append("more output not understood")
                continue
        t.DEADLINE[0] = time.time() + sp.budget
        try:
            care = TRUE
            for pc, ex in r1.raises + r0.raises:
                if str(ex) != "AssertionError":
                    care = t.b_and(care, t.b_not(pc))
            xr, yr = t.restrict(x, care), t.restrict(y, care)
            c1, c0 = compare.raise_cond(r1.raises), compare.raise_cond(r0.raises)
            rs = all(e == "AssertionError" or compare.split_equal(c1.get(e, FALSE), c0.get(e, FALSE), 0, time.time() + 10) for e in set(c1) | set(c0))
            if rs and (xr is yr or compare.split_equal(xr, yr, 0, time.time() + 20)):
                return compare.HOLDS, "", None
        except (t.OutOfTime, t.TooBig, RecursionError):
            pass
        if opq:
            whys.append("opaque parts")
            continue
        cands.append((inlined, x, y, r1, r0))
    for inlined, x, y, r1, r0 in reversed(cands):
        t.DEADLINE[0] = time.time() + 40
        rf = refute.Refuter(budget=sp.refute, models=ctx.checker.models())
        rf.same_stream = True
        try:
            insts = refute.instances(sp, [a for a in full[:len(sp.args)]])
            for i in insts:
                i.syms.pop(full[k], None)
            v, msg = rf.run([("", x, y)], ([], []), insts)
        except Exception as e:
            v, msg = refute.UNKNOWN, None
            rf.note(f"analyser: {type(e).__name__}")
        if v == refute.DIFF:
            return compare.VIOLATION, "the result depends on the flag", [m.replace("by the definition", "without the flag") for m in msg]
        whys.append(f"no difference in value confirmed {rf.stats}")
    return compare.UNDECIDED, "; ".join(dict.fromkeys(whys)), None


def first(x):
    """first component of a tuple-valued term"""
    if x.op == "tuple" and len(x.args):
        return x.args[0] if isinstance(x.args[0], t.T) else None
    if x.op == "gamma":
        a, b = first(x.args[1]), first(x.args[2])
        return None if a is None or b is None else t.gamma(x.args[0], a, b)
    if x.op == "none":
        return x
    return None


# ------------------------------------------------------------------ information flow
class Flow:
    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def check(self, f, p):
        """[] when nothing but output depends on the flag, findings otherwise, None when not analysed"""
        k = (f.node, p)
        if k not in self.memo:
            self.memo[k] = []            # recursion: assume neutral
            try:
                self.memo[k] = FlowOf(self, f, p).run()
            except NotImplementedError:
                self.memo[k] = None
        return self.memo[k]

    def callee(self, f, call):
        loc = import_map([n for n in ast.walk(f.node) if isinstance(n, (ast.Import, ast.ImportFrom))], self.prog.pkg, f.module.name)
        n = call.func
        r = None
        if isinstance(n, ast.Name):
            r = self.prog.resolve_dotted(loc[n.id]) if n.id in loc else self.prog.resolve(f.module, n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            b = self.prog.resolve_dotted(loc[n.value.id]) if n.value.id in loc else self.prog.resolve(f.module, n.value.id)
            if isinstance(b, Module):
                r = self.prog.resolve(b, n.attr)
        return r if isinstance(r, Func) else None

    def mutates(self, g, i):
        """does the package function change its i-th argument in place (directly)?"""
        ps = g.params()
        if i >= len(ps):
            return False
        return any(m == ps[i] for n in ast.walk(g.node) for m in in_place(n))


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def in_place(n):
    """names whose object the node changes in place"""
    out = []
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        out.append(root(n.func.value))
    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.For)) else []
    for x in ts:
        for y in ast.walk(x):
            if isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, (ast.Store, ast.Del)):
                out.append(root(y))
    return [o for o in out if o]


class FlowOf:
    def __init__(self, flow, f, p):
        self.flow, self.f, self.p = flow, f, p
        self.tainted = {p}
        self.bad = []
        self.alias = aliases(f.node)

    def run(self):
        body = self.f.node.body
        for _ in range(6):                              # to a fixed point
            n = len(self.tainted)
            self.bad = []
            self.block(body, False, set())
            if len(self.tainted) == n:
                break
        return [m for m in dict.fromkeys(self.bad)]

    def report(self, n, what):
        self.bad.append(f"line {n.lineno}: {what}")

    def uses(self, e):
        """does the value of the expression depend on the flag?"""
        if e is None:
            return False
        if isinstance(e, ast.Name):
            return e.id in self.tainted
        if isinstance(e, ast.Call):
            g = self.flow.callee(self.f, e)
            if g is not None:
                for i, a in enumerate(e.args):
                    if self.uses(a) and not (i < len(g.params()) and g.params()[i] == "verbose" and self.flow.check(g, "verbose") == []):
                        return True
                for kw in e.keywords:
                    if self.uses(kw.value) and not (kw.arg == "verbose" and "verbose" in g.params() and self.flow.check(g, "verbose") == []):
                        return True
                return False
            if isinstance(e.func, ast.Name) and e.func.id == "print":
                return False
        if isinstance(e, ast.IfExp) and self.uses(e.test):
            return ast.dump(e.body) != ast.dump(e.orelse)
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return any(isinstance(x, ast.Name) and x.id in self.tainted for x in ast.walk(e))
        return any(self.uses(c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.comprehension, ast.keyword, ast.Slice)) or isinstance(c, ast.comprehension))

    def outlives(self, name, after):
        """is the object bound to the name visible after the branch?"""
        a = self.f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        seen, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in ps or n in after:
                return True
            todo += list(self.alias.get(n, ()))
        return False

    def block(self, stmts, guarded, after, guard=None):
        for i, s in enumerate(stmts):
            rest = stmts[i + 1:]
            if isinstance(s, ast.If) and not guarded and not s.orelse and rest and self.uses(s.test) and isinstance(s.body[-1], (ast.Continue, ast.Return)):
                # guard clause: the rest runs only for the other setting
                last = s.body[-1]
                if isinstance(last, ast.Return):
                    if not isinstance(rest[-1], ast.Return) or dump([rest[-1]]) != dump([last]):
                        self.stmt(s, guarded, live(rest, after, self), guard)
                        continue
                    after, rest = names(last.value, self), rest[:-1]
                    if self.uses(last.value):
                        self.report(last, "the returned value depends on the flag")
                self.calls(s.test, guarded, after)
                for br in (s.body[:-1], rest):
                    for x in br:
                        self.stmt(x, "outer", after, s)
                return
            self.stmt(s, guarded, live(rest, after, self), guard)

    def stmt(self, s, guarded, after, guard):
        if isinstance(s, ast.If):
            t_ = self.uses(s.test)
            self.calls(s.test, guarded, after)
            if t_ and not guarded:
                if dump(s.body) == dump(s.orelse):
                    return self.block(s.body, guarded, after)
                self.guarded(s, after)
            else:
                self.block(s.body, guarded, after, guard)
                self.block(s.orelse, guarded, after, guard)
            return
        if isinstance(s, (ast.For, ast.While)):
            e = s.iter if isinstance(s, ast.For) else s.test
            g = guarded or self.uses(e)
            if g and not guarded:
                self.guarded(s, after)
                return
            self.calls(e, guarded, after)
            # names read in the next iteration are live as well
            back = after | live1(s, after, self)
            if guarded and isinstance(s, ast.For):
                self.bind(s.target, s, guarded, after, None)
            self.block(s.body, guarded, back, guard)
            self.block(s.orelse, guarded, after, guard)
            return
        if isinstance(s, ast.With):
            for it in s.items:
                self.calls(it.context_expr, guarded, after)
            self.block(s.body, guarded, after, guard)
            return
        if isinstance(s, ast.Try):
            for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                self.block(b, guarded, after, guard)
            return
        if isinstance(s, (ast.Return, ast.Raise)):
            if guarded:
                self.report(s, "leaves the function only when the flag is set (or unset)")
            elif isinstance(s, ast.Return) and self.uses(s.value):
                self.report(s, "the returned value depends on the flag")
            return
        if isinstance(s, (ast.Break, ast.Continue)):
            if guarded == "outer":
                self.report(s, "changes the course of a loop only when the flag is set (or unset)")
            return
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.Assert)):
            return
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            val = s.value
            self.calls(val, guarded, after)
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            dep = self.uses(val)
            for x in ts:
                self.bind(x, s, guarded, after, dep)
            return
        if isinstance(s, (ast.Expr, ast.Delete)):
            self.calls(getattr(s, "value", None), guarded, after)
            if guarded and isinstance(s, ast.Delete):
                for m in in_place(s):
                    if self.outlives(m, after):
                        self.report(s, f"removes entries of {m}, which is used afterwards, only when the flag is set (or unset)")
            return
        raise NotImplementedError

    def bind(self, x, s, guarded, after, dep):
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                if guarded and y.id in after:
                    v = getattr(s, "value", None)
                    if not isinstance(s, ast.AugAssign) and same_copy(v, y.id):
                        continue
                    self.report(s, f"{y.id} is set only when the flag is set (or unset) and used afterwards")
                elif dep and not guarded:
                    self.tainted.add(y.id)
            elif isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, ast.Store):
                m = root(y)
                if m and self.outlives(m, after) and (guarded or dep):
                    self.report(s, f"entries of {m}, which is used afterwards, depend on the flag")

    def calls(self, e, guarded, after):
        """in-place changes made by the calls of an expression"""
        if e is None or not isinstance(e, ast.AST):
            return
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr) and guarded and n.target.id in after:
                self.report(n, f"{n.target.id} is set only when the flag is set (or unset) and used afterwards")
            if not isinstance(n, ast.Call):
                continue
            ms = in_place(n)
            g = self.flow.callee(self.f, n)
            if g is not None:
                ms += [root(a) for i, a in enumerate(n.args) if root(a) and self.flow.mutates(g, i)]
            dep = any(self.uses(a) for a in n.args) or any(self.uses(k.value) for k in n.keywords)
            for m in ms:
                if m and self.outlives(m, after) and (guarded or dep and g is None):
                    self.report(n, f"{m}, which is used afterwards, is changed in place only when the flag is set (or unset)")

    def guarded(self, s, after):
        """a statement whose branches are selected by the flag"""
        if isinstance(s, ast.If):
            # identical assignments in both branches are harmless
            common = {dump([a]) for a in s.body} & {dump([a]) for a in s.orelse}
            for br in (s.body, s.orelse):
                for i, x in enumerate(br):
                    if dump([x]) in common:
                        continue
                    self.stmt(x, "outer", after, s)
        else:
            self.block(s.body, "inner", after, s)
            self.block(s.orelse, "inner", after, s)


def same_copy(v, name):
    """name = list(name), name.copy() and the like"""
    if isinstance(v, ast.Name):
        return v.id == name
    if isinstance(v, ast.Call):
        if isinstance(v.func, ast.Name) and v.func.id in ("list", "tuple", "dict", "set") and len(v.args) == 1:
            return same_copy(v.args[0], name)
        if isinstance(v.func, ast.Attribute) and v.func.attr in ("copy", "array", "asarray", "deepcopy"):
            return same_copy(v.args[0], name) if v.args else same_copy(v.func.value, name)
    return False


def dump(stmts):
    return "\n".join(ast.dump(s) for s in stmts)


def names(e, fl):
    """names an expression reads, leaving out what is only printed"""
    if e is None:
        return set()
    if isinstance(e, ast.Name):
        return {e.id} if isinstance(e.ctx, ast.Load) else set()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "print":
        return set()
    out = set()
    for c in ast.iter_child_nodes(e):
        out |= names(c, fl)
    return out


def live(stmts, out, fl):
    """names whose value is needed before the statements, given those needed after them; parts controlled by the flag only print"""
    for s in reversed(stmts):
        out = live1(s, set(out), fl)
    return out


def live1(s, out, fl):
    if isinstance(s, ast.If):
        if fl.uses(s.test):
            return out
        return names(s.test, fl) | live(s.body, out, fl) | live(s.orelse, out, fl)
    if isinstance(s, (ast.For, ast.While)):
        e = s.iter if isinstance(s, ast.For) else s.test
        if fl.uses(e):
            return out
        cur = set(out)
        for _ in range(8):
            n = out | live(s.body, cur, fl) | live(s.orelse, out, fl)
            if isinstance(s, ast.For):
                n = (n - stored(s.target)) | out
            else:
                n |= names(e, fl)
            if n <= cur:
                break
            cur |= n
        return cur | names(e, fl)
    if isinstance(s, ast.With):
        r = live(s.body, out, fl)
        for it in s.items:
            r |= names(it.context_expr, fl)
        return r
    if isinstance(s, ast.Try):
        r = live(s.finalbody, out, fl)
        a = live(s.orelse, r, fl)
        for h in s.handlers:
            a |= live(h.body, r, fl)
        return a | live(s.body, a, fl)
    if isinstance(s, (ast.Return, ast.Raise)):
        return names(getattr(s, "value", None) or getattr(s, "exc", None), fl)
    if isinstance(s, (ast.Break, ast.Continue)):
        return out
    if isinstance(s, ast.Assign):
        for x in s.targets:
            if isinstance(x, (ast.Name, ast.Tuple, ast.List)):
                out = out - stored(x)
            out = out | names(x, fl)
        # entries stored into an object need the object
        for x in s.targets:
            for y in ast.walk(x):
                if isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, ast.Store) and root(y):
                    out = out | {root(y)}
        return out | names(s.value, fl)
    if isinstance(s, ast.AugAssign):
        r = root(s.target)
        return out | names(s.value, fl) | names(s.target, fl) | ({r} if r else set())
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return (out - {s.name}) | {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    return out | names(s, fl)


def stored(x):
    return {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}


def aliases(fn):
    """name -> names whose objects it may share (no call in between)"""
    out = {}

    def src(e):
        if isinstance(e, (ast.Name, ast.Subscript, ast.Attribute)):
            r = root(e)
            return {r} if r else set()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "zip", "reversed", "iter"):
            return set().union(*[src(a) for a in e.args]) if e.args else set()
        if isinstance(e, ast.IfExp):
            return src(e.body) | src(e.orelse)
        if isinstance(e, (ast.Tuple, ast.List)):
            return set().union(*[src(a) for a in e.elts]) if e.elts else set()
        return set()

    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for x in n.targets:
                for y in stored(x):
                    out.setdefault(y, set()).update(src(n.value))
                r = root(x)
                if isinstance(x, ast.Subscript) and r:
                    out.setdefault(r, set()).update(src(n.value))
                    for z in src(n.value):
                        out.setdefault(z, set()).add(r)
        elif isinstance(n, ast.For):
            for y in stored(n.target):
                out.setdefault(y, set()).update(src(n.iter))
    return out
