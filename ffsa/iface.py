"""Public interface: advertised names are bound (C20), signatures and default values are the documented ones (C21)."""
import ast
import math
from .front import Func, Module, static_list


# ------------------------------------------------------------------ module-level bindings
class Bind:
    """definitely / possibly bound names after executing a module body, and what binds them last"""

    def __init__(self, prog):
        self.prog, self.memo, self.active = prog, {}, set()

    def module(self, m):
        if m.name in self.memo:
            return self.memo[m.name]
        self.active.add(m.name)
        b, bad = {}, []
        b = self.block(m.tree.body, {}, m, bad)
        self.active.discard(m.name)
        self.memo[m.name] = (b or {}, bad)
        return self.memo[m.name]

    def star(self, m):
        """names `from m import *` binds"""
        a = static_list(m, "__all__")
        if a is not None:
            return set(a)
        b, _ = self.module(m)
        return {n for n in b if not n.startswith("_")}

    def block(self, ss, b, m, bad):
        for n in ss:
            if b is None:
                return None
            b = self.stmt(n, b, m, bad)
        return b

    def join(self, a, c):
        if a is None:
            return c
        if c is None:
            return a
        return {k: (a[k] if a[k] == c.get(k) else ("?",)) for k in a if k in c}

    def target(self, t, b):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                b[x.id] = ("value",)

    def stmt(self, n, b, m, bad):
        ty = type(n)
        b = dict(b)
        if ty in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            b[n.name] = ("def", m.name, n.name)
        elif ty is ast.Import:
            for a in n.names:
                b[a.asname or a.name.split(".")[0]] = ("import", a.name)
        elif ty is ast.ImportFrom:
            base = self.base(n, m)
            tm = self.prog.modules.get(base)
            own = base.split(".")[0] == self.prog.pkg
            for a in n.names:
                if a.name == "*":
                    if tm is not None and tm.name not in self.active:
                        tb, _ = self.module(tm)
                        for x in self.star(tm):
                            if x in tb:
                                b[x] = tb[x]
                            else:
                                bad.append((n, f"`from {base} import *` fails: {base} lists {x} but does not bind it"))
                    continue
                name = a.asname or a.name
                if own:
                    sub = self.prog.modules.get(base + "." + a.name)
                    tb = self.module(tm)[0] if tm is not None and tm.name not in self.active else None
                    if tb is not None and a.name in tb:
                        b[name] = tb[a.name]
                    elif sub is not None:
                        b[name] = ("import", sub.name)
                    elif tm is not None and tm.name in self.active:
                        b[name] = ("?",)
                    elif tm is not None and "__getattr__" in tb:
                        b[name] = ("?",)
                    else:
                        bad.append((n, f"`{a.name}` is not bound in {base}"))
                else:
                    b[name] = ("import", base + "." + a.name)
        elif ty is ast.Assign:
            for t in n.targets:
                self.target(t, b)
                if isinstance(t, ast.Name) and isinstance(n.value, ast.Name) and n.value.id in b:
                    b[t.id] = b[n.value.id]
                if isinstance(t, ast.Name) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name):
                    r = b.get(n.value.value.id)
                    if r and r[0] == "import" and r[1] in self.prog.modules and r[1] not in self.active:
                        tb = self.module(self.prog.modules[r[1]])[0]
                        if n.value.attr in tb:
                            b[t.id] = tb[n.value.attr]
        elif ty is ast.AnnAssign:
            if n.value is not None:
                self.target(n.target, b)
        elif ty is ast.AugAssign:
            self.target(n.target, b)
        elif ty in (ast.For, ast.AsyncFor):
            inner = dict(b)
            self.target(n.target, inner)
            self.block(n.body, inner, m, bad)
        elif ty is ast.If:
            k = const_test(n.test)
            x = self.block(n.body, b, m, bad) if k is not False else None
            y = self.block(n.orelse, b, m, bad) if k is not True else None
            return self.join(x, y)
        elif ty is ast.Try:
            x = self.block(n.body, b, m, bad if not n.handlers else [])
            x = self.block(n.orelse, x, m, bad) if x is not None else None
            for h in n.handlers:
                x = self.join(x, self.block(h.body, b, m, bad))
            if n.finalbody and x is not None:
                x = self.block(n.finalbody, x, m, bad)
            return x
        elif ty in (ast.With, ast.AsyncWith):
            for it in n.items:
                if it.optional_vars is not None:
                    self.target(it.optional_vars, b)
            return self.block(n.body, b, m, bad)
        elif ty is ast.Delete:
            for t in n.targets:
                if isinstance(t, ast.Name):
                    b.pop(t.id, None)
        elif ty is ast.Raise:
            return None
        return b

    def base(self, n, m):
        base = n.module or ""
        if n.level:
            parts = m.name.split(".")
            up = parts[:len(parts) - n.level] if m.name != self.prog.pkg else parts[:len(parts) - n.level + 1]
            base = ".".join(up + ([n.module] if n.module else []))
        return base


def const_test(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.Name) and e.id == "TYPE_CHECKING" or isinstance(e, ast.Attribute) and e.attr == "TYPE_CHECKING":
        return False
    return None


ALIASES = {"partial_trace_over_1": "partial_trace_diagblocksum", "partial_trace_over_2": "partial_trace_blockTr"}


def exports(ctx, rep):
    """C20"""
    from .props import Finding
    rep.rules.append("definite-binding analysis of every module body (imports, star imports, definitions, deletions, branches): every name in an "
                     "export list is bound, by its own definition, on every path that completes the import")
    B = Bind(ctx.prog)
    total = 0
    for m in ctx.prog.own():
        b, bad = B.module(m)
        rep.functions.add(m.name)
        for n, why in bad:
            rep.ob(False)
            rep.findings.append(Finding("unbound-import", f"{m.name}: {why}", f"{m.rel}:{n.lineno}", "importing the package fails"))
        names = static_list(m, "__all__")
        has = any(isinstance(x, ast.Name) and x.id == "__all__" and isinstance(x.ctx, ast.Store) for x in ast.walk(m.tree))
        if names is None:
            if has:
                rep.undecided.append(f"{m.name}: export list is computed in a way that is not understood")
            continue
        lazy = "__getattr__" in b
        for nm in names:
            total += 1
            r = b.get(nm)
            ok = True
            if r is None:
                sub = ctx.prog.modules.get(m.name + "." + nm)
                if sub is None and not lazy:
                    ok = False
                    rep.findings.append(Finding("unbound-export", f"{m.name}: {nm}", f"{m.rel}", f"`{nm}` is listed in the export list but not bound on every import path"))
            elif r[0] == "def":
                want = ALIASES.get(nm, nm)
                if r[2] != want and r[2] != nm:
                    own = {f.name for f in ctx.prog.all_funcs()}
                    if want in own or nm in ALIASES:
                        # an alias of another advertised definition
                        if not same_value(ctx, nm):
                            ok = False
                            rep.findings.append(Finding("wrong-export", f"{m.name}: {nm}", m.rel, f"`{nm}` is bound to {r[1]}.{r[2]}, not to its own definition"))
            rep.ob(ok)
    rep.extra["names"] = total
    init = ctx.prog.modules.get(ctx.prog.pkg)
    if init is not None:
        rep.samples.append({"module": init.name, "bound_names": len(B.module(init)[0]), "advertised": len(static_list(init, "__all__") or [])})
    if total < 40:
        rep.broken.append(f"only {total} advertised names found")


def same_value(ctx, name):
    from . import specs, compare
    sp = specs.SPECS.get(name)
    if sp is None:
        return False
    return ctx.checker.check(sp).verdict != compare.VIOLATION


# ------------------------------------------------------------------ signatures
REQ = object()
# public parameters in positional order with their documented default values
SIGS = {
    "permutation_to_matrix": [("permutation", REQ)],
    "pauli_matrices": [],
    "generate_pauli_group": [("n", REQ), ("verbose", False)],
    "jordan_wigner_lowering": [("n_sites", REQ)],
    "jordan_wigner_alphas": [("n_sites", REQ)],
    "jordan_wigner_majoranas": [("n_sites", REQ)],
    "rotate_operators": [("C", REQ), ("alphas", REQ), ("Left", False), ("verbose", False)],
    "build_V": [("n_sites", REQ), ("A", REQ), ("Z", None)],
    "build_H": [("n_sites", REQ), ("A", REQ), ("B", None)],
    "random_FF_rotation": [("n_sites", REQ), ("seed", None), ("returnH", False), ("returnOrb", False)],
    "random_FF_state": [("n_sites", REQ), ("fixedN", False), ("seed", None), ("returnH", False), ("pure", False)],
    "random_H_generator": [("n_sites", REQ), ("fixedN", False), ("seed", None)],
    "kitaev_chain": [("n_sites", REQ), ("mu", REQ), ("t", REQ), ("delta", REQ)],
    "build_Omega": [("N", REQ)],
    "build_reordering_xx_to_xp": [("n_sites", REQ)],
    "build_K": [("n_sites", REQ)],
    "is_symp": [("U", REQ)],
    "check_canonical_form": [("L", REQ)],
    "generate_gaussian_state": [("n_sites", REQ), ("H", REQ), ("alphas", None)],
    "build_op": [("n_sites", REQ), ("R", REQ), ("alphas", REQ), ("verbose", None), ("direct", False)],
    "compute_cov_matrix": [("rho", REQ), ("n_sites", None), ("alphas", None)],
    "correlation_matrix": [("rho", REQ)],
    "compute_2corr_matrix": [("rho", REQ), ("n_sites", REQ), ("alphas", None), ("conjugation", None)],
    "compute_algebra_S": [("alphas", REQ), ("verbose", False)],
    "is_matchgate": [("M", REQ), ("verbose", False)],
    "eigh_sp": [("H", REQ)], "eigv_sp": [("V", REQ)], "eigm_sp_can": [("G", REQ)], "eigm_sp": [("G", REQ)],
    "sgn": [("permutation", REQ)], "pf": [("A", REQ)], "hf": [("A", REQ)], "pt": [("A", REQ)], "dt": [("A", REQ)], "dt_eigen": [("A", REQ)],
    "stabilizer_distribution": [("rho", REQ)], "SRE": [("rho", REQ), ("a", 2)], "renyi_entropy": [("p", REQ), ("a", REQ)],
    "linear_entropy": [("p", REQ)], "cov_distribution": [("rho", REQ)], "total_variation_distance": [("p", REQ), ("q", REQ)],
    "trace_distance": [("A", REQ), ("B", REQ)], "relative_entropy": [("p", REQ), ("q", REQ)], "bhattacharyya_coeff": [("p", REQ), ("q", REQ)],
    "jensen_shannon_divergence": [("p", REQ), ("q", REQ)], "FAF": [("rho", REQ), ("k", 2)],
    "random_qubit_state": [("n", REQ), ("seed", None)], "random_qubit_pure_state": [("n", REQ), ("seed", None)],
    "random_CHP_state": [("n_qubits", REQ)], "random_FF_state_randH": [("n_sites", REQ), ("seed", None)],
    "random_FF_state_rotPDF": [("n_sites", REQ), ("returnS", False), ("seed", None)],
    "random_FF_pure_state_W0": [("n_sites", REQ), ("seed", None)],
    "random_FF_pure_state_WN": [("n_sites", REQ), ("N", None), ("seed", None)],
    "random_FF_pure_state_CN": [("n_sites", REQ), ("seed", None)], "get_orthogonal_vectors": [("v", REQ)],
    "build_unitary_path": [("w", REQ), ("v", REQ)], "build_linear_path": [("w", REQ), ("v", REQ)],
    "print_custom": [("obj", REQ), ("k", 9)], "clean": [("obj", REQ), ("threshold", 1e-6)], "formatted_output": [("obj", REQ), ("precision", 6)],
    "generate_random_bitstring": [("n", REQ), ("k", REQ)], "kron_plus": [("a", REQ), ("b", REQ)], "cast_to_pdf": [("rho", REQ)],
    "cast_to_density_matrix": [("rho", REQ)], "analyze_pdf": [("rho", REQ), ("name", None), ("stem", True)],
    "partial_trace_over_1": [("AB", REQ), ("d", REQ)], "partial_trace_over_2": [("AB", REQ), ("d", REQ)],
    "plot_graph_with_edge_weights": [("A", REQ), ("matching", None), ("title", None)],
    "generate_random_planar_graph": [("n", REQ), ("seed", None)],
    "plot_planar_embedding": [("G", REQ), ("pfo", None), ("title", None)], "dual_graph_H": [("G", REQ), ("F", REQ), ("T", REQ)],
    "faces": [("graph", REQ), ("emb", None)], "complete_face": [("pfo", REQ), ("edges", REQ), ("verbose", False)],
    "count_perfect_matchings": [("graph", REQ)], "count_perfect_matchings_planar": [("graph", REQ)],
    "find_perfect_matchings_brute": [("graph", REQ)], "pfo_algorithm": [("graph", REQ), ("verbose", False)], "compute_tree_depth": [("graph", REQ)],
}


class Unknown(Exception):
    pass


def constval(e, module, prog, depth=0):
    """value of a constant expression of the sources (no code is run)"""
    if depth > 8:
        raise Unknown
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp):
        v = constval(e.operand, module, prog, depth + 1)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(e.op, ast.Not):
            return not v
    if isinstance(e, ast.BinOp):
        a, b = constval(e.left, module, prog, depth + 1), constval(e.right, module, prog, depth + 1)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                if isinstance(e.op, ast.Add):
                    return a + b
                if isinstance(e.op, ast.Sub):
                    return a - b
                if isinstance(e.op, ast.Mult):
                    return a * b
                if isinstance(e.op, ast.Div):
                    return a / b
                if isinstance(e.op, ast.Pow) and abs(b) < 64:
                    return a ** b
            except ZeroDivisionError:
                raise Unknown
    if isinstance(e, ast.Name):
        if e.id in module.consts and e.id not in module.funcs:
            return constval(module.consts[e.id], module, prog, depth + 1)
        r = prog.resolve(module, e.id)
        if isinstance(r, tuple) and r[0] == "const":
            return constval(r[1].consts[r[2]], r[1], prog, depth + 1)
    raise Unknown


def equal(a, b):
    if b is False and (a is None or type(a) in (bool, int) and not a):
        return True     # an off flag
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and (a == b or isinstance(a, float) and math.isclose(a, b, rel_tol=1e-12))
    return type(a) is type(b) and a == b


def signatures(ctx, rep):
    """C21: positional parameters and defaults"""
    from .props import Finding
    rep.rules.append("signature table: positional order, names and constant-folded default values of every public parameter equal the documented ones")
    for name, want in SIGS.items():
        f = ctx.prog.find(name)
        if not isinstance(f, Func):
            rep.broken.append(f"public function {name} not found")
            continue
        rep.functions.add(name)
        a = f.node.args
        ps, ds = f.params(), f.defaults()
        if f.node.decorator_list:
            decs = [ast.unparse(d) for d in f.node.decorator_list]
            if not all(d.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "wraps") for d in decs):
                rep.undecided.append(f"{name}: decorated by {decs}")
                continue
        kwonly = [x.arg for x in a.kwonlyargs]
        bad = None
        for i, (p, d) in enumerate(want):
            if i >= len(ps):
                if a.vararg is not None:
                    rep.undecided.append(f"{name}: variadic parameters")
                    break
                bad = f"parameter {p} cannot be passed in position {i + 1}" if p in kwonly else f"parameter {p} is missing"
                break
            if ps[i] != p:
                bad = f"positional parameter {i + 1} is {ps[i]}, documented as {p}"
                break
            if a.posonlyargs and ps[i] in {x.arg for x in a.posonlyargs}:
                bad = f"parameter {p} cannot be passed by name"
                break
            if d is REQ:
                continue        # a new default for a required parameter breaks no call
            if p not in ds:
                bad = f"parameter {p} has no default (documented: {d!r})"
                break
            try:
                v = constval(ds[p], f.module, ctx.prog)
            except Unknown:
                rep.undecided.append(f"{name}: default of {p} is not a constant the analysis understands")
                continue
            if not equal(v, d) and not (p == "verbose" and not v and not d):
                bad = f"default of {p} is {v!r}, documented as {d!r}"
                break
        if bad is None:
            extra = [p for p in ps[len(want):] + kwonly if p not in ds]
            if extra:
                bad = f"new required parameter {extra[0]}"
        rep.ob(bad is None)
        if bad:
            rep.findings.append(Finding("signature", f"{name}: {bad}", f.where(), "a documented call pattern changes its meaning"))
    rep.samples.append({"signatures": len(SIGS), "optional_parameters": sum(1 for w in SIGS.values() for _, d in w if d is not REQ)})
