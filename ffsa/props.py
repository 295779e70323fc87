"""The properties: which analyses decide each, on which functions."""
from . import compare, specs, rng, effects, iface, flags, labels
from .front import Func


class Finding:
    def __init__(self, rule, construct, where, message, detail=None):
        self.rule, self.construct, self.where, self.message, self.detail = rule, construct, where, message, detail or []

    def key(self):
        return f"{self.rule} {self.construct}"

    def text(self):
        s = f"[{self.rule}] {self.construct} at {self.where}: {self.message}"
        for d in self.detail[:4]:
            s += "\n      " + d[:400]
        return s

    def to_json(self):
        return {"rule": self.rule, "construct": self.construct, "where": self.where, "message": self.message, "detail": self.detail}


class Context:
    def __init__(self, prog, tier="quick", seed=1):
        self.prog, self.tier, self.seed = prog, tier, seed
        self.checker = compare.Checker(prog, public=specs.PUBLIC)
        self.memo = {}


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.findings, self.undecided, self.broken = [], [], []
        self.obligations, self.discharged = 0, 0
        self.rules, self.samples, self.assumptions = [], [], []
        self.functions = set()
        self.extra = {}

    def ob(self, ok):
        self.obligations += 1
        if ok:
            self.discharged += 1

    def summary(self):
        return (f"{self.discharged}/{self.obligations} obligations discharged, {len(self.findings)} findings, "
                f"{len(self.undecided)} undecided, {len(self.functions)} functions analysed")

    def coverage(self):
        c = {"explanation": "static analysis of the package sources; " + "; ".join(self.rules),
             "obligations": self.obligations, "discharged": self.discharged, "functions_analysed": sorted(self.functions),
             "undecided": self.undecided, "samples": self.samples[:8]}
        c.update(self.extra)
        return c


# ---------------------------------------------------------------- value equivalence
def value(names, closure=True, only=None, slack=()):
    """the named public functions, and the public functions they are built from, equal their definitions"""
    def run(ctx, rep):
        rep.rules.append("gated value numbering: the normal-form value of each function (every branch, loop and optional argument) must equal that "
                         "of its reference definition, summarised by the same engine")
        rep.assumptions += ["library functions (numpy, scipy, networkx) behave as documented and as modelled by the engine's rules",
                            "real-number semantics: rounding differences between algebraically equal formulas are not violations"]
        todo, seen = list(names), set()
        while todo:
            n = todo.pop(0)
            if n in seen:
                continue
            seen.add(n)
            sp = specs.SPECS.get(n)
            if sp is None:
                continue
            r = ctx.checker.check(sp)
            rep.functions.add(n)
            record(rep, n, r, "value")
            if closure:
                for c in callees(ctx.prog, n):
                    if c not in seen:
                        todo.append(c)
    return run


def lost(u, v):
    """the value is the real part of the defined value, which is not real"""
    v = complex(v)
    return abs(v.imag) > 1e-6 * (1 + abs(v)) and abs(complex(u) - v.real) <= 1e-7 * (1 + abs(v))


COMPLEX = ["build_H", "build_V", "kitaev_chain", "random_H_generator", "build_op", "rotate_operators", "compute_cov_matrix", "compute_2corr_matrix", "correlation_matrix", "compute_algebra_S",
           "jordan_wigner_lowering", "jordan_wigner_alphas", "jordan_wigner_majoranas", "pauli_matrices", "generate_pauli_group", "build_Omega", "build_K", "build_reordering_xx_to_xp",
           "generate_gaussian_state", "random_FF_rotation", "random_FF_state", "random_FF_state_randH", "random_FF_state_rotPDF", "random_qubit_state", "random_qubit_pure_state",
           "random_FF_pure_state_W0", "random_FF_pure_state_WN", "random_FF_pure_state_CN", "build_unitary_path", "build_linear_path", "get_orthogonal_vectors",
           "partial_trace_over_1", "partial_trace_over_2", "kron_plus", "cast_to_density_matrix", "pf", "hf", "pt", "dt", "dt_eigen", "stabilizer_distribution", "cov_distribution", "trace_distance",
           "eigh_sp", "eigv_sp", "eigm_sp", "eigm_sp_can", "is_symp", "is_matchgate", "clean"]


def imaginary(ctx, rep):
    """no function returns the real part of a defined value that is not real"""
    rep.rules.append("gated value numbering against the complex defining formulas; where the value of a function differs, it is a violation of this property when, at a point where the defined "
                     "value has an imaginary part, the function (or an operand on its way) is exactly the real part")
    chk = compare.Checker(ctx.prog, public=specs.PUBLIC, accept=lost)
    for n in COMPLEX:
        sp = specs.SPECS.get(n)
        if sp is None:
            continue
        r = chk.check(sp)
        rep.functions.add(n)
        if r.verdict == compare.VIOLATION and not r.detail:
            r.verdict = compare.UNDECIDED
        if r.verdict == compare.VIOLATION:
            r.why = "an imaginary part is lost"
        record(rep, n, r, "lost-imaginary-part")


def rejects(names):
    """the named functions reject exactly the inputs their definitions reject"""
    def run(ctx, rep):
        rep.rules.append("path-condition analysis: the condition under which each entry point rejects its arguments (raise statements, and assertions for the "
                         "conversions) equals that of its reference definition")
        for n in names:
            r = ctx.checker.check(specs.REJECTS[n])
            rep.functions.add(n)
            record(rep, n, r, "rejection")
    return run


def record(rep, n, r, rule):
    if r.verdict == compare.HOLDS:
        rep.ob(True)
        m = (r.stats.get("modes") or [{}])[-1]
        rep.samples.append({"function": n, "where": r.where, "variants": r.stats.get("variants"), "mode": m.get("mode"),
                            "reference": m.get("reference"), "term_size": m.get("size"), "loops_summarised": m.get("loops")})
    elif r.verdict == compare.VIOLATION:
        rep.ob(False)
        rep.findings.append(Finding(rule, n, r.where, r.why, r.detail))
    elif r.verdict == "missing":
        rep.ob(False)
        rep.broken.append(f"public function {n} not found")
    else:
        rep.ob(False)
        rep.undecided.append(f"{n}: {r.why}")


# functions that convert each listed argument position before using it
CONVERTED = {"stabilizer_distribution": (0,), "SRE": (0,), "renyi_entropy": (0,), "linear_entropy": (0,), "cov_distribution": (0,), "FAF": (0,),
             "total_variation_distance": (0, 1), "trace_distance": (0, 1), "relative_entropy": (0, 1), "bhattacharyya_coeff": (0, 1),
             "jensen_shannon_divergence": (0, 1)}


def converted(ctx, rep):
    """every state or distribution argument reaches the result only through a validating conversion"""
    from . import terms as t
    rep.rules.append("value flow: in the summary of each distance and entropy every occurrence of a state or distribution argument lies inside a validating "
                     "conversion (directly or through another public measure)")
    sinks = {"cast_to_pdf", "cast_to_density_matrix"} | set(CONVERTED)
    for name, pos in CONVERTED.items():
        f = ctx.prog.find(name)
        if not isinstance(f, Func):
            rep.broken.append(f"public function {name} not found")
            continue
        rep.functions.add(name)
        sp = specs.SPECS[name]
        args = compare.mksyms(sp)
        ds = f.defaults()
        if len(f.params()) < len(args) or any(p not in ds for p in f.params()[len(args):]):
            rep.undecided.append(f"{name}: signature")
            continue
        extra = []
        for p in f.params()[len(args):]:
            from . import vflow
            try:
                I0 = vflow.Interp(ctx.prog)
                st0 = vflow.State()
                extra.append(I0.tv(st0, I0.expr(ds[p], st0, vflow.Frame(f, f.module))))
            except Exception:
                extra.append(t.sym("extra." + p, "any"))
        cur = compare.Run(ctx.prog, f, args + extra, ctx.checker.mode(False), sp.budget)
        if not cur.ok or cur.term is None:
            rep.ob(False)
            rep.undecided.append(f"{name}: {cur.why}")
            continue
        for i in pos:
            raw = []
            conv = [0]
            seen = set()

            def walk(x, par):
                if x is args[i]:
                    raw.append(par)
                    return
                if x in seen:
                    return
                seen.add(x)
                if x.op == "app" and x.args[0].startswith("ff.") and x.args[0][3:] in sinks:
                    if args[i] in t.syms_of(x):
                        conv[0] += 1
                    return
                if x.op in ("isinst", "isnone"):
                    return
                if x.op in ("dim", "len"):
                    return
                for y in t.children(x):
                    walk(y, x)
            walk(cur.term, None)
            opq = [o for o in t.ops_of(cur.term) if isinstance(o, tuple) and o[0] == "opaque"]
            if raw and cur.why:
                rep.ob(False)
                rep.undecided.append(f"{name}: {cur.why}")
            elif raw:
                rep.ob(False)
                rep.findings.append(Finding("unvalidated-input", f"{name}: argument {f.params()[i]}", f.where(),
                                            "the argument reaches the result without passing through the validating conversion",
                                            [t.show(p)[:300] if p is not None else "the result itself" for p in raw[:3]]))
            elif not conv[0]:
                rep.ob(False)
                rep.undecided.append(f"{name}: no use of {f.params()[i]} found" + (" (opaque parts)" if opq else ""))
            else:
                rep.ob(True)
                rep.samples.append({"function": name, "argument": f.params()[i], "conversions": conv[0]})


def callees(prog, name, memo={}):
    """public functions with a definition that the function's code mentions, directly or through helpers"""
    import ast
    key = (prog.digest, name)
    if key in memo:
        return memo[key]
    f = prog.find(name)
    out, seen = [], set()
    todo = [f] if isinstance(f, Func) else []
    while todo:
        g = todo.pop()
        if g.node in seen:
            continue
        seen.add(g.node)
        from .front import import_map
        loc = import_map([n for n in ast.walk(g.node) if isinstance(n, (ast.Import, ast.ImportFrom))], prog.pkg, g.module.name)
        for n in ast.walk(g.node):
            r = None
            if isinstance(n, ast.Name):
                r = prog.resolve_dotted(loc[n.id]) if n.id in loc else prog.resolve(g.module, n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                b = prog.resolve_dotted(loc[n.value.id]) if n.value.id in loc else prog.resolve(g.module, n.value.id)
                from .front import Module
                if isinstance(b, Module):
                    r = prog.resolve(b, n.attr)
            if isinstance(r, Func) and r.node is not g.node:
                if r.name in specs.SPECS:
                    out.append(r.name)
                elif not r.module.name.startswith("ffref"):
                    todo.append(r)
    memo[key] = list(dict.fromkeys(out))
    return memo[key]


class Prop:
    def __init__(self, *analyses, technique="", note=""):
        self.analyses, self.technique, self.note = analyses, technique, note


VN = "gated value-numbering dataflow analysis against analysed reference definitions"
PROPS = {}


def P(pid, *analyses, technique=VN, note=""):
    PROPS[pid] = Prop(*analyses, technique=technique, note=note)


RNG = "random-generator typestate analysis over the interprocedural control flow"
P("C01", rng.reproducible, technique=RNG)
P("C02", rng.neutral, technique=RNG)
EFF = "interprocedural ownership and effect analysis"
P("C03", effects.arguments, technique=EFF)
P("C04", effects.history, technique=EFF)
P("C05", effects.settings, technique="typestate analysis with exceptional control flow")
SIZED = ["random_qubit_state", "random_qubit_pure_state", "random_CHP_state", "random_FF_state_randH", "random_FF_state_rotPDF",
         "random_FF_pure_state_W0", "random_FF_pure_state_WN", "random_FF_pure_state_CN"]
P("C06", rejects(["generate_pauli_group"] + SIZED), rng.validated_first(SIZED), technique="path-condition analysis of the entry checks and random-generator typestate")
P("C07", rejects(["cast_to_density_matrix", "cast_to_pdf"]), value(["cast_to_density_matrix", "cast_to_pdf"]), converted,
  technique="path-condition analysis of the conversions and value flow of the arguments into them")
P("C08", value(["jordan_wigner_lowering"]))
P("C09", value(["pauli_matrices", "jordan_wigner_alphas", "jordan_wigner_majoranas"]))
P("C10", value(["build_H", "build_V", "kitaev_chain", "random_H_generator"]))
P("C11", value(["build_Omega", "build_K", "build_reordering_xx_to_xp"]))
P("C12", value(["generate_gaussian_state", "random_FF_state", "random_FF_state_randH", "random_FF_state_rotPDF", "random_qubit_state"]))
P("C13", value(["random_FF_rotation", "random_FF_pure_state_W0", "random_FF_pure_state_WN", "random_FF_pure_state_CN", "random_qubit_pure_state",
                "random_CHP_state", "random_FF_state"]))
P("C14", value(["sgn", "pf", "hf", "pt", "dt", "dt_eigen"]))
P("C15", value(["partial_trace_over_1", "partial_trace_over_2", "kron_plus"]))
P("C16", value(["total_variation_distance", "relative_entropy", "bhattacharyya_coeff", "jensen_shannon_divergence", "trace_distance"]))
P("C17", labels.opaque_labels, technique="label typestate analysis over the call graph and comparison of value summaries on relabelled graphs")
P("C18", value(["clean", "formatted_output"]))
P("C19", imaginary, technique=VN + ", differences judged by the real part of the defined value")
P("C20", iface.exports, technique="definite-binding analysis of module bodies and export lists")
P("C21", iface.signatures, value(["compute_cov_matrix", "compute_2corr_matrix", "generate_gaussian_state", "build_V", "build_H",
                                  "random_FF_pure_state_WN"], closure=False), technique="signature conformance and gated value numbering of the omitted-argument variants")
P("C22", value(["build_op", "rotate_operators", "compute_cov_matrix", "compute_2corr_matrix", "correlation_matrix", "compute_algebra_S"]))
P("C23", value(["eigh_sp", "eigv_sp", "eigm_sp_can", "eigm_sp"]))
P("C24", value(["is_symp", "check_canonical_form", "is_matchgate"]))
P("C25", value(["renyi_entropy", "linear_entropy", "SRE", "FAF", "stabilizer_distribution", "cov_distribution"]))
P("C26", value(["generate_random_bitstring", "generate_random_planar_graph", "permutation_to_matrix"]))
P("C27", value(["build_unitary_path", "build_linear_path", "get_orthogonal_vectors"]))
P("C28", value(["find_perfect_matchings_brute", "count_perfect_matchings", "count_perfect_matchings_planar", "compute_tree_depth"]))
P("C30", flags.neutral, technique="self-comparison of gated value-numbering summaries under both flag settings; information-flow analysis where no summary exists")
P("C36", value(["complete_face"]))
P("C37", value(["plot_graph_with_edge_weights"]))
P("C38", value(["analyze_pdf"]))
P("C29", value(["generate_pauli_group"]))


def run_property(pid, ctx):
    rep = Report(pid)
    for a in PROPS[pid].analyses:
        a(ctx, rep)
    if rep.obligations == 0:
        rep.broken.append("no obligation found")
    return rep
