"""Loads the package sources and resolves names (modules, imports, functions)."""
import ast
import hashlib
import os

REPO = os.environ.get("FFSA_REPO", "/repo")


class Func:
    def __init__(self, module, node, qual, parent=None):
        self.module, self.node, self.qual, self.parent = module, node, qual, parent
        self.name = node.name

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def defaults(self):
        a = self.node.args
        ps = self.params()
        d = {}
        for n, e in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            d[n] = e
        for n, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[n.arg] = e
        return d

    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<{self.module.name}.{self.qual}>"


def import_map(nodes, pkg, modname):
    """name -> dotted target for Import/ImportFrom statements"""
    out = {}
    for n in nodes:
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = modname.split(".")
                # modname is ff.x (or ff for __init__)
                up = parts[: len(parts) - n.level] if modname != pkg else parts[: len(parts) - n.level + 1]
                base = ".".join(up + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    out.setdefault("*", []).append(base)
                else:
                    out[a.asname or a.name] = (base + "." + a.name) if base else a.name
    return out


class Module:
    def __init__(self, prog, name, path, pkg, src=None):
        self.prog, self.name, self.path = prog, name, path
        self.rel = os.path.relpath(path, prog.root)
        self.src = open(path, encoding="utf-8").read() if src is None else src
        self.tree = ast.parse(self.src, path)
        self.imports, self.funcs, self.consts = {}, {}, {}
        self.classes = {}
        self._scan(self.tree.body, pkg)

    def _scan(self, body, pkg):
        for n in body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imports.update(import_map([n], pkg, self.name))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(self, n, n.name)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body, pkg)
                for h in getattr(n, "handlers", []):
                    self._scan(h.body, pkg)
                self._scan(n.orelse, pkg)


class Program:
    def __init__(self, root=None, pkgdir="src/ff", pkg="ff", extra=None, overrides=None):
        self.root = root or REPO
        self.pkg = pkg
        self.modules = {}
        d = os.path.join(self.root, pkgdir)
        h = hashlib.sha256()
        for f in sorted(os.listdir(d)):
            if not f.endswith(".py"):
                continue
            name = pkg if f == "__init__.py" else pkg + "." + f[:-3]
            m = Module(self, name, os.path.join(d, f), pkg, (overrides or {}).get(f))
            self.modules[name] = m
            h.update(m.src.encode())
        self.digest = h.hexdigest()[:16]
        if extra:
            # reference definitions, analysed by the same engine
            for f in sorted(os.listdir(extra)):
                if f.endswith(".py") and f != "__init__.py":
                    name = "ffref." + f[:-3]
                    self.modules[name] = Module(self, name, os.path.join(extra, f), "ffref")
        self.public = self._public()

    def _public(self):
        """exported name -> Func (or None when unresolved)"""
        init = self.modules.get(self.pkg)
        names = self.all_names()
        out = {}
        for n in names or []:
            out[n] = self.resolve(init, n)
        return out

    def all_names(self):
        init = self.modules.get(self.pkg)
        if init is None:
            return None
        return static_list(init, "__all__")

    def resolve(self, module, name, seen=()):
        """Func for a name visible in a module, or a dotted string for externals, or None"""
        if name in module.funcs:
            return module.funcs[name]
        if name in module.imports:
            return self.resolve_dotted(module.imports[name], seen + ((module.name, name),))
        if name in module.consts:
            v = module.consts[name]
            if isinstance(v, ast.Name) and (module.name, name) not in seen:
                r = self.resolve(module, v.id, seen + ((module.name, name),))
                if r is not None:
                    return r
            return ("const", module, name)
        if name in module.classes:
            return ("class", module, name)
        for base in module.imports.get("*", []) or []:
            m = self.modules.get(base)
            if m is not None and m is not module:
                r = self.resolve(m, name, seen)
                if r is not None:
                    return r
        return None

    def resolve_dotted(self, dotted, seen=()):
        if dotted in self.modules:
            return self.modules[dotted]
        mod, _, name = dotted.rpartition(".")
        if mod in self.modules:
            if (mod, name) in seen:
                return None
            return self.resolve(self.modules[mod], name, seen)
        if dotted.split(".")[0] == self.pkg:
            return None
        return dotted

    def find(self, name):
        """public function by name: through the package namespace, else any module"""
        init = self.modules.get(self.pkg)
        r = self.resolve(init, name) if init else None
        if isinstance(r, Func):
            return r
        for m in self.own():
            if name in m.funcs:
                return m.funcs[name]
        return None

    def own(self):
        return [m for n, m in self.modules.items() if not n.startswith("ffref")]

    def all_funcs(self):
        for m in self.own():
            yield from m.funcs.values()


def static_list(module, name):
    """value of a module-level list of string constants built by literals, + and +=/extend/append"""
    cur = None

    def ev(e):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    out.append(x.value)
                elif isinstance(x, ast.Starred):
                    r = ev(x.value)
                    if r is None:
                        return None
                    out += r
                else:
                    return None
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = ev(e.left), ev(e.right)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.Name):
            if e.id == name:
                return cur
            if e.id in module.consts:
                return ev(module.consts[e.id])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("sorted", "list", "tuple", "set") and len(e.args) == 1:
            return ev(e.args[0])
        return None

    for n in module.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            cur = ev(n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            r = ev(n.value)
            cur = None if cur is None or r is None else cur + r
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == name and n.value.args:
            r = ev(n.value.args[0]) if n.value.func.attr == "extend" else ev(ast.List(elts=[n.value.args[0]]))
            cur = None if cur is None or r is None else cur + r
    return cur
