"""Weighted graphs of known structure as values of the scalar domain.

A graph is a list of node labels, a list of edges between positions and a
symbolic weight per edge (None where the attribute is missing).  The networkx
operations below are interpreted on that structure; planarity is decided only
where the structure makes it certain.
"""
import itertools
from fractions import Fraction as F
from . import terms as t
from . import scalar as S
from .scalar import A, L, Fn, Unsup, reg, to_int, num
from .terms import T, mk, ZERO, ONE, NONE, TRUE, FALSE, as_int


class G:
    def __init__(self, nodes, edges, attrs="weight"):
        """edges: [(i, j, weight or None)] over positions"""
        self.nodes = list(nodes)
        self.edges = list(edges)

    @property
    def n(self):
        return len(self.nodes)

    def w(self):
        r = {}
        for i, j, x in self.edges:
            r[i, j] = r[j, i] = x
        return r

    def nbrs(self, i):
        return [b if a == i else a for a, b, _ in self.edges if i in (a, b)]

    def pos(self, label):
        for i, x in enumerate(self.nodes):
            if x is label:
                return i
        raise Unsup("no such node")

    def dist(self, i):
        d, q = {i: 0}, [i]
        for x in q:
            for y in self.nbrs(x):
                if y not in d:
                    d[y] = d[x] + 1
                    q.append(y)
        return d

    def comps(self):
        seen, out = set(), []
        for i in range(self.n):
            if i not in seen:
                c = sorted(self.dist(i), key=list(self.dist(i)).index)
                seen |= set(c)
                out.append(c)
        return out

    def sub(self, keep):
        keep = sorted(keep)
        m = {p: k for k, p in enumerate(keep)}
        return G([self.nodes[p] for p in keep], [(m[a], m[b], x) for a, b, x in self.edges if a in m and b in m])

    def relabel(self):
        return G([num(i) for i in range(self.n)], self.edges)

    def planar(self):
        out = True
        for c in self.comps():
            g = self.sub(c)
            n, e = g.n, len({(min(a, b), max(a, b)) for a, b, _ in g.edges if a != b})
            if n <= 4:
                continue
            if e > 3 * n - 6 or e > 2 * n - 4 and g.bipartite():
                return False
            if n == 5 or e < 9 or n >= 6 and e <= n + 2:            # K5 has 10 edges, K33 has 9 and e - n = 3
                continue
            if contains_k33(g):
                return False
            if n == 6 and not g.has_k5():
                continue
            raise Unsup("planarity")
        return out

    def bipartite(self):
        col = {}
        for c in self.comps():
            for p, d in self.dist(c[0]).items():
                col[p] = d % 2
        return all(col[a] != col[b] for a, b, _ in self.edges)

    def has_k5(self):
        # a graph of 6 nodes with a K5 minor has at least 10 edges
        return len(self.edges) >= 10

    def key(self):
        return mk("tuple", *[x for a, b, w in self.edges for x in (num(a), num(b), NONE if w is None else w)], num(self.n))


def contains_k33(g):
    w = g.w()
    return any(all((a, b) in w for a in s for b in r) for s in itertools.combinations(range(g.n), 3)
               for r in itertools.combinations([x for x in range(g.n) if x not in s], 3))


class D:
    """dictionary with concrete keys"""

    def __init__(self, ks, vs):
        self.ks, self.vs = list(ks), list(vs)

    def get(self, k):
        for a, b in zip(self.ks, self.vs):
            if a is k:
                return b
        return None


class Deg(D):
    """degree view: iterated as (node, degree) pairs"""


def attr(w):
    return D([], []) if w is None else D([t.string("weight")], [w])


def adj(g, i):
    w = g.w()
    js = g.nbrs(i)
    return D([g.nodes[j] for j in js], [attr(w[i, j]) for j in js])


def the_graph(v):
    if not isinstance(v, G):
        raise Unsup("graph expected")
    return v


def method(*ns):
    """graph operation: applies only when the first operand is a graph"""
    def d(f):
        for n in ns:
            old = S.APPS.get(n)

            def g(E, vs, kw, f=f, old=old):
                if vs and isinstance(vs[0], (G, D)):
                    return f(E, vs, kw)
                return old(E, vs, kw) if old else None
            S.APPS[n] = g
        return f
    return d


def labels(E, g, v):
    return [g.pos(S.key(x)) for x in E.items(v)]


def boolean(b):
    return TRUE if b else FALSE


@method("nodes", ".nodes", "nx.nodes")
def _(E, vs, kw):
    return L("list", vs[0].nodes)


def edge_list(g, data, default=NONE):
    out = []
    for a, b, w in g.edges:
        e = [g.nodes[a], g.nodes[b]]
        if data is TRUE:
            e.append(attr(w))
        elif data is not None and data is not FALSE:
            e.append(w if w is not None else default)
        out.append(L("tuple", e))
    return L("list", out)


class View(L):
    """graph.edges and the like, which may also be called"""
    __slots__ = ("g",)

    def __init__(self, g, xs):
        super().__init__("list", xs)
        self.g = g


@method("edges", ".edges", "nx.edges")
def _(E, vs, kw):
    data = kw.get("data", vs[1] if len(vs) > 1 else None)
    if set(kw) - {"data", "default"} or data is not None and data not in (TRUE, FALSE) and data is not t.string("weight"):
        raise Unsup("edges")
    return View(vs[0], edge_list(vs[0], data, kw.get("default", NONE)).xs)


def call_view(E, vs, kw):
    if isinstance(vs[0], View):
        return S.APPS["edges"](E, [vs[0].g] + vs[1:], kw)
    if isinstance(vs[0], L) and len(vs) == 1 and not kw:
        return vs[0]
    return None


_old_call = S.APPS["call"]
S.APPS["call"] = lambda E, vs, kw: call_view(E, vs, kw) if isinstance(vs[0], L) else _old_call(E, vs, kw)


@method(".number_of_nodes", "nx.number_of_nodes", ".order", "number_of_nodes", "order")
def _(E, vs, kw):
    return num(vs[0].n)


@method(".number_of_edges", "nx.number_of_edges", "number_of_edges")
def _(E, vs, kw):
    if len(vs) == 1:
        return num(len(vs[0].edges))
    raise Unsup("edge count")


@method("nx.is_connected")
def _(E, vs, kw):
    if not vs[0].n:
        raise Unsup("empty graph")
    return boolean(len(vs[0].comps()) == 1)


@method("nx.connected_components")
def _(E, vs, kw):
    g = vs[0]
    return L("list", [L("set", [g.nodes[p] for p in c]) for c in g.comps()])


@method("nx.number_connected_components")
def _(E, vs, kw):
    return num(len(vs[0].comps()))


@method("nx.is_planar")
def _(E, vs, kw):
    return boolean(vs[0].planar())


@method("nx.check_planarity")
def _(E, vs, kw):
    p = vs[0].planar()
    return L("tuple", [boolean(p), mk("app", "embedding", (vs[0].key(),), ()) if p else NONE])


@method("nx.is_tree")
def _(E, vs, kw):
    g = vs[0]
    if not g.n:
        raise Unsup("empty graph")
    return boolean(len(g.comps()) == 1 and len(g.edges) == g.n - 1)


@method("nx.is_forest")
def _(E, vs, kw):
    g = vs[0]
    if not g.n:
        raise Unsup("empty graph")
    return boolean(len(g.edges) == g.n - len(g.comps()))


@method(".subgraph", "nx.subgraph", "nx.induced_subgraph")
def _(E, vs, kw):
    return vs[0].sub(set(labels(E, vs[0], vs[1])))


@method(".copy", "nx.Graph", "copy.deepcopy", "copy.copy", "nx.freeze", "copy")
def _(E, vs, kw):
    if len(vs) == 1 and not kw:
        return vs[0]
    raise Unsup("graph copy")


@method("nx.convert_node_labels_to_integers")
def _(E, vs, kw):
    if len(vs) == 1 and not set(kw):
        return vs[0].relabel()
    raise Unsup("relabelling")


def matrix(E, g, kw, nodelist=None):
    w = g.w()
    weight = kw.get("weight", t.string("weight"))
    if weight is not NONE and weight is not t.string("weight"):
        raise Unsup("weight")
    order = list(range(g.n))
    nl = kw.get("nodelist", nodelist)
    if nl is not None and nl is not NONE:
        order = labels(E, g, nl)
    if not order:
        raise Unsup("empty graph")
    return A((len(order), len(order)), [(ONE if weight is NONE or w[i, j] is None else w[i, j]) if (i, j) in w else ZERO for i in order for j in order], "float")


@method("nx.adjacency_matrix", "nx.to_numpy_array", "nx.to_scipy_sparse_array")
def _(E, vs, kw):
    if set(kw) - {"nodelist", "weight", "dtype"}:
        raise Unsup("adjacency")
    return matrix(E, vs[0], kw, vs[1] if len(vs) > 1 else None)


@method("nx.single_source_shortest_path_length", "nx.shortest_path_length", "nx.single_source_dijkstra_path_length")
def _(E, vs, kw):
    g = vs[0]
    s = vs[1] if len(vs) > 1 else kw.get("source")
    cut = vs[2] if len(vs) > 2 else kw.get("cutoff", NONE)
    if s is None or len(vs) > 3 or set(kw) - {"source", "cutoff"} or cut is not NONE and cut.op != "num":
        raise Unsup("shortest paths")
    d = g.dist(g.pos(S.key(s)))
    if cut is not NONE:
        d = {p: x for p, x in d.items() if x <= cut.args[0]}
    return D([g.nodes[p] for p in d], [num(x) for x in d.values()])


@method("nx.eccentricity")
def _(E, vs, kw):
    g = vs[0]
    s = vs[1] if len(vs) > 1 else kw.get("v")
    if len(g.comps()) != 1:
        raise Unsup("not connected")
    if s is None:
        return D(g.nodes, [num(max(g.dist(p).values())) for p in range(g.n)])
    return num(max(g.dist(g.pos(S.key(s))).values()))


@method("nx.diameter", "nx.radius")
def _(E, vs, kw):
    raise Unsup("diameter")


def _dia(f):
    def h(E, vs, kw):
        g = vs[0]
        if len(g.comps()) != 1:
            raise Unsup("not connected")
        return num(f(max(g.dist(p).values()) for p in range(g.n)))
    return h


method("nx.diameter")(_dia(max))
method("nx.radius")(_dia(min))


@method("degree", ".degree", "nx.degree")
def _(E, vs, kw):
    g = vs[0]
    if len(vs) == 2:
        return num(len(g.nbrs(g.pos(S.key(vs[1])))))
    return Deg(g.nodes, [num(len(g.nbrs(p))) for p in range(g.n)])


@reg("dictof")
def _(E, vs, kw):
    if len(vs) != 1 or kw:
        return None
    v = vs[0]
    if isinstance(v, D):
        return D(v.ks, v.vs)
    ps = [E.items(x) for x in E.items(v)]
    if any(len(p) != 2 for p in ps) or not all(concrete(p[0]) for p in ps):
        return None
    out = {}
    for a, b in ps:
        out[S.key(a)] = b
    return D(list(out), list(out.values()))


@method("neighbors", ".neighbors", "nx.neighbors")
def _(E, vs, kw):
    g = vs[0]
    return L("list", [g.nodes[p] for p in g.nbrs(g.pos(S.key(vs[1])))])


@method("has_edge", ".has_edge")
def _(E, vs, kw):
    g = vs[0]
    return boolean((g.pos(S.key(vs[1])), g.pos(S.key(vs[2]))) in g.w())


@method("is_directed", ".is_directed", "nx.is_directed", "is_multigraph", ".is_multigraph")
def _(E, vs, kw):
    return FALSE


@method("get_edge_data", ".get_edge_data")
def _(E, vs, kw):
    g = vs[0]
    w = g.w()
    k = g.pos(S.key(vs[1])), g.pos(S.key(vs[2]))
    return attr(w[k]) if k in w else NONE


@method("get", ".get")
def _(E, vs, kw):
    if isinstance(vs[0], G):
        raise Unsup("get")
    r = vs[0].get(S.key(vs[1]))
    return r if r is not None else vs[2] if len(vs) > 2 else NONE


@method("values", ".values")
def _(E, vs, kw):
    return L("list", vs[0].vs)


@method("keys", ".keys")
def _(E, vs, kw):
    return L("list", vs[0].ks)


@method("items", ".items")
def _(E, vs, kw):
    return L("list", [L("tuple", [a, b]) for a, b in zip(vs[0].ks, vs[0].vs)])


def concrete(x):
    return isinstance(x, T) and x.op in ("num", "str") or isinstance(x, L) and all(map(concrete, x.xs))


@reg("set", "frozenset", "builtins.frozenset")
def _(E, vs, kw):
    try:
        xs = E.items(vs[0])
    except Unsup:
        return None
    if not all(map(concrete, xs)):
        return None
    seen = {}
    for x in xs:
        seen.setdefault(S.key(x), x)
    return L("set", [seen[k] for k in sorted(seen, key=lambda z: z.dig)])


def _setop(f):
    def h(E, vs, kw):
        if not isinstance(vs[0], L) or len(vs) != 2:
            return None
        a, b = ({S.key(x): x for x in E.items(v)} for v in vs)
        if not all(map(concrete, list(a.values()) + list(b.values()))):
            return None
        ks = f(set(a), set(b))
        a.update(b)
        return L("set", [a[k] for k in sorted(ks, key=lambda z: z.dig)])
    return h


for _n, _f in (("union", set.union), ("intersection", set.intersection), ("difference", set.difference)):
    S.APPS["." + _n] = S.APPS[_n] = _setop(_f)


@reg("isdisjoint", ".isdisjoint")
def _(E, vs, kw):
    a, b = ([S.key(x) for x in E.items(v)] for v in vs)
    return boolean(not set(a) & set(b))


@reg("in")
def _(E, vs, kw):
    x, c = vs
    if isinstance(c, G):
        return boolean(any(y is S.key(x) for y in c.nodes))
    if isinstance(c, D):
        return boolean(c.get(S.key(x)) is not None)
    if isinstance(c, L) and concrete(x) and all(map(concrete, c.xs)):
        return boolean(S.key(x) in [S.key(y) for y in c.xs])
    return None


@reg("nxgraph")
def _(E, vs, kw):
    """a graph built step by step: class, nodes and weighted edges, whatever the order they were added in"""
    evs = E.items(vs[0])
    if not evs or not isinstance(evs[0], T) or evs[0].op != "str":
        return None
    directed = evs[0] is t.string("DiGraph")
    nodes, edges = {}, {}

    def edge(u, v, w):
        ku, kv = S.key(u), S.key(v)
        if not (concrete(u) and concrete(v)):
            raise Unsup("node names")
        nodes.setdefault(ku, u)
        nodes.setdefault(kv, v)
        k = (ku, kv) if directed or ku.dig <= kv.dig else (kv, ku)
        old = edges.get(k)
        edges[k] = old if w is None and old is not None else w
    for e in evs[1:]:
        kind, *xs = e.xs
        kind = kind.args[0]
        if kind in ("node", "nodes"):
            x = xs[0]
            if not concrete(x) or kind == "nodes" and isinstance(x, L) and len(x.xs) == 2 and not concrete(x.xs[1]):
                raise Unsup("node name")
            nodes.setdefault(S.key(x), x)
        else:
            if kind == "edge":
                u, v, w = xs
            else:
                es = E.items(xs[0])
                if kind == "wedges":
                    if len(es) != 3:
                        raise Unsup("weighted edge")
                    u, v, w = es
                elif len(es) == 2:
                    (u, v), w = es, xs[1]
                else:
                    raise Unsup("edge data")
            if isinstance(w, L) and not w.xs:
                w = None
            elif not isinstance(w, T):
                raise Unsup("edge weight")
            edge(u, v, w)
    ns = sorted(nodes, key=lambda z: z.dig)
    ks = sorted(edges, key=lambda z: (z[0].dig, z[1].dig))
    return L("tuple", [t.string("directed graph" if directed else "graph"), L("list", [nodes[k] for k in ns]),
                       L("list", [L("tuple", [nodes[a], nodes[b], t.string("no weight") if edges[a, b] is None else edges[a, b]]) for a, b in ks])])


# ------------------------------------------------------------------ instances
def graph(nm, labels_, edges, missing=(), zeros=()):
    def w(k):
        return None if k in missing else ZERO if k in zeros else t.sym(f"{nm}.w{k}", "real")
    return G([num(x) if isinstance(x, int) else t.string(x) for x in labels_], [(a, b, w(k)) for k, (a, b) in enumerate(edges)])


def path(n):
    return [(i, i + 1) for i in range(n - 1)]


def cycle(n):
    return path(n) + [(0, n - 1)]


def complete(n):
    return list(itertools.combinations(range(n), 2))


K33 = [(a, b) for a in range(3) for b in range(3, 6)]


def _insts(rows):
    return [(lab, lambda nm, q=q: graph(nm, *q)) for lab, *q in rows]


GRAPHS = _insts([
    ("square", range(4), cycle(4)), ("edge", range(2), path(2)), ("path of 4", range(4), path(4)), ("path of 3", range(3), path(3)), ("empty graph", (), ()),
    ("complete graph of 4", range(4), complete(4)), ("two disjoint edges", range(4), [(0, 1), (2, 3)]), ("two interleaved edges", range(4), [(0, 2), (1, 3)]),
    ("triangle", range(3), complete(3)), ("edge and two isolated nodes", range(4), [(0, 1)]), ("star of 4", range(4), [(0, 1), (0, 2), (0, 3)]),
    ("square with string labels", "dbca", cycle(4)), ("square with labels out of order", (3, 0, 2, 1), cycle(4)), ("path with large labels", (50, 7, 23, 9), path(4)),
    ("square with an unweighted edge", range(4), cycle(4), (1,)), ("unweighted square", range(4), cycle(4), range(4)),
    ("square and an edge", range(6), cycle(4) + [(4, 5)]), ("triangle and an isolated node", range(4), complete(3)), ("two triangles", range(6), [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5)]),
    ("hexagon", range(6), cycle(6)), ("single node", (0,), ()), ("path of 6", range(6), path(6)),
    ("K33", range(6), K33), ("K33 with an unweighted edge", range(6), K33, (4,)), ("K33 with labels out of order", (5, 3, 1, 4, 2, 0), K33), ("K33 and an edge", range(8), K33 + [(6, 7)]),
    ("K33 with an edge of weight 0", range(6), K33, (), (4,)), ("square with an edge of weight 0", range(4), cycle(4), (), (1,)),
    ("complete graph of 5", range(5), complete(5)), ("complete graph of 6", range(6), complete(6)), ("K33 and an isolated node", range(7), K33)])
BRUTE = GRAPHS + _insts([("path of 14", range(14), path(14)), ("path of 16", range(16), path(16)), ("path of 17", range(17), path(17)), ("path of 15", range(15), path(15))])
TREES = _insts([("path of 4", range(4), path(4)), ("path from its middle", range(5), [(0, 1), (0, 2), (1, 3), (3, 4)]), ("star of 4", range(4), [(0, 1), (0, 2), (0, 3)]), ("star from a leaf", range(4), [(1, 0), (1, 2), (1, 3)]),
                ("path with labels out of order", (3, 0, 2, 1), path(4)), ("path with string labels", "dbca", path(4)), ("single node", (0,), ()), ("square", range(4), cycle(4)), ("two edges", range(4), [(0, 1), (2, 3)]),
                ("triangle and an isolated node", range(4), complete(3)), ("path from its second node", range(4), [(0, 1), (0, 2), (2, 3)])])


# ------------------------------------------------------------------ what the package's own graph functions stand for
def m_pfo(E, vs, kw):
    g = the_graph(vs[0])
    k = mk("app", "pfo", (g.relabel().key(),), ()).dig
    return A((g.n, g.n), [t.sym(f"pfo{k}[{i},{j}]", "real") if (i, j) in g.w() else ZERO for i in range(g.n) for j in range(g.n)], "float")


def m_planar(E, vs, kw):
    g = the_graph(vs[0])
    if g.n % 2 or not g.n:
        return ZERO
    if not g.planar():
        raise Unsup("not planar")
    r = ONE
    for c in g.comps():
        s = g.sub(c)
        if s.n % 2:
            return ZERO
        r = S.mult(r, t.sym(f"count{mk('app', 'count', (s.relabel().key(),), ()).dig}!nonneg", "real"))
    return r


def m_brute(E, vs, kw):
    g = the_graph(vs[0])
    if g.n % 2:
        return L("list", [])
    if g.n > 15:
        raise Unsup("raises")
    out = []
    for c in itertools.combinations(g.edges, g.n // 2):
        if len({x for a, b, _ in c for x in (a, b)}) == g.n:
            out.append(L("tuple", [L("tuple", [g.nodes[a], g.nodes[b]]) for a, b, _ in c]))
    return L("list", out)


def m_count(E, vs, kw):
    g = the_graph(vs[0])
    if g.planar():
        return m_planar(E, vs, kw)
    w = g.w()
    r = ZERO
    for m in m_brute(E, vs, kw).xs:
        p = ONE
        for e in m.xs:
            x = w[tuple(g.pos(y) for y in e.xs)]
            p = S.mult(p, ONE if x is None else x)
        r = S.addt(r, p)
    return r


def m_clean(E, vs, kw):
    return vs[0] if isinstance(vs[0], T) else None      # equal up to the cleaning tolerance


def m_det(E, vs, kw):
    v = vs[0]
    if not isinstance(v, A) or v.nd != 2 or v.shape[0] != v.shape[1]:
        return NONE
    return S.det(v)


MODELS = {"ff.pfo_algorithm": m_pfo, "ff.count_perfect_matchings_planar": m_planar, "ff.find_perfect_matchings_brute": m_brute,
          "ff.count_perfect_matchings": m_count, "ff.clean": m_clean, "ff.dt_eigen": m_det, "ff.dt": m_det}
def _mat(rows):
    return lambda nm: A((len(rows), len(rows)), [x if isinstance(x, T) else t.sym(f"{nm}.{x}", "real") if isinstance(x, str) else num(x) for r in rows for x in r], "float")


MATS = [(lab, _mat(rows)) for lab, rows in [
    ("symmetric 3x3 matrix", ["0ab", "a0c", "bc0"]), ("general 3x3 matrix", ["abc", "def", "ghk"]), ("general 2x2 matrix", ["ab", "cd"]), ("symmetric 2x2 matrix", ["ab", "bc"]),
    ("triangular 3x3 matrix", ["0ab", "00c", "000"]), ("symmetric matrix with zeros", ["0a0", "a0b", "0b0"]), ("zero matrix", [(0, 0), (0, 0)]), ("1x1 matrix", ["a"]),
    ("symmetric number matrix", [(0, F(123456, 100000), F(-2)), (F(123456, 100000), F(1, 2), 0), (F(-2), 0, 0)]), ("number matrix", [(0, F(123456, 100000)), (F(-277777, 100000), 0)]),
    ("small weights", [(0, F(1, 20000) * 3), (F(1, 20000) * 3, 0)]), ("tiny weights", [(0, F(1, 10 ** 6)), (F(1, 10 ** 6), 0)]), ("antisymmetric matrix", [(0, 2), (-2, 0)]), ("negative weights", [(0, -2), (-2, 0)])]]


def zeroed(a, nm):
    """a written 0 is the number"""
    z = t.sym(f"{nm}.0", "real")
    return A(a.shape, [ZERO if x is z else x for x in a.d], a.dt)


SPECIAL = {("plot_graph_with_edge_weights", 0): [(lab, lambda nm, f=f: zeroed(f(nm), nm)) for lab, f in MATS] + GRAPHS[:8],
           ("count_perfect_matchings", 0): GRAPHS, ("count_perfect_matchings_planar", 0): [g for g in GRAPHS if "K33" not in g[0] and g[0][-1] not in "56" or "path of" in g[0]],
           ("find_perfect_matchings_brute", 0): BRUTE, ("compute_tree_depth", 0): TREES}
NAMES = {n for n, _ in SPECIAL}


def canonical(v):
    """a list of edge sets regardless of order"""
    if isinstance(v, L):
        ms = []
        for m in v.xs:
            if not isinstance(m, L):
                return v
            es = [L("tuple", sorted(e.xs, key=lambda z: S.key(z).dig)) if isinstance(e, L) and len(e.xs) == 2 else e for e in m.xs]
            ms.append(L("tuple", sorted(es, key=lambda z: S.key(z).dig)))
        return L("list", sorted(ms, key=lambda z: S.key(z).dig))
    return v


# ------------------------------------------------------------------ outcomes of the random planar graph generator
_BAD = {6: [("K33", K33), ("complete graph of 4 and two isolated nodes", complete(4)), ("complete graph of 4 and an edge", complete(4) + [(4, 5)]), ("square, a chord and two isolated nodes", cycle(4) + [(0, 2)]),
            ("two triangles", [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5)])],
        7: [("K33 and an isolated node", K33), ("K33 and a pendant node", K33 + [(5, 6)]), ("complete graph of 4 and a triangle", complete(4) + [(4, 5), (5, 6), (4, 6)])],
        5: [("complete graph of 4 and an isolated node", complete(4))], 4: [("triangle and an isolated node", complete(3))]}


class Stream:
    """successive random graphs: the listed ones first, then planar connected ones (or the last one for ever)"""

    def __init__(self, n, first, forever):
        self.n, self.first, self.forever, self.seen = n, first, forever, {}

    def draw(self, E, vs, kw):
        if kw or len(vs) != 2 or as_int(vs[0]) is None:
            raise Unsup("random graph")
        n = as_int(vs[0])
        k = S.key(vs[1])
        if n != self.n:
            raise Unsup("another number of nodes")
        if k not in self.seen:
            i = len(self.seen)
            if i < len(self.first) or self.forever:
                es = self.first[min(i, len(self.first) - 1)]
            else:
                es = path(n)
            lo, hi = self.span(k)
            if not lo <= len(es) <= hi:
                raise Unsup("number of edges")
            self.seen[k] = G([num(j) for j in range(n)], [(a, b, None) for a, b in es])
        return self.seen[k]

    def span(self, k):
        if as_int(k) is not None:
            return as_int(k), as_int(k)
        if k.op == "draw" and k.args[0] == "randint" and len(k.args[1]) >= 2:
            lo, hi = as_int(k.args[1][0]), as_int(k.args[1][1])
            if lo is not None and hi is not None:
                return lo, hi - 1
        raise Unsup("number of edges")


def planar_outcome(term, nsym, deadline):
    """a sequence of random graphs for which the returned graph is not planar, not connected or lacks nodes"""
    import time
    for n, rows in _BAD.items():
        seqs = [([r], f) for r in rows for f in (False, True)] + [([a, b], False) for a in rows for b in rows if a is not b]
        for first, forever in seqs:
            if time.time() > deadline:
                return None
            st = Stream(n, [e for _, e in first], forever)
            E = S.Ev({nsym: num(n)}, {}, min(deadline, time.time() + 5), {})
            E.stream = st
            try:
                v = E.ev(term)
            except (Unsup, S.Split, t.TooBig, RecursionError):
                continue
            if not isinstance(v, G):
                continue
            bad = ["does not have all nodes"] if v.n != n else []
            bad += [] if v.n and len(v.comps()) == 1 else ["is not connected"]
            try:
                bad += [] if v.planar() else ["is not planar"]
            except Unsup:
                pass
            if bad:
                return [f"for {n} nodes when the random graphs are " + ", then ".join(a for a, _ in first) + (" from then on" if forever else ", then planar connected ones"),
                        "the returned graph " + " and ".join(bad)]
    return None


@reg("nx.gnm_random_graph")
def _(E, vs, kw):
    st = getattr(E, "stream", None)
    return st.draw(E, vs, kw) if st else None


def _bylen(pick):
    def h(E, vs, kw):
        k = kw.get("key")
        if set(kw) == {"key"} and isinstance(k, T) and k.op == "pyfn" and str(k.args[0]).endswith("len") and len(vs) == 1:
            xs = E.items(vs[0])
            if xs and all(isinstance(x, L) for x in xs):
                return pick(xs, key=lambda x: len(x.xs))
        return None
    return h


S.APPS["builtins.max"], S.APPS["builtins.min"] = _bylen(max), _bylen(min)
