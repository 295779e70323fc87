"""Reference definitions: graphs and matchings."""
import itertools
import math
import random
import networkx as nx
import numpy as np
from ff import count_perfect_matchings_planar, find_perfect_matchings_brute, pfo_algorithm, dt_eigen, clean, complete_face


def ref_count_perfect_matchings(graph):
    if nx.is_planar(graph):
        return count_perfect_matchings_planar(graph)
    return sum(math.prod(graph[u][v].get("weight", 1) for u, v in m) for m in find_perfect_matchings_brute(graph))


def ref_count_perfect_matchings_planar(graph):
    if len(graph) == 0 or len(graph) % 2 != 0:
        return 0
    if not nx.is_connected(graph):
        return math.prod(count_perfect_matchings_planar(graph.subgraph(c)) for c in nx.connected_components(graph))
    M = np.triu(np.multiply(pfo_algorithm(graph), nx.adjacency_matrix(graph).toarray()))
    return clean(np.sqrt(dt_eigen(M - np.transpose(M))), 10)


def ref_find_perfect_matchings_brute(graph):
    n = len(graph.nodes)
    if n % 2 != 0:
        return []
    if n > 15:
        raise ValueError("size")
    out = []
    for c in itertools.combinations(list(graph.edges), n // 2):
        s = set()
        for u, v in c:
            s.add(u)
            s.add(v)
        if len(s) == n:
            out.append(c)
    return out


def ref_compute_tree_depth(graph):
    if not nx.is_tree(graph):
        raise ValueError("tree")
    d = nx.single_source_shortest_path_length(graph, list(graph.nodes())[0])
    return max(d.values())


def ref_generate_random_planar_graph(n, seed):
    for k in range(1000):
        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))
        if nx.check_planarity(G)[0] and nx.is_connected(G):
            return G
    return None


def probe_complete_face(pfo, edges):
    """the orientation (entry of the smaller to the larger position) after completing a face with one unassigned edge"""
    k = 0
    for e in edges:
        if np.allclose(np.real(pfo[min(e[0], e[1]), max(e[0], e[1])]), 0):
            k += 1
    if k != 1:
        return None
    complete_face(pfo, edges)
    return np.triu(pfo)


def ref_complete_face(pfo, edges):
    k, sign, free = 0, 1, []
    for e in edges:
        u, v = min(e[0], e[1]), max(e[0], e[1])
        d = 1
        if e[0] > e[1]:
            d = -1
        if np.allclose(np.real(pfo[u, v]), 0):
            k += 1
            free.append(e)
        else:
            sign = sign * pfo[u, v] * d
    if k != 1:
        return None
    e = free[-1]
    d = 1
    if e[0] > e[1]:
        d = -1
    u, v = min(e[0], e[1]), max(e[0], e[1])
    if sign == -1:
        pfo[u, v] = d
        pfo[v, u] = d
    else:
        pfo[u, v] = -d
        pfo[v, u] = -d
    return np.triu(pfo)


def ref_plot_graph_with_edge_weights(A, matching, title):
    if isinstance(A, nx.Graph) or isinstance(A, nx.DiGraph) or isinstance(A, nx.MultiGraph) or isinstance(A, nx.MultiDiGraph):
        A = nx.to_numpy_array(A, weight="weight")
    n = A.shape[0]
    if np.allclose(A, A.T):
        G = nx.Graph()
        G.add_nodes_from(range(n))
        for i in range(n):
            for j in range(i + 1, n):
                if A[i, j] != 0:
                    G.add_edge(i, j, weight=round(10e3 * A[i, j]) / 10e3)
        return G
    G = nx.DiGraph()
    G.add_nodes_from(range(n))
    for i in range(n):
        for j in range(n):
            if A[i, j] != 0:
                G.add_edge(i, j, weight=round(10e3 * A[i, j]) / 10e3)
    return G
