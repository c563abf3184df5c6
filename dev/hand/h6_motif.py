# file: dynetworkx/algorithms/count_temporal_motif.py
from collections import Counter
from itertools import groupby
def __enumerate_subgraphs(g, size_k):
    for v in g.nodes():
        extension = {w for w in g.neighbors(v) if w > v}
        for sub in __extend_subgraph({v}, extension, v, g, size_k):
            yield sub

def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
    if len(v_subgraph) == size_k:
        yield g.subgraph(v_subgraph)
        return
    while v_extension:
        w = v_extension.pop()
        further = {x for x in g.neighbors(w) if x > v and x not in v_subgraph}
        yield from __extend_subgraph(v_subgraph | {w}, v_extension | further, v, g, size_k)

def __matches(node_sequence, keys):
    node_map = {}
    for a, b in zip(node_sequence, keys):
        if a in node_map:
            if node_map[a] != b:
                return False
        elif b in node_map.values():
            return False
        else:
            node_map[a] = b
    return True

def count_temporal_motif(G, sequence, delta):
    if not isinstance(G, dnx.ImpulseDiGraph):
        raise TypeError('This function only supports ImpulseDiGraph')
    total_counts = {}
    node_sequence = tuple(node for edge in sequence for node in edge)
    g = Graph(G.to_networkx_graph())
    size = len(set(node_sequence))
    for sub in __enumerate_subgraphs(g, size_k=size):
        counts = {}
        edges = []
        for u in sub.nodes():
            for v in sub.nodes():
                edges += G.edges(u, v)
        edges.sort(key=lambda e: e[2])
        start = end = 0
        while end < len(edges):
            while edges[end][2] - edges[start][2] > delta:
                time = edges[start][2]
                leaving = []
                while start < len(edges) and edges[start][2] == time:
                    leaving.append(edges[start][:2])
                    start += 1
                __decrement_counts(leaving, len(sequence), counts)
            time = edges[end][2]
            arriving = []
            while end < len(edges) and edges[end][2] == time:
                arriving.append(edges[end][:2])
                end += 1
            __increment_counts(arriving, len(sequence), counts)
        for keys in sorted(counts):
            if len(keys) == len(node_sequence) and counts[keys] != 0 and __matches(node_sequence, keys):
                total_counts[keys] = counts[keys]
    motif = list(OrderedDict.fromkeys(node_sequence))
    nodes = sorted({n for key in total_counts for n in key})
    nppp = pd.DataFrame(0, index=nodes, columns=motif)
    for key, count in total_counts.items():
        for position, node in zip(motif, OrderedDict.fromkeys(key)):
            nppp.at[node, position] += count
    return sum(total_counts.values()), total_counts, nppp

def __decrement_counts(edges, motif_length, counts):
    if motif_length == 1:
        return
    suffixes = sorted(counts.keys(), key=len)
    for e in edges:
        counts[e] -= 1
    for suffix in suffixes:
        if len(suffix) // 2 >= motif_length - 1:
            continue
        for e in edges:
            if e + suffix in counts:
                counts[e + suffix] -= counts[suffix]

def __increment_counts(edges, motif_length, counts):
    for prefix in sorted(counts, key=len, reverse=True):
        if len(prefix) // 2 < motif_length:
            for e in edges:
                counts[prefix + e] = counts.get(prefix + e, 0) + counts[prefix]
    for e in edges:
        counts[e] = counts.get(e, 0) + 1
