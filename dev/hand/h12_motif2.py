# file: dynetworkx/algorithms/count_temporal_motif.py
from collections import Counter, defaultdict
from itertools import groupby, takewhile
def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
    if len(v_subgraph) == size_k:
        yield g.subgraph(v_subgraph)
        return
    remaining = set(v_extension)
    for w in list(v_extension):
        remaining.discard(w)
        neighbours = set(g.neighbors(w)).difference(v_subgraph)
        larger = {x for x in neighbours if x > v}
        yield from __extend_subgraph(v_subgraph.union({w}), remaining.union(larger), v, g, size_k)

def __same_time(edges, position):
    time = edges[position][2]
    group = []
    while position < len(edges) and edges[position][2] == time:
        group.append(edges[position][0:2])
        position += 1
    return group, position

def __is_isomorphic(node_sequence, keys):
    node_map = {}
    for i, n in enumerate(node_sequence):
        if n in node_map:
            if node_map[n] != keys[i]:
                return False
        elif keys[i] in set(node_map.values()):
            return False
        else:
            node_map[n] = keys[i]
    return True

def __count_sub(G, sub, length, delta):
    counts = {}
    edges = []
    nodes = list(sub.nodes())
    for i, u in enumerate(nodes):
        edges.extend(G.edges(u, u))
        for v in nodes[i + 1:]:
            edges.extend(G.edges(u, v))
            edges.extend(G.edges(v, u))
    edges.sort(key=lambda x: x[2])
    start = end = 0
    while end < len(edges):
        while edges[start][2] + delta < edges[end][2]:
            group, start = __same_time(edges, start)
            __decrement_counts(group, length, counts)
        group, end = __same_time(edges, end)
        __increment_counts(group, length, counts)
    return counts

def count_temporal_motif(G, sequence, delta):
    if not isinstance(G, dnx.ImpulseDiGraph):
        raise TypeError('This function only supports ImpulseDiGraph')
    node_sequence = tuple(itertools.chain.from_iterable(sequence))
    g = Graph(G.to_networkx_graph())
    size_k = len(set(node_sequence))
    length = len(sequence)
    total_counts = {}
    for sub in __enumerate_subgraphs(g, size_k=size_k):
        counts = __count_sub(G, sub, length, delta)
        for keys in sorted(counts):
            if len(keys) == 2 * length and counts[keys] and __is_isomorphic(node_sequence, keys):
                total_counts[keys] = counts[keys]
    motif = list(dict.fromkeys(node_sequence))
    nodes = sorted(set(n for key in total_counts for n in key))
    nppp = pd.DataFrame(index=nodes, columns=motif)
    for col in nppp.columns:
        nppp[col].values[:] = 0
    for key in total_counts:
        distinct = list(OrderedDict.fromkeys(key))
        for i, position in enumerate(motif):
            nppp.at[distinct[i], position] += total_counts[key]
    return sum(total_counts.values()), total_counts, nppp

def __decrement_counts(edges, motif_length, counts):
    if motif_length > 1:
        ordered = sorted(counts, key=lambda k: len(k))
        for e in edges:
            counts[e] = counts[e] - 1
        for suffix in ordered:
            if len(suffix) >= 2 * (motif_length - 1):
                break
            for e in edges:
                whole = e + suffix
                if counts.get(whole):
                    counts[whole] -= counts[suffix]

def __increment_counts(edges, motif_length, counts):
    known = sorted(counts.items(), key=lambda item: len(item[0]), reverse=True)
    for prefix, n in known:
        if len(prefix) >= 2 * motif_length:
            continue
        for e in edges:
            key = prefix + e
            if key in counts:
                counts[key] += counts[prefix]
            else:
                counts[key] = counts[prefix]
    for e in edges:
        counts.setdefault(e, 0)
        counts[e] += 1
