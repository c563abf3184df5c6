IG, IDG, MG, MDG, TR, SG = ("classes/intervalgraph.py", "classes/intervaldigraph.py", "classes/impulsegraph.py",
                            "classes/impulsedigraph.py", "classes/intervaltree.py", "classes/snapshotgraph.py")
CT = "algorithms/count_temporal_motif.py"
PLANTS = [
 dict(id="b43-size-splits", property="C07", edits=[(SG, "            return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]", "            return [graph.size(weight=weight) for graph in self._get(start=start, end=end, split_overlaps=weight is not None)]")],
  needs="a weighted size query whose bound lies inside a snapshot", breaks="the query splits the snapshot it looks at",
  demo="""
import networkx as nx
S = dnx.SnapshotGraph()
g = nx.Graph(); g.add_edge(1, 2, weight=2)
S.insert(g, start=0, end=10)
S.size(start=3, end=6, weight='weight')
assert len(S) == 1, len(S)
"""),
 dict(id="b47-run-attr", property="C11", edits=[(IG, "                    if begin in edge_dict[u_v]:\n", "                    if begin in edge_dict[u_v] and edge_dict[u_v][begin][1] == edge[2]:\n")],
  needs="an edge present in consecutive snapshots with different attributes", breaks="the unbroken run is split into several intervals",
  demo="""
import networkx as nx
S = dnx.SnapshotGraph()
g = nx.Graph(); g.add_edge(1, 2, w=1)
h = nx.Graph(); h.add_edge(1, 2, w=2)
S.insert(g, start=0, end=1); S.insert(h, start=1, end=2)
G = dnx.IntervalGraph.from_snapshot_graph(S)
assert list(G.edges()) == [(1, 2, 0, 2)], G.edges()
"""),
 dict(id="b48-merge-late", property="C12", edits=[(IG, "G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True)", "G.edges(u, v, begin - merge[1] - 1, end + merge[1], data=True)")],
  needs="merging on load with lines in descending time order whose gap is exactly the allowed one", breaks="intervals at the merge distance are not merged when the later one comes first",
  demo="""
import os, tempfile
d = tempfile.mkdtemp()
p = os.path.join(d, 'f.txt')
open(p, 'w').write('1 2 5 7\\n1 2 1 3\\n')
G = dnx.IntervalGraph.load_from_txt(p, merge=(True, 2))
os.remove(p); os.rmdir(d)
assert list(G.edges()) == [(1, 2, 1.0, 7.0)], G.edges()
"""),
 dict(id="b53-delta-own-begin", property="C16", edits=[(IDG, "        current_degree = self.in_degree(node, begin=begin, end=begin)\n        sd = SortedDict()", "        current_degree = len([e for e in self.edges(v=node, begin=begin, end=begin) if e[2] != e[3]])\n        sd = SortedDict()")],
  needs="in-degree changes of a digraph from an instant with an instantaneous edge on", breaks="a zero-length edge at the first instant is taken off without ever having been counted",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 0); G.add_edge(3, 2, 4, 6)
d = G.in_degree(2, delta=True)
assert dict(d) == {0: 0, 4: 1}, d
"""),
 dict(id="b54-route-selfloop", property="C17", edits=[(IDG, "                nodes = set(u).union(set(v))\n", "                nodes = set(u).union(set(v))\n                u = [x for x in u if x not in v] or u\n")],
  needs="both endpoints given as overlapping lists, a window and a trained model", breaks="first endpoints that also are second endpoints are ignored once a model is trained",
  demo="""
class M(object):
    def predict(self, x):
        return [(0, 1)]
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 5); G.add_edge(2, 1, 1, 6)
want = sorted(G.edges(u=[1, 2], v=[1], begin=0, end=9))
G._model = M()
got = sorted(G.edges(u=[1, 2], v=[1], begin=0, end=9))
assert got == want == [(2, 1, 1, 6)], (got, want)
G.add_edge(1, 1, 2, 3)
got = sorted(G.edges(u=[1, 2], v=[1], begin=0, end=9))
assert got == [(1, 1, 2, 3), (2, 1, 1, 6)], got
"""),
 dict(id="b56-interval-elif", property="C21", edits=[(TR, "            self.begin = traversal_node.low\n        if self.end == end:\n", "            self.begin = traversal_node.low\n        elif self.end == end:\n")],
  needs="removal of an edge that is both the first to begin and the last to end while others remain", breaks="the interval keeps the end of the removed edge",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 0, 10); G.add_edge(2, 3, 4, 6)
G.remove_edge(1, 2)
assert G.interval() == (4, 6), G.interval()
"""),
 dict(id="b59-discard-succ-max", property="C03", edits=[(TR, "        if balance > 1:\n            if root.left.right == node:\n                root.left = self.leftRotate(root.left)\n            return self.rightRotate(root)\n\n        elif balance < -1:\n            if root.right.left == node:\n                root.right = self.rightRotate(root.right)\n            return self.leftRotate(root)\n\n        self.updateMax(root)\n\n        return root\n\n    def leftRotate", "        if balance > 1:\n            if root.left.right == node:\n                root.left = self.leftRotate(root.left)\n            return self.rightRotate(root)\n\n        elif balance < -1:\n            if root.right.left == node:\n                root.right = self.rightRotate(root.right)\n            return self.leftRotate(root)\n\n        if root.max == node.high:\n            self.updateMax(root)\n\n        return root\n\n    def leftRotate")],
  needs="deletion of an interval with two children whose successor has a smaller maximum than the subtree", breaks="the successor keeps its own old maximum, lookups prune the subtree below it",
  demo="""
import random
for seed in range(80):
    r = random.Random(seed)
    G = dnx.IntervalGraph()
    es = []
    for i in range(30):
        b = r.randint(-20, 20)
        es.append((2 * i, 2 * i + 1, b, b + r.choice([0, 1, 2, 40])))
        G.add_edge(*es[-1])
    r.shuffle(es)
    while len(es) > 3:
        e = es.pop()
        G.remove_edge(*e[:2])
        for t in range(-20, 62, 3):
            got = set(G.edges(begin=t, end=t + 1))
            want = {x for x in es if (x[2] < t + 1 and x[3] > t) or x[2] == t}
            assert got == want, (seed, t, got, want)
"""),
 dict(id="b61-rejected-edges", property="C15", edits=[(MG, "        for e in ebunch_to_add:\n            if len(e) != 3:\n", "        for e in ebunch_to_add:\n            if len(e) < 3:\n")],
  needs="a malformed edge tuple that is too long", breaks="the malformed tuple is accepted",
  demo="""
import networkx as nx
G = dnx.ImpulseGraph()
try:
    G.add_edges_from([(1, 2, 3, 4)])
except nx.NetworkXError:
    pass
else:
    raise AssertionError('accepted')
"""),
 dict(id="b62-degree-mean-window", property="C16", edits=[(MG, "                l += self.degree(node, begin=begin, end=end, inclusive=inclusive)\n", "                l += self.degree(node, begin=begin, end=end)\n")],
  needs="mean degree with inclusive flags and an event on a bound", breaks="the flags are ignored for the degrees but not for the nodes",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3); G.add_edge(2, 3, 7)
assert G.degree(begin=3, end=7, inclusive=(True, True)) == 4 / 3, G.degree(begin=3, end=7, inclusive=(True, True))
"""),
 dict(id="b64-part-order", property="C23", edits=[(CT, "    motif = list(OrderedDict.fromkeys(positions))", "    motif = sorted(OrderedDict.fromkeys(positions))")],
  needs="a motif whose nodes do not appear in ascending order", breaks="the columns of the participation table are not in order of appearance and counts land in the wrong column",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edge(1, 2, 0); G.add_edge(2, 3, 1)
t, c, n = dnx.count_temporal_motif(G, ((5, 2), (2, 7)), 3)
assert t == 1
assert list(n.columns) == [5, 2, 7], n
assert n.at[1, 5] == 1 and n.at[2, 2] == 1 and n.at[3, 7] == 1, n
"""),

 dict(id="b40-remove-flags", property="C05", edits=[(MG, "                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):\n                    iedges_to_remove.append(iv)", "                if self.__in_interval(iv[2], begin, end):\n                    iedges_to_remove.append(iv)")],
  needs="window removal with inclusive flags other than the default and an edge on a bound", breaks="removal ignores the flags",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3); G.add_edge(1, 2, 5)
G.remove_edge(1, 2, begin=3, end=5, inclusive=(False, True))
assert list(G.edges()) == [(1, 2, 3)], G.edges()
"""),
 dict(id="b41-remove-identity", property="C05", edits=[(IG, "            if iedge[0] == n or iedge[1] == n:\n                self.__remove_iedge(iedge)", "            if iedge[0] is n or iedge[1] is n:\n                self.__remove_iedge(iedge)")],
  needs="a node named by an equal object that is not the stored one (a tuple)", breaks="the edges of the node are not removed, the node stays",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(('a', 1), 'b', 3, 4)
G.remove_node(tuple(['a', 1]))
assert len(G.edges()) == 0, G.edges()
assert len(G) == 1
"""),
 dict(id="b42-export-writes", property="C07", edits=[(IDG, "dict(self._pred[iedge[0]][iedge[1]][iedge].copy(), begin=iedge[2], end=iedge[3])", "self._pred[iedge[0]][iedge[1]][iedge].update(begin=iedge[2], end=iedge[3]) or self._pred[iedge[0]][iedge[1]][iedge]")],
  needs="an export with edge and interval data, then another look at the edge's data", breaks="the export writes begin and end into the stored attributes",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 5, w=1)
G.to_subgraph(0, 9, multigraph=True, edge_data=True, edge_interval_data=True)
assert list(G.edges(data=True)) == [((1, 2, 0, 5), {'w': 1})], G.edges(data=True)
"""),
 dict(id="b44-snapshot-flags", property="C10", edits=[(MG, "            G.insert(graph=self.to_subgraph(time, time, inclusive=(True, True), multigraph=multigraph,\n                                            edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,", "            G.insert(graph=self.to_subgraph(time, time, inclusive=(True, True), multigraph=multigraph,\n                                            edge_data=edge_data or edge_timestamp_data, edge_timestamp_data=edge_timestamp_data,")],
  needs="conversion with time stamps but without edge data of a graph whose edges have attributes", breaks="edge attributes appear although they were not asked for",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3, w=1)
S = G.to_snapshot_graph(edge_timestamp_data=True)
assert list(S.get([0])[0].edges(data=True)) == [(1, 2, {'timestamp': 3})], list(S.get([0])[0].edges(data=True))
"""),
 dict(id="b45-attr-leak", property="C11", edits=[(IG, "        for edge in graph.edges(data=True):\n            attr = {}\n", "        attr = {}\n        for edge in graph.edges(data=True):\n")],
  needs="import of edges with different attribute sets", breaks="attributes of one edge leak to the next ones",
  demo="""
import networkx as nx
g = nx.DiGraph()
g.add_edge(1, 2, begin=0, end=4, w=1)
g.add_edge(2, 3, begin=1, end=4)
G = dnx.IntervalDiGraph.from_networkx_graph(g)
assert dict(G.edges(data=True)) == {(1, 2, 0, 4): {'w': 1}, (2, 3, 1, 4): {}}, G.edges(data=True)
"""),
 dict(id="b49-positional-window", property="C13", edits=[(SG, "            return [graph.to_undirected() for graph in self._get(start=start, end=end)]", "            return [graph.to_undirected() for graph in self._get(None, end, start)]")],
  needs="a conversion of a proper window of a snapshot graph", breaks="start and end are exchanged",
  demo="""
import networkx as nx
S = dnx.SnapshotGraph()
S.insert(nx.path_graph(3), start=0, end=2); S.insert(nx.path_graph(2), start=2, end=4); S.insert(nx.path_graph(4), start=4, end=6)
assert [g.number_of_nodes() for g in S.to_undirected(start=2, end=4)] == [2]
"""),
 dict(id="b50-split-only-start", property="C14", edits=[(SG, "            for graph in self._get(start=start, end=end, split_overlaps=True):\n                graph.add_nodes_from(nbunch, **attrs)", "            for graph in self._get(start=start, end=end, split_overlaps=start is not None):\n                graph.add_nodes_from(nbunch, **attrs)")],
  needs="nodes added up to an end bound inside a snapshot, no start bound", breaks="the snapshot is not cut, the nodes also appear after the window",
  demo="""
import networkx as nx
S = dnx.SnapshotGraph()
S.insert(nx.path_graph(2), start=0, end=10)
S.add_nodes_from([7], end=6)
assert [g.has_node(7) for g in S] == [True, False], [g.has_node(7) for g in S]
"""),
 dict(id="b51-exact-one-bound", property="C15", edits=[(IG, "            if begin is None or end is None:\n                raise NetworkXError(\"For exact interval match (overlapping=False), both begin and end must be defined.\")\n\n            for iedge", "            if begin is None and end is None:\n                raise NetworkXError(\"For exact interval match (overlapping=False), both begin and end must be defined.\")\n\n            for iedge")],
  needs="exact removal with exactly one bound missing", breaks="the request is accepted silently",
  demo="""
import networkx as nx
G = dnx.IntervalGraph()
G.add_edge(1, 2, 0, 5)
for k in ({'begin': 0}, {'end': 5}):
    try:
        G.remove_edge(1, 2, overlapping=False, **k)
    except nx.NetworkXError:
        pass
    else:
        raise AssertionError('accepted')
"""),
 dict(id="b52-sdg-time0", property="C22", edits=[("classes/snapshotdigraph.py", "        elif time is not None:\n            self.insert(g, time=time)", "        elif time:\n            self.insert(g, time=time)")],
  needs="a snapshot added to a snapshot digraph at time 0", breaks="adding at time 0 is rejected",
  demo="""
S = dnx.SnapshotDiGraph()
S.add_snapshot([(1, 2)], time=0)
assert len(S) == 1
"""),
 dict(id="b55-decrement-order", property="C18", edits=[(CT, "    suffixes = sorted(counts.keys(), key=len)\n", "    suffixes = sorted(counts.keys())\n")],
  needs="motifs of four edges on edges that leave the window at the same instant while longer partial sequences are counted", breaks="partial counts of edges that left the window stay in longer partial sequences",
  demo="""
import itertools, random
def brute(es, seq, delta):
    n = 0
    es = sorted(es, key=lambda e: e[2])
    for c in itertools.combinations(es, len(seq)):
        ts = [e[2] for e in c]
        if any(a >= b for a, b in zip(ts, ts[1:])) or ts[-1] - ts[0] > delta:
            continue
        m, ok = {}, True
        for (a, b), (u, v, _) in zip(seq, c):
            for x, y in ((a, u), (b, v)):
                if m.setdefault(x, y) != y:
                    ok = False
        n += ok and len(set(m.values())) == len(m)
    return n
for seed in range(300):
    r = random.Random(seed)
    es = sorted({(u, v, t) for t in range(7) for u, v in ((1, 2), (2, 1)) if r.random() < .7})
    if not es:
        continue
    G = dnx.ImpulseDiGraph()
    for e in es:
        G.add_edge(*e)
    for seq in (((1, 2), (2, 1), (1, 2)), ((1, 2), (1, 2), (1, 2)), ((1, 2), (2, 1), (1, 2), (2, 1)), ((1, 2), (1, 2), (2, 1), (2, 1))):
        got = dnx.count_temporal_motif(G, seq, 3)[0]
        assert got == brute(es, seq, 3), (es, seq, got, brute(es, seq, 3))
"""),
]
