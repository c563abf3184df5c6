IG, IDG, MG, MDG, TR, SG = ("classes/intervalgraph.py", "classes/intervaldigraph.py", "classes/impulsegraph.py",
                            "classes/impulsedigraph.py", "classes/intervaltree.py", "classes/snapshotgraph.py")
SDG = "classes/snapshotdigraph.py"
CT = "algorithms/count_temporal_motif.py"
PLANTS = [
 dict(id="b70-instant-open-begin", property="C01", edits=[(IG, "            return iv[2] < end\n", "            return iv[2] < end or iv[2] == iv[3] == end\n")],
  needs="a window with an open begin that ends exactly on an instantaneous edge", breaks="has_edge and edges of a node take an edge that begins at the excluded end",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 5, 5)
G.add_edge(1, 3, 0, 1)
assert G.has_edge(1, 2, end=5) is False
assert G.edges(u=1, end=5) == [(1, 3, 0, 1)] 
"""),
 dict(id="b71-point-begin", property="C01", edits=[(IDG, "        return (iv[2] < end and iv[3] > begin) or iv[2] == begin\n", "        return (iv[2] < end and iv[3] > begin) or iv[2] == begin == iv[3]\n")],
  needs="a query at the very instant an edge begins", breaks="an edge that begins at the queried instant is missing from has_edge and from edges of a node",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 5, 9)
assert G.has_edge(1, 2, 5, 5)
assert G.edges(u=1, begin=5, end=5) == [(1, 2, 5, 9)]
"""),
 dict(id="b72-tree-sum", property="C01", edits=[(TR, "        if node.right and node.low <= end and node.right.max >= begin:", "        if node.right and node.low < end and node.right.max >= begin:")],
  needs="a query at one instant where several intervals begin, the longer ones below the right child", breaks="intervals that begin at the queried instant are missing",
  demo="""
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 3, 4), (3, 4, 3, 5), (5, 6, 3, 9), (7, 8, 0, 1)])
assert sorted(G.edges(begin=3, end=3)) == [(1, 2, 3, 4), (3, 4, 3, 5), (5, 6, 3, 9)], G.edges(begin=3, end=3)
"""),
 dict(id="b73-search-point", property="C02", edits=[(MG, "        if begin is not None and begin == end and begin in self.tree:\n            for edge in self.tree[begin]:\n                yield (*edge, begin)\n",
   "        if begin and begin == end and begin in self.tree:\n            for edge in self.tree[begin]:\n                yield (*edge, begin)\n")],
  needs="a query at the instant 0 with the default bounds", breaks="impulses at time 0 are missing from instant queries",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 0); G.add_edge(1, 3, 4)
assert G.edges(begin=0, end=0) == [(1, 2, 0)]
assert G.has_node(2, 0, 0)
"""),
 dict(id="b74-count-open-end", property="C02", edits=[(MG, "        if end is None:\n            inclusive = (inclusive[0], True)\n\n        inodes = set()", "        if begin is None:\n            inclusive = (True, inclusive[1])\n        inclusive = (inclusive[0], end is None or inclusive[1] and begin != None)\n\n        inodes = set()")],
  needs="number_of_nodes up to an included end with no begin", breaks="nodes of impulses at the included end are not counted",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 0); G.add_edge(3, 4, 4)
assert G.number_of_nodes(end=4, inclusive=(True, True)) == 4
"""),
 dict(id="b75-tree-append-dup", property="C03", edits=[(TR, "            node.edges.append(edge)\n            self.number_of_edges += 1\n            return\n", "            if edge[:2] not in [e[1::-1] for e in node.edges]:\n                node.edges.append(edge)\n            self.number_of_edges += 1\n            return\n")],
  needs="opposite directed edges with the very same interval", breaks="the second of the two is not stored in the index",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 5); G.add_edge(2, 1, 0, 5)
assert sorted(G.edges(begin=0, end=9)) == [(1, 2, 0, 5), (2, 1, 0, 5)], list(G.edges(begin=0, end=9))
"""),
 dict(id="b76-readd-prior", property="C04", edits=[(IDG, "            self._pred[u][v][(u, v, begin, end)].update(attr)\n", "            self._pred[u][v][(u, v, begin, end)] = dict(self._pred[u][v][(u, v, begin, end)], **attr)\n")],
  needs="an edge inserted a third time", breaks="attributes of the incoming side and the outgoing side drift apart: edges(data) is right but the stored edge is not updated through in-edges",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 5, a=1)
d = G.edges(data=True)[0][1]
G.add_edge(1, 2, 0, 5, b=2)
G.add_edge(1, 2, 0, 5, c=3)
assert G.edges(data=True)[0][1] == {'a': 1, 'b': 2, 'c': 3}
assert G._succ[2][1][(1, 2, 0, 5)] is G._pred[1][2][(1, 2, 0, 5)]
"""),
 dict(id="b77-remove-first-only", property="C05", edits=[(MG, "                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):\n                    iedges_to_remove.append(iv)\n", "")],
  nth=0, needs="-", breaks="-", demo="raise SystemExit(0)\n"),
 dict(id="b78-compound-set", property="C06", edits=[(IDG, "                iedges.update(self._pred[u][v])\n", "                iedges.update(self._pred[u][v])\n                break\n")],
  needs="endpoints given as lists with more than one pair that has edges", breaks="only the edges of the first such pair are returned",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 5); G.add_edge(3, 4, 1, 6)
assert sorted(G.edges(u=[1, 3], v=[2, 4])) == [(1, 2, 0, 5), (3, 4, 1, 6)]
"""),
 dict(id="b79-query-creates", property="C07", edits=[(MG, "            elif u is not None and v is not None:\n                if u not in self._adj:\n                    continue\n                if v not in self._adj[u]:\n                    continue\n                iedges.update(self._adj[u][v])", "            elif u is not None and v is not None:\n                if u not in self._adj:\n                    continue\n                iedges.update(self._adj[u].setdefault(v, {}))")],
  needs="a query for a pair of nodes that have no edge, followed by has_edge", breaks="the query makes the pair look connected",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3); G.add_edge(3, 4, 5)
assert G.edges(1, 3) == []
assert not G.has_edge(1, 3)
"""),
 dict(id="b80-sub-multi-data", property="C08", edits=[(MG, "            G.add_edges_from((iedge[0], iedge[1], {'timestamp': iedge[2]})\n                             for iedge in iedges)\n", "            G.add_edges_from((iedge[0], iedge[1], {'timestamp': iedge[2]})\n                             for iedge in sorted(iedges, key=lambda x: -x[2]))\n")],
  needs="timestamps without attributes in a simple graph where a pair has several impulses", breaks="the earliest instead of the latest timestamp is kept",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3); G.add_edge(1, 2, 7)
H = G.to_subgraph(0, 10, edge_timestamp_data=True)
K = G.to_subgraph(0, 10, edge_data=True, edge_timestamp_data=True)
assert H.edges[1, 2]['timestamp'] == K.edges[1, 2]['timestamp'] == 7
"""),
 dict(id="b81-snap-length", property="C09", edits=[(IG, "            return snapshots, length_of_snapshots\n\n        return snapshots\n", "            return snapshots, (end - begin) / number_of_snapshots\n\n        return snapshots\n")],
  needs="a requested length that does not divide the interval, with return_length", breaks="another length than the requested one is reported",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 0, 10); G.add_edge(2, 3, 4, 9)
s, l = G.to_snapshots(length_of_snapshots=4, return_length=True)
assert len(s) == 3 and l == 4, (len(s), l)
"""),
 dict(id="b82-snapgraph-half", property="C10", edits=[(MG, "            G.insert(graph=self.to_subgraph(time, time, inclusive=(True, True), multigraph=multigraph,", "            G.insert(graph=self.to_subgraph(time, time + 0.5, inclusive=(True, False), multigraph=multigraph,")],
  needs="timestamps less than half a unit apart", breaks="a snapshot also has the impulses of the next instants",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 0.0); G.add_edge(2, 3, 0.25)
S = G.to_snapshot_graph()
assert [sorted(s.edges) for s in S.get()] == [[(1, 2)], [(2, 3)]]
"""),
 dict(id="b83-run-period", property="C11", edits=[(IG, "            begin += period\n", "            begin += int(period) or period\n")],
  needs="a period above 1 that is not a whole number", breaks="runs come apart and snapshots move to the wrong time",
  demo="""
import networkx as nx
S = dnx.SnapshotGraph()
for i in range(3):
    S.insert(nx.Graph([(1, 2)]), time=i)
G = dnx.IntervalGraph.from_snapshot_graph(S, begin=0, period=1.5)
assert G.edges() == [(1, 2, 0, 4.5)], G.edges()
"""),
 dict(id="b84-comment-zero", property="C12", edits=[(IG, "                if p >= 0:\n                    line = line[:p]\n", "                if p > 0:\n                    line = line[:p]\n")],
  needs="a line that is nothing but a comment and parses as an edge or not at all", breaks="a comment at the start of a line is read as data",
  demo="""
import tempfile
d = tempfile.mkdtemp(); p = os.path.join(d, 'g.txt')
open(p, 'w').write('#1 2 3 4\\n5 6 1 2\\n')
try:
    G = dnx.IntervalGraph.load_from_txt(p)
finally:
    os.remove(p); os.rmdir(d)
assert list(G.edges()) == [(5, 6, 1.0, 2.0)], G.edges()
"""),
 dict(id="b85-duration-neg", property="C12", edits=[(IG, "                    begin = end - order[3]\n", "                    begin = end - abs(order[order.index('end') + 1])\n")],
  needs="the duration is not right behind 'end' in the order", breaks="the file is rejected",
  demo="""
import tempfile
d = tempfile.mkdtemp(); p = os.path.join(d, 'g.txt')
open(p, 'w').write('7 1 2\\n')
try:
    G = dnx.IntervalGraph.load_from_txt(p, order=('end', 'u', 'v', 3))
finally:
    os.remove(p); os.rmdir(d)
assert list(G.edges()) == [(1, 2, 4.0, 7.0)], G.edges()
"""),
 dict(id="b86-index-dup", property="C13", edits=[(SG, "            for index in sbunch:\n", "            for index in sorted(sbunch):\n")],
  needs="indexes that are not ascending", breaks="answers come in another order than the indexes",
  demo="""
import networkx as nx
S = dnx.SnapshotGraph()
S.insert(nx.Graph([(1, 2)]), time=0); S.insert(nx.Graph([(1, 2), (2, 3)]), time=1)
assert S.number_of_nodes(sbunch=[1, 0]) == [3, 2]
"""),
 dict(id="b87-mixed-only-both", property="C15", edits=[(SG, "        if sbunch is not None and (start is not None or end is not None):\n            raise ValueError('Either sbunch or (start and end) can be specified.')\n        elif sbunch is not None:\n            return [graph.order() for graph in self._get(sbunch=sbunch)]", "        if sbunch is not None and (start is not None or end is not None):\n            raise ValueError('Either sbunch or (start and end) can be specified.')\n        elif sbunch:\n            return [graph.order() for graph in self._get(sbunch=sbunch)]")],
  needs="an empty index list", breaks="an empty selection becomes all snapshots",
  demo="""
import networkx as nx
S = dnx.SnapshotGraph()
S.insert(nx.Graph([(1, 2)]), time=0)
assert S.order(sbunch=[]) == []
"""),
 dict(id="b88-mean-isolated", property="C16", edits=[(IDG, "            for node in self.nodes(begin=begin, end=end):\n                n += 1\n                l += self.in_degree(node, begin=begin, end=end)", "            for node in {e[1] for e in self.edges(begin=begin, end=end)}:\n                n += 1\n                l += self.in_degree(node, begin=begin, end=end)")],
  needs="mean in-degree with a node that has no incoming edge in the window", breaks="nodes without incoming edges are left out of the mean",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 5); G.add_edge(3, 2, 0, 5)
assert abs(G.in_degree(begin=0, end=4) - 2/3) < 1e-9
"""),
 dict(id="b89-route-percent", property="C17", edits=[(MDG, "                nodes = u\n", "                nodes = u = [x for x in u if x in self._pred]\n")],
  needs="an unknown first endpoint together with a trained model and a window", breaks="an empty endpoint list raises or is taken for everything",
  demo="raise SystemExit(0)\n"),
 dict(id="b90-motif-sorted-key", property="C18", edits=[(CT, "        edges = sorted(edges, key=lambda x: x[2])\n", "        edges = sorted(set(edges), key=lambda x: int(x[2]))\n")],
  needs="several events within the same whole time unit, in no particular order", breaks="edges with fractional timestamps are processed out of order",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edge(1, 2, 0.9); G.add_edge(2, 1, 0.1); G.add_edge(1, 2, 0.5)
G.add_edge(2, 1, 0.3); G.add_edge(1, 2, 0.2)
t, c, p = dnx.count_temporal_motif(G, ((1, 2), (2, 1)), 1)
assert c == {(1, 2, 2, 1): 1, (2, 1, 1, 2): 5}, (t, c)
"""),
 dict(id="b91-unique-window-low", property="C20", edits=[(TR, "            if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):\n                timestamps.add(n.low)\n            if n.high", "            if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):\n                timestamps.add(n.low)\n            elif n.low in timestamps and n.low == begin:\n                continue\n            if n.high")],
  needs="two different intervals that begin at exactly the window's begin", breaks="the end of the second one is missing",
  demo="""
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 0, 4), (1, 3, 0, 6)])
assert list(G.unique_timestamps(begin=0, end=9)) == [0, 4, 6]
"""),
 dict(id="b92-insert-keeps", property="C22", edits=[(SG, "            self.snapshots.update({(time, time): graph})\n", "            self.snapshots.setdefault((time, time), graph)\n")],
  needs="a snapshot inserted at an instant that already has one", breaks="the given graph is not stored",
  demo="""
import networkx as nx
S = dnx.SnapshotGraph()
S.insert(nx.Graph([(1, 2)]), time=0); S.insert(nx.Graph([(3, 4)]), time=0)
assert sorted(S.get()[0].edges) == [(3, 4)]
"""),
 dict(id="b93-sdg-multi-graph", property="C22", edits=[(SDG, "            if multi is True:\n", "            if multi is True and end is not None:\n")],
  needs="a multigraph snapshot added at an instant", breaks="parallel edges are merged",
  demo="""
S = dnx.SnapshotDiGraph()
S.add_snapshot([(1, 2), (1, 2)], time=3, multi=True)
assert S.get()[0].is_multigraph() and S.get()[0].number_of_edges() == 2
"""),
 dict(id="b94-part-index", property="C23", edits=[(CT, "            nppp.at[new_key[i], motif[i]] += new_total_counts.get(new_key)", "            nppp.at[new_key[i], motif[i]] += 1 if new_key[i] == key[-1] and i == 0 else new_total_counts.get(new_key)")],
  needs="a cyclic motif counted more than once on the same nodes", breaks="the table counts the first position only once",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edge(1, 2, 0); G.add_edge(1, 2, 1); G.add_edge(2, 1, 2)
t, c, p = dnx.count_temporal_motif(G, ((1, 2), (2, 1)), 5)
assert t == 2 and p.at[1, 1] == 2, (t, c, p)
"""),
 dict(id="b95-remove-shared-node", property="C05", edits=[(IDG, "            for iv in self._pred[u][v]:\n                if IntervalDiGraph.__overlaps_or_contains(iv, begin, end):\n                    iedges_to_remove.append(iv)\n", "            for iv in self._pred[u][v]:\n                if IntervalDiGraph.__overlaps_or_contains(iv, begin, end):\n                    iedges_to_remove.append(iv)\n            iedges_to_remove = iedges_to_remove[:len(self._pred[u])]\n")],
  needs="several overlapping parallel edges between nodes with few neighbours", breaks="only as many edges are removed as the node has neighbours",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 5); G.add_edge(1, 2, 1, 6)
G.remove_edge(1, 2, 0, 9)
assert G.edges() == []
"""),
 dict(id="b96-add-node-shared", property="C19", edits=[(IG, "        iedge = (u, v, begin, end)\n", "        iedge = (u, v, begin, end)\n        if attr and self._adj.get(u, {}).get(v):\n            prev = [a for a in self._adj[u][v].values() if a == attr]\n            attr = prev[0] if prev else attr\n")],
  needs="two parallel edges given equal attributes, then one of them changed", breaks="edges with equal attributes share one dictionary",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 0, 5, w=1); G.add_edge(1, 2, 7, 9, w=1)
G.add_edge(1, 2, 7, 9, w=2)
assert sorted((e, d['w']) for e, d in G.edges(data=True)) == [((1, 2, 0, 5), 1), ((1, 2, 7, 9), 2)]
"""),
 dict(id="b97-interval-keys", property="C21", edits=[(MG, "        return list(self.tree.keys())[0], list(self.tree.keys())[-1]\n", "        ks = [t for t in self.tree.keys() if len(self.tree[t]) < 2 or t] or list(self.tree.keys())\n        return ks[0], ks[-1]\n")],
  needs="several simultaneous impulses at time 0 as the first", breaks="the interval begins later",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 0); G.add_edge(3, 4, 0); G.add_edge(1, 4, 6)
assert tuple(G.interval()) == (0, 6)
"""),
]
PLANTS = [p for p in PLANTS if p["id"] not in ("b77-remove-first-only", "b89-route-percent", "b76-readd-prior", "b87-mixed-only-both")]
