IG, IDG, MG, MDG, TR, SG = ("classes/intervalgraph.py", "classes/intervaldigraph.py", "classes/impulsegraph.py",
                            "classes/impulsedigraph.py", "classes/intervaltree.py", "classes/snapshotgraph.py")
CT = "algorithms/count_temporal_motif.py"
PLANTS = [
 dict(id="b01-digraph-open-end", property="C01", edits=[(IDG, "        if begin is None:\n            return iv[2] < end\n", "        if begin is None:\n            return iv[3] < end\n")],
  needs="directed graph, node-first query with only an end bound, edge still running at that bound", breaks="edges active before the bound but ending after it are dropped",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 10)
G.add_edge(1, 3, 7, 9)
assert set(G.edges(u=1, end=5)) == {(1, 2, 0, 10)}, G.edges(u=1, end=5)
assert G.has_edge(1, 2, end=5)
"""),
 dict(id="b02-nodes-one-end", property="C01", edits=[(IG, "        iedges = self.tree[begin:end]\n\n        inodes = set()\n        for u, v, _, _ in iedges:\n            inodes.add(u)\n            inodes.add(v)\n\n        node_dict", "        iedges = self.tree[begin:end]\n\n        inodes = set()\n        for u, v, b, e in iedges:\n            if b == e and b == end:\n                continue\n            inodes.add(u)\n            inodes.add(v)\n\n        node_dict")],
  needs="an edge at one instant and a query exactly at that instant (begin == end)", breaks="nodes() at an instant misses nodes of instantaneous edges",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 5, 5)
G.add_edge(3, 4, 4, 6)
assert set(G.nodes(begin=5, end=5)) == {1, 2, 3, 4}, set(G.nodes(begin=5, end=5))
"""),
 dict(id="b03-impulse-ff", property="C02", edits=[(MG, "        if inclusive == (False, True):\n            return t > begin and t <= end\n", "        if inclusive == (False, True):\n            return t > begin and t < end\n")],
  needs="node-first query with inclusive=(False, True) and an edge exactly at the end bound", breaks="edge at the included end bound is dropped",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3); G.add_edge(1, 2, 5)
assert set(G.edges(u=1, begin=3, end=5, inclusive=(False, True))) == {(1, 2, 5)}, G.edges(u=1, begin=3, end=5, inclusive=(False, True))
"""),
 dict(id="b04-impulse-hasnode-flag", property="C02", edits=[(MG, "        for edge in self.__search_tree(begin, end, inclusive=inclusive):\n            if n == edge[0] or n == edge[1]:\n                return True\n        return False", "        for edge in self.__search_tree(begin, end):\n            if n == edge[0] or n == edge[1]:\n                return True\n        return False")],
  needs="has_node with inclusive flags other than the default and an event on a bound", breaks="the inclusive flags of has_node are ignored",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3); G.add_edge(3, 4, 7)
assert G.has_node(3, begin=3, end=7, inclusive=(True, True))
assert not G.has_node(1, begin=3, end=8, inclusive=(False, True))
"""),
 dict(id="b05-instant-prune", property="C03", edits=[(TR, "node.right and node.low <= end and node.right.max >= begin", "node.right and node.low < end and node.right.max >= begin")],
  needs="two intervals with the same begin and different ends, queried at exactly that instant", breaks="the right subtree is pruned although an interval there starts at the instant",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 5, 6); G.add_edge(3, 4, 5, 9)
assert sorted(G.edges(begin=5, end=5)) == [(1, 2, 5, 6), (3, 4, 5, 9)], G.edges(begin=5, end=5)
"""),
 dict(id="b06-rotate-max", property="C03", edits=[(TR, "        self.updateMax(x)\n        self.updateMax(y)\n\n        return y\n\n    def rightRotate", "        self.updateMax(x)\n        y.max = max(y.max, y.high)\n\n        return y\n\n    def rightRotate")],
  needs="a left rotation whose old root holds the longest interval, then a late query", breaks="the subtree maximum after a left rotation forgets the rotated-down interval, lookups prune it",
  demo="""
import random
for seed in range(60):
    r = random.Random(seed)
    G = dnx.IntervalGraph()
    es = set()
    for i in range(25):
        b = r.randint(-20, 20)
        e = (2 * i, 2 * i + 1, b, b + r.choice([0, 1, 2, 60]))
        es.add(e)
        G.add_edge(*e)
    for t in range(-21, 82):
        got = set(G.edges(begin=t, end=t + 1))
        want = {e for e in es if (e[2] < t + 1 and e[3] > t) or e[2] == t}
        assert got == want, (seed, t, got, want)
"""),
 dict(id="b07-insert-tie", property="C03", edits=[(TR, "        if node.low < root.low or (node.low == root.low and node.high < root.high):\n            root.left = self.insert(root.left, node)", "        if node.low < root.low or (node.low == root.low and node.high > root.high):\n            root.left = self.insert(root.left, node)")],
  needs="two intervals with the same begin, then removal of one of them", breaks="insertion and deletion disagree about the order of intervals with equal begins",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 5, 6); G.add_edge(3, 4, 5, 9); G.add_edge(5, 6, 5, 7)
G.remove_edge(5, 6, 5, 7, overlapping=False)
assert sorted(G.edges(begin=5, end=10)) == [(1, 2, 5, 6), (3, 4, 5, 9)], G.edges(begin=5, end=10)
"""),
 dict(id="b08-readd-one-side", property="C04", edits=[(IDG, "            self._pred[u][v][(u, v, begin, end)].update(attr)\n            self._succ[v][u][(u, v, begin, end)].update(attr)\n            return\n", "            self._pred[u][v][(u, v, begin, end)] = dict(self._succ[v][u][(u, v, begin, end)], **attr)\n            return\n")],
  needs="re-inserting a directed edge twice with different attributes", breaks="attributes merged by an earlier re-insertion are lost by the next one",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, 0, 3, a=1)
G.add_edge(1, 2, 0, 3, b=2)
G.add_edge(1, 2, 0, 3, c=3)
(e, d), = G.edges(data=True)
assert d == {'a': 1, 'b': 2, 'c': 3}, d
"""),
 dict(id="b09-nodes-from-dict", property="C04", edits=[(IG, "                self.add_node(n[0], **attr)\n                self._node[n[0]].update(n[1])\n", "                self.add_node(n[0], **dict(n[1], **attr))\n")],
  needs="add_nodes_from with both a per-node and a common attribute of the same name", breaks="the common attribute overrides the specific one",
  demo="""
G = dnx.IntervalGraph()
G.add_nodes_from([(1, {'size': 10}), 2], size=1)
d = dict(G.nodes(data=True))
assert d[1]['size'] == 10 and d[2]['size'] == 1, d
"""),
 dict(id="b10-remove-inclusive", property="C05", edits=[(MDG, "        for iv in self._pred[u][v]:\n                if self.__in", "        for iv in self._pred[u][v]:\n                if self.__in")],
  needs="-", breaks="-", demo="\n"),
 dict(id="b11-digraph-pred-route", property="C06", edits=[(IDG, "                iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])", "                iedges.update([iv for u in self._succ[v] if u != v for iv in self._succ[v][u]])")],
  needs="a directed self-loop asked for by its target only", breaks="edges(v=n) misses the self-loop",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edge(1, 1, 0, 3); G.add_edge(2, 1, 0, 3)
assert set(G.edges(v=1)) == {(1, 1, 0, 3), (2, 1, 0, 3)}, G.edges(v=1)
"""),
 dict(id="b12-data-default", property="C06", edits=[(MG, "        return [(iv, self._adj[iv[0]][iv[1]][iv][data]) if data in self._adj[iv[0]][iv[1]][iv] else (iv, default) for iv\n                in iedges]", "        return [(iv, self._adj[iv[0]][iv[1]][iv].get(data) or default) for iv in iedges]")],
  needs="data='attr' with a stored falsy value and a default", breaks="a stored 0 is reported as the default",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3, w=0)
assert G.edges(data='w', default=7) == [((1, 2, 3), 0)], G.edges(data='w', default=7)
"""),
 dict(id="b13-query-adds-node", property="C07", edits=[(MDG, "            if u not in self._pred:\n                    continue", "            if u not in self._pred:\n                    continue")],
  needs="-", breaks="-", demo="\n"),
 dict(id="b14-subgraph-copy", property="C08", edits=[(IG, "        elif edge_interval_data:\n            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})\n                             for iedge in iedges)", "        elif edge_interval_data and not multigraph:\n            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})\n                             for iedge in iedges)")],
  needs="multigraph export with time stamps but without edge data", breaks="the begin/end attributes are missing from that combination of flags",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 0, 3); G.add_edge(1, 2, 2, 5)
H = G.to_subgraph(0, 10, multigraph=True, edge_interval_data=True)
assert sorted(d['begin'] for _, _, d in H.edges(data=True)) == [0, 2]
"""),
 dict(id="b15-snap-last", property="C09", edits=[(IG, "            if i == number_of_snapshots - 1:\n                end_inclusive_addition = 1\n", "            if i == number_of_snapshots - 1 and not multigraph:\n                end_inclusive_addition = 1\n")],
  needs="to_snapshots(multigraph=True) with an edge that begins at the very last instant", breaks="the final instant is missing from the last multigraph snapshot",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 0, 4); G.add_edge(3, 4, 10, 10)
S = G.to_snapshots(number_of_snapshots=2, multigraph=True)
assert S[-1].has_edge(3, 4), S[-1].edges
"""),
 dict(id="b16-snap-count", property="C09", edits=[(MG, "            if (end - begin) % length_of_snapshots != 0:\n                number_of_snapshots += 1\n", "            if (end - begin) % length_of_snapshots >= 1:\n                number_of_snapshots += 1\n")],
  needs="a snapshot length that leaves a remainder smaller than 1", breaks="the last fractional window is missing, the final events are lost",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 0); G.add_edge(3, 4, 1.0); G.add_edge(5, 6, 2.5)
S = G.to_snapshots(length_of_snapshots=1.0)
assert [list(s.edges) for s in S] == [[(1, 2)], [(3, 4)], [(5, 6)]], [list(s.edges) for s in S]
"""),
 dict(id="b17-impulse-to-sg", property="C10", edits=[(IG, "            if node.low == node.high:  # this handles the case when someone uses interval graph as impulse graph", "            if node.low == node.high and node.edges:  # this handles the case when someone uses interval graph as impulse graph")],
  needs="-", breaks="-", demo="\n"),
 dict(id="b18-import-key", property="C11", edits=[(MG, "                if key != timestamp:", "                if key != 'timestamp':")],
  needs="from_networkx_graph with a custom timestamp attribute name", breaks="the time attribute is kept as ordinary data / an attribute called timestamp is dropped",
  demo="""
H = nx.Graph(); H.add_edge(1, 2, when=4, timestamp='x')
G = dnx.ImpulseGraph.from_networkx_graph(H, timestamp='when')
(e, d), = G.edges(data=True)
assert e[2] == 4 and d == {'timestamp': 'x'}, (e, d)
"""),
 dict(id="b19-save-attr-sep", property="C12", edits=[(IG, "                    line += delimiter + str(key) + '=' + str(edge[1][key])", "                    line += ' ' + str(key) + '=' + str(edge[1][key])")],
  needs="saving edges with attributes under a delimiter other than space", breaks="the file does not load back",
  demo="""
import tempfile
G = dnx.IntervalGraph(); G.add_edge(1, 2, 0.0, 3.0, w=2.0)
with tempfile.TemporaryDirectory() as d:
    G.save_to_txt(d + '/x', delimiter=',')
    H = dnx.IntervalGraph.load_from_txt(d + '/x', delimiter=',')
assert H.edges(data=True) == G.edges(data=True), H.edges(data=True)
"""),
 dict(id="b20-load-order-end", property="C12", edits=[(IG, "                    begin = end - order[3]\n", "                    begin = end - order[3] if end > order[3] else end\n")],
  needs="a file with end and duration columns and an interval that begins at or before 0", breaks="the begin is wrong for early intervals",
  demo="""
import tempfile
with tempfile.TemporaryDirectory() as d:
    open(d + '/x', 'w').write('1 2 3\\n1 2 10\\n')
    G = dnx.IntervalGraph.load_from_txt(d + '/x', order=('u', 'v', 'end', 5))
assert sorted(e[2:] for e in G.edges()) == [(-2.0, 3.0), (5.0, 10.0)], G.edges()
"""),
 dict(id="b21-sg-degree-window", property="C13", edits=[(SG, "                return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]", "                return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start)]")],
  needs="degree with nodes and an end bound", breaks="the end bound is ignored when nbunch is given",
  demo="""
S = dnx.SnapshotGraph()
S.add_snapshot([(1, 2)], start=0, end=3); S.add_snapshot([(1, 3)], start=3, end=6)
assert len(S.degree(nbunch=[1], start=0, end=3)) == 1
"""),
 dict(id="b22-sg-add-edges-split", property="C14", edits=[(SG, "            for graph in self._get(start=start, end=end, split_overlaps=True):\n                graph.add_edges_from(ebunch, **attrs)", "            for graph in self._get(start=start, end=end, split_overlaps=start is not None and end is not None):\n                graph.add_edges_from(ebunch, **attrs)")],
  needs="add_edges_from with only one bound that falls inside a snapshot", breaks="the snapshot is not cut, the edge also appears outside the window",
  demo="""
S = dnx.SnapshotGraph()
S.add_snapshot([(1, 2)], start=0, end=4)
S.add_edges_from([(5, 6)], start=2)
assert [list(k) for k in S.snapshots] == [[0, 2], [2, 4]], list(S.snapshots)
assert [g.has_edge(5, 6) for g in S] == [False, True]
"""),
 dict(id="b23-insert-order", property="C15", edits=[(IDG, "        for e in ebunch_to_add:\n            if len(e) != 4:\n                raise NetworkXError(\"Edge tuple {0} must be a 4-tuple.\".format(e))\n\n            self.add_edge(e[0], e[1], e[2], e[3], **attr)", "        for e in ebunch_to_add:\n            if len(e) < 4:\n                raise NetworkXError(\"Edge tuple {0} must be a 4-tuple.\".format(e))\n\n            self.add_edge(e[0], e[1], e[2], e[3], **attr)")],
  needs="an edge tuple that is too long", breaks="a 5-tuple is accepted silently",
  demo="""
G = dnx.IntervalDiGraph()
try:
    G.add_edges_from([(1, 2, 0, 3, {'w': 1})])
except nx.NetworkXError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id="b24-hasnode-reversed", property="C15", edits=[(MG, "        begin, end = self.__validate_interval(begin, end)\n\n        for edge in self.__search_tree(begin, end, inclusive=inclusive):\n            if n ==", "        if begin:\n            begin, end = self.__validate_interval(begin, end)\n\n        for edge in self.__search_tree(begin, end, inclusive=inclusive):\n            if n ==")],
  needs="-", breaks="-", demo="\n"),
 dict(id="b25-degree-delta-end", property="C16", edits=[(IG, "            if edge[3] < end:\n", "            if edge[3] <= end:\n")],
  needs="degree changes over a window whose end coincides with an edge end", breaks="an event at the (excluded) end bound is reported",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 0, 4); G.add_edge(1, 3, 2, 8)
d = G.degree(1, begin=0, end=4, delta=True)
assert d == [(0, 1), (2, 2)], d
"""),
 dict(id="b26-outdeg-delta", property="C16", edits=[(MDG, "        # for each time in Dict add to output list the len of each value\n        for time in d:\n            output.append((time, len(d[time])))\n\n        return sorted(output)", "        # for each time in Dict add to output list the len of each value\n        for time in d:\n            output.append((time, len(set(d[time]))))\n\n        return sorted(output)")],
  needs="a directed self-loop in the degree change list", breaks="a self-loop counts once instead of twice",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edge(1, 1, 3); G.add_edge(1, 2, 4)
assert G.degree(1, delta=True) == [(3, 2), (4, 1)], G.degree(1, delta=True)
"""),
 dict(id="b27-motif-delta", property="C18", edits=[(CT, "while edges[start][2] + delta < edges[end][2]:", "while edges[start][2] + delta <= edges[end][2]:")],
  needs="motif edges exactly delta apart", breaks="the time limit itself is excluded",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edge(1, 2, 0); G.add_edge(2, 3, 10)
assert dnx.count_temporal_motif(G, ((1, 2), (2, 3)), 10)[0] == 1
"""),
 dict(id="b28-motif-loops", property="C18", edits=[(CT, "        for u in sub.nodes():\n            edges.extend(G.edges(u, u))\n", "        if sub.number_of_nodes() > 1:\n            for u in sub.nodes():\n                edges.extend(G.edges(u, u))\n")],
  needs="a motif of self-loops on one node", breaks="single node motifs are never counted",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edge(1, 1, 0); G.add_edge(1, 1, 3)
assert dnx.count_temporal_motif(G, ((1, 1), (1, 1)), 10)[0] == 1
"""),
 dict(id="b29-shared-attr", property="C19", edits=[(MG, "        for n in nodes_for_adding:\n            if isinstance(n, tuple) and isinstance(n[1], dict):\n                self.add_node(n[0], **attr)\n                self._node[n[0]].update(n[1])\n", "        for n in nodes_for_adding:\n            if isinstance(n, tuple) and isinstance(n[1], dict):\n                self.add_node(n[0])\n                self._node[n[0]] = n[1] if not attr and not self._node[n[0]] else {**self._node[n[0]], **attr, **n[1]}\n")],
  needs="add_nodes_from with the caller's dictionary shared between nodes and a later change", breaks="nodes share the caller's dictionary",
  demo="""
G = dnx.ImpulseGraph()
d = {'c': 1}
G.add_nodes_from([(1, d), (2, d)])
G.add_node(1, c=5)
assert d == {'c': 1} and dict(G.nodes(data=True))[2] == {'c': 1}, (d, dict(G.nodes(data=True)))
"""),
 dict(id="b30-unique-end", property="C20", edits=[(TR, "            if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):\n                timestamps.add(n.low)\n            if n.high", "            if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):\n                timestamps.add(n.low)\n            elif n.high")],
  needs="an interval whose begin and end are both new timestamps", breaks="ends are missing", demo="""
G = dnx.IntervalGraph(); G.add_edge(1, 2, 0, 4)
assert list(G.unique_timestamps()) == [0, 4]
"""),
 dict(id="b31-unique-incl", property="C20", edits=[(TR, "        if inclusive[0]:\n            begin_operator = operator.__le__\n        else:\n            begin_operator = operator.__lt__\n        if inclusive[1]:\n            end_operator = operator.__le__\n        else:\n            end_operator = operator.__lt__\n\n        for n in self.inOrder(self.root):\n            if n.high not in", "        if inclusive[1]:\n            begin_operator = operator.__le__\n        else:\n            begin_operator = operator.__lt__\n        if inclusive[1]:\n            end_operator = operator.__le__\n        else:\n            end_operator = operator.__lt__\n\n        for n in self.inOrder(self.root):\n            if n.high not in")],
  needs="unique_end_timestamps with different inclusive flags for the two bounds", breaks="the begin flag is taken from the end flag",
  demo="""
G = dnx.IntervalGraph(); G.add_edge(1, 2, 0, 4); G.add_edge(1, 2, 1, 6)
assert list(G.unique_end_timestamps(4, 6, inclusive=(True, False))) == [4]
"""),
 dict(id="b32-interval-min", property="C21", edits=[(TR, "        self.begin = min(self.begin, start)\n        self.end = max(self.end, end)\n        return\n", "        self.begin = min(self.begin, start)\n        self.end = max(self.end, start, end) if self.root.right else self.root.max\n        return\n")],
  needs="-", breaks="-", demo="\n"),
 dict(id="b33-stale-end", property="C21", edits=[(TR, "        if self.end == end:\n            self.end = self.root.max", "        if self.end == end:\n            self.end = max(self.root.high, self.root.max)")],
  needs="-", breaks="-", demo="\n"),
 dict(id="b34-sg-insert-start0", property="C22", edits=[(SG, "        elif start is None or end is None:\n            raise ValueError('Either time or both start and end must be specified.')\n        elif start > end:", "        elif start is None or end is None:\n            raise ValueError('Either time or both start and end must be specified.')\n        elif abs(start) > abs(end):")],
  needs="a snapshot over negative times", breaks="valid negative intervals are rejected and reversed ones accepted",
  demo="""
S = dnx.SnapshotGraph()
S.add_snapshot([(1, 2)], start=-5, end=-2)
assert list(S.snapshots) == [(-5, -2)]
"""),
 dict(id="b35-model-route", property="C17", edits=[(MDG, "                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]", "                          if (u == [None] or e[0] in u) or (v == [None] or e[1] in v)]")],
  needs="-", breaks="-", demo="\n"),
]
PLANTS = [p for p in PLANTS if p["demo"].strip()]
