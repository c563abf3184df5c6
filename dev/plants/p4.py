IG, IDG, MG, MDG, TR, SG = ("classes/intervalgraph.py", "classes/intervaldigraph.py", "classes/impulsegraph.py",
                            "classes/impulsedigraph.py", "classes/intervaltree.py", "classes/snapshotgraph.py")
SDG = "classes/snapshotdigraph.py"
CT = "algorithms/count_temporal_motif.py"
PLANTS = [
 dict(id="b101-import-timestamp-key", property="C11", edits=[(MG, "                if key != timestamp:\n", "                if key not in (timestamp, 'timestamp'):\n")],
  needs="a networkx graph whose times have a custom attribute name and whose edges also carry an attribute called timestamp", breaks="that attribute is lost on import",
  demo="""
N = nx.Graph()
N.add_edge(1, 2, when=3, timestamp='monday', w=1)
G = dnx.ImpulseGraph.from_networkx_graph(N, timestamp='when')
assert G.edges(data=True) == [((1, 2, 3), {'timestamp': 'monday', 'w': 1})], G.edges(data=True)
"""),
 dict(id="b102-nodes-generator", property="C14", edits=[(SG, "            for graph in self._get(start=start, end=end, split_overlaps=True):\n                graph.add_nodes_from(nbunch, **attrs)\n",
    "            nbunch = (n for n in nbunch)\n            for graph in self._get(start=start, end=end, split_overlaps=True):\n                graph.add_nodes_from(nbunch, **attrs)\n")],
  needs="a window that covers two or more snapshots", breaks="only the first of them receives the nodes",
  demo="""
G = dnx.SnapshotGraph()
G.add_snapshot([(1, 2)], start=0, end=3)
G.add_snapshot([(1, 2)], start=3, end=5)
G.add_nodes_from([7, 8], start=0, end=5)
assert G.has_node(8) == [True, True], G.has_node(8)
"""),
 dict(id="b103-degree-weight", property="C13", edits=[(SG, "                return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]\n",
    "                return [graph.degree(graph) for graph in self._get(start=start, end=end)]\n")],
  needs="weighted degrees of all nodes over a time window", breaks="the degrees are not weighted",
  demo="""
G = dnx.SnapshotGraph()
g = nx.Graph(); g.add_edge(1, 2, w=5)
G.insert(g, start=0, end=3)
assert [dict(d) for d in G.degree(start=0, end=2, weight='w')] == [{1: 5, 2: 5}]
"""),
 dict(id="b104-save-begin-attr", property="C07", edits=[(MG, "                for key in edge[1]:\n                    line += delimiter", "                edge[1].pop('t', None)\n                edge[1].pop('timestamp', None)\n                for key in edge[1]:\n                    line += delimiter")],
  needs="edges with an attribute called timestamp", breaks="saving the graph removes the attribute from it",
  demo="""
import tempfile
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 3, timestamp='x')
with tempfile.TemporaryDirectory() as d:
    G.save_to_txt(os.path.join(d, 'g.txt'))
assert G.edges(data=True) == [((1, 2, 3), {'timestamp': 'x'})]
"""),
 dict(id="b105-contains-data", property="C06", edits=[(IG, "        return [(iv, self._adj[iv[0]][iv[1]][iv][data]) if data in self._adj[iv[0]][iv[1]][iv] else (iv, default) for iv\n",
    "        return [(iv, self._adj[iv[0]][iv[1]][iv].get(data) or default) for iv\n")],
  needs="edges(data=name, default=d) where a stored value is 0, False or empty", breaks="the stored value is replaced by the default",
  demo="""
G = dnx.IntervalGraph()
G.add_edge(1, 2, 0, 5, w=0)
assert G.edges(data='w', default=9) == [((1, 2, 0, 5), 0)]
"""),
 dict(id="b106-iv-snap-elapsed", property="C09", edits=[(IG, "            if i == number_of_snapshots - 1:\n                end_inclusive_addition = 1\n", "            if begin + length_of_snapshots * (i + 1) == end:\n                end_inclusive_addition = 1\n")],
  needs="a snapshot length that does not divide the span is fine; a number of snapshots whose float multiples miss the end is not", breaks="the final instant is left out of the last snapshot",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edges_from([(1, 2, 0, 1), (3, 4, 1, 1)])
for n in range(2, 60):
    s = G.to_snapshots(number_of_snapshots=n)
    assert s[-1].has_edge(3, 4), n
"""),
 dict(id="b108-run-swapped-data", property="C11", edits=[(IG, "                        edge_dict[u_v][begin + period] = (begin, edge[2])\n", "                        edge_dict[u_v][begin + period] = (begin, edge_dict[u_v].setdefault('data', edge[2]) if False else (list(edge_dict[u_v].values())[0][1] or edge[2]))\n")],
  needs="an edge that leaves and returns with other attributes", breaks="the second run carries the attributes of the first",
  demo="""
S = dnx.SnapshotDiGraph()
for i, w in ((0, 1), (1, None), (2, 3)):
    g = nx.DiGraph()
    g.add_edge(5, 6)
    if w: g.add_edge(1, 2, w=w)
    S.insert(g, start=i, end=i + 1)
G = dnx.IntervalDiGraph.from_snapshot_graph(S)
assert sorted(G.edges(1, 2, data='w')) == [((1, 2, 0, 1), 1), ((1, 2, 2, 3), 3)], G.edges(1, 2, data='w')
"""),
 dict(id="b109-merge-attr-subset", property="C12", edits=[(IG, "                    for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):\n",
    "                    for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1], data=True):\n")],
  needs="merging where a later line lies before the stored interval at exactly the allowed gap", breaks="the two are not merged",
  demo="""
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'g.txt')
    open(p, 'w').write('1 2 5 8\\n1 2 0 3\\n')
    G = dnx.IntervalDiGraph.load_from_txt(p, merge=(True, 2))
assert G.edges() == [(1, 2, 0.0, 8.0)], G.edges()
"""),
 dict(id="b111-remove-node-both", property="C05", edits=[(IDG, "                    iedges_to_remove.append(iv)\n\n        # removing found iedges\n        for iv in iedges_to_remove:\n            self.__remove_iedge(iv)\n\n    def degree",
    "                    iedges_to_remove.append(iv)\n\n        # removing found iedges\n        for iv in iedges_to_remove:\n            self.__remove_iedge(iv)\n            if not self._pred.get(iv[0]) and iv[0] == iv[1]:\n                self._node[iv[0]].clear()\n\n    def degree")],
  needs="removing the only edge of a node, a self-loop", breaks="the attributes of the node are lost",
  demo="""
G = dnx.IntervalDiGraph()
G.add_node(1, color='red')
G.add_edge(1, 1, 0, 5)
G.remove_edge(1, 1)
assert dict(G.nodes(data=True)) == {1: {'color': 'red'}}, dict(G.nodes(data=True))
"""),
 dict(id="b114-tree-end-stale", property="C21", edits=[(MG, "        return list(self.tree.keys())[0], list(self.tree.keys())[-1]\n", "        return next((t for t in self.tree.keys() if t), 0), list(self.tree.keys())[-1]\n")],
  needs="an impulse at time 0 that is the first of several", breaks="the interval begins at the second instant",
  demo="""
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 0); G.add_edge(1, 2, 4)
assert G.interval() == (0, 4), G.interval()
"""),
 dict(id="b116-export-default-node", property="C08", edits=[(IDG, "            G.add_nodes_from((n, self._node[n].copy()) for n in G.nodes)\n", "            G.add_nodes_from((n, self._node[n].copy()) for n in G.nodes if G.in_degree(n) == 0 or G.out_degree(n) or len(self._pred.get(n, ())) == 0)\n")],
  needs="exporting node data over a window in which a node has only incoming edges but has outgoing ones at other times", breaks="the node's attributes are missing",
  demo="""
G = dnx.IntervalDiGraph()
G.add_node(2, c=1)
G.add_edge(1, 2, 0, 5); G.add_edge(2, 3, 10, 12)
assert dict(G.to_subgraph(0, 6, node_data=True).nodes(data=True)) == {1: {}, 2: {'c': 1}}
"""),
 dict(id="b117-nodes-from-order", property="C19", edits=[(IG, "                self.add_node(n[0], **attr)\n                self._node[n[0]].update(n[1])\n", "                if attr or n[0] in self._node:\n                    self.add_node(n[0], **attr)\n                    self._node[n[0]].update(n[1])\n                else:\n                    self.add_node(n[0])\n                    self._node[n[0]] = n[1]\n")],
  needs="adding (node, attributes) tuples of new nodes and changing the node later", breaks="the caller's dictionary is the node's own",
  demo="""
d = {'c': 1}
G = dnx.IntervalGraph()
G.add_nodes_from([(1, d), (2, d)])
G.add_node(1, c=2)
assert d == {'c': 1} and dict(G.nodes(data=True)) == {1: {'c': 2}, 2: {'c': 1}}
"""),
 dict(id="b119-sg-len", property="C22", edits=[(SG, "        return len(self.snapshots)\n", "        return len({k[0] for k in self.snapshots})\n")],
  needs="two snapshots that begin at the same time", breaks="len counts them once",
  demo="""
G = dnx.SnapshotGraph()
G.add_snapshot([(1, 2)], start=0, end=3)
G.add_snapshot([(1, 2)], start=0, end=5)
assert len(G) == 2
"""),
 dict(id="b120-insert-instant-drop", property="C22", edits=[(SG, "            self.snapshots.update({(time, time): graph})\n", "            self.snapshots.pop((time, None), None)\n            self.snapshots = SortedDict((k, g) for k, g in self.snapshots.items() if not k[0] == k[1] or k[0] != int(time))\n            self.snapshots.update({(time, time): graph})\n")],
  needs="inserting a snapshot at a fractional instant when one exists at the whole instant below", breaks="the existing snapshot is dropped",
  demo="""
G = dnx.SnapshotGraph()
G.add_snapshot([(1, 2)], time=2)
G.add_snapshot([(3, 4)], time=2.5)
assert len(G) == 2
"""),
]
