IG, IDG, MG, MDG, TR, SG = ("classes/intervalgraph.py", "classes/intervaldigraph.py", "classes/impulsegraph.py",
                            "classes/impulsedigraph.py", "classes/intervaltree.py", "classes/snapshotgraph.py")
SDG = "classes/snapshotdigraph.py"
CT = "algorithms/count_temporal_motif.py"
PLANTS = [
 dict(id="b160-nodes-data-empty", property="C26", edits=[(MG, "        node_dict = {n: self._node[n] for n in inodes}\n", "        node_dict = {n: self._node[n] for n in inodes if self._node[n] or not data}\n")],
  needs="a node listing with data over a window that holds a node without attributes", breaks="the node is missing",
  demo="""
G = dnx.ImpulseGraph()
G.add_edges_from([(1, 2, 0)])
G.add_node(1, p=1)
assert sorted(n for n, d in G.nodes(begin=0, end=1, data=True)) == [1, 2]
"""),
 dict(id="b161-impulse-delta-neighbours", property="C16", edits=[(MG, "            d.setdefault(edge[2], []).append((edge[0], edge[1]))\n", "            d.setdefault(edge[2], set()).add(edge[1])\n")],
  needs="two edges of the node at one instant, the node being their second end", breaks="they count as one",
  demo="""
G = dnx.ImpulseGraph()
G.add_edges_from([(1, 3, 5), (2, 3, 5)])
assert G.degree(3, delta=True) == [(5, 2)], G.degree(3, delta=True)
"""),
 dict(id="b162-import-pop-time", property="C19", edits=[(MG, "            G.add_edge(edge[0], edge[1], edge[2][timestamp], **attr)\n", "            G.add_edge(edge[0], edge[1], edge[2].pop(timestamp), **attr)\n")],
  needs="the networkx graph is used again after the import", breaks="its edges have lost their time stamps",
  demo="""
import networkx as nx
H = nx.MultiGraph()
H.add_edge(1, 2, timestamp=3, w=1)
dnx.ImpulseGraph.from_networkx_graph(H)
assert [d for _, _, d in H.edges(data=True)] == [{'timestamp': 3, 'w': 1}]
"""),
 dict(id="b163-snap-rest", property="C09", edits=[(MG, "            if (end - begin) % length_of_snapshots != 0:\n                number_of_snapshots += 1\n", "            if (end - begin) % length_of_snapshots > length_of_snapshots / 2:\n                number_of_snapshots += 1\n")],
  needs="a span whose rest is at most half a length", breaks="the rest is put into the last full snapshot",
  demo="""
G = dnx.ImpulseGraph()
G.add_edges_from([(1, 2, 0), (1, 3, 5), (2, 3, 9)])
assert len(G.to_snapshots(length_of_snapshots=4)) == 3
"""),
 dict(id="b164-tree-pop-last", property="C05", edits=[(TR, "        node.edges.remove(edge)\n", "        node.edges.pop()\n")],
  needs="two edges with the same interval, the older one removed", breaks="the younger one leaves the index instead",
  demo="""
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 0, 4), (3, 4, 0, 4)])
G.remove_edge(1, 2)
assert G.edges(begin=0, end=4) == [(3, 4, 0, 4)] or list(G.edges(begin=0, end=4)) == [(3, 4, 0, 4)]
"""),
 dict(id="b165-unique-end-break", property="C20", edits=[(TR, "            if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):\n                timestamps.add(n.high)\n\n        return sorted(timestamps)\n\n    def unique_begin", "            if n.high > end:\n                break\n            if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):\n                timestamps.add(n.high)\n\n        return sorted(timestamps)\n\n    def unique_begin")],
  needs="a long interval that begins before shorter ones and ends after the bound", breaks="the later timestamps are missing",
  demo="""
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 0, 100), (2, 3, 1, 3), (3, 4, 2, 5)])
assert G.unique_timestamps(begin=0, end=10) == [0, 1, 2, 3, 5], G.unique_timestamps(begin=0, end=10)
"""),
 dict(id="b166-import-default-names", property="C11", edits=[(IG, "                if key != begin and key != end:\n", "                if key not in (begin, end, 'begin', 'end'):\n")],
  needs="custom attribute names and another attribute called end", breaks="that attribute is dropped", skip=True,
  demo="""
import networkx as nx
H = nx.Graph()
H.add_edge(1, 2, s=0, t=3, begin_=1)
"""),
 dict(id="b167-matrix-int", property="C12", edits=[(SG, "np.asarray(m, dtype=str)", "np.asarray(m, dtype=int).astype(str)")],
  needs="snapshots with weights that are not whole numbers", breaks="the saved matrix holds the whole part only",
  demo="""
import networkx as nx, tempfile, os
S = dnx.SnapshotGraph()
g = nx.Graph()
g.add_edge(0, 1, weight=2.5)
S.insert(g, start=0, end=1)
d = tempfile.mkdtemp()
try:
    S.save_to_txt(d + '/f')
    T = dnx.SnapshotGraph.load_from_txt(d + '/f')
    assert [e[2]['weight'] for e in T.get()[0].edges(data=True)] == [2.5]
finally:
    os.path.exists(d + '/f') and os.remove(d + '/f')
    os.rmdir(d)
"""),
 dict(id="b168-remove-reversed-zero", property="C15", edits=[(IDG, "            if begin is not None and end is not None and begin > end:\n                raise NetworkXError(\"IntervalDiGraph: interval end must be bigger than or equal to begin: \"\n                                \"begin: {}, end: {}.\".format(begin, end))\n\n            for iv", "            if begin and end and begin > end:\n                raise NetworkXError(\"IntervalDiGraph: interval end must be bigger than or equal to begin: \"\n                                \"begin: {}, end: {}.\".format(begin, end))\n\n            for iv")],
  needs="a removal in a reversed window with a bound of 0", breaks="nothing is raised",
  demo="""
import networkx as nx
G = dnx.IntervalDiGraph()
G.add_edge(1, 2, -5, 5)
try:
    G.remove_edge(1, 2, begin=4, end=0)
except nx.NetworkXError:
    pass
else:
    raise AssertionError
assert G.has_edge(1, 2)
"""),
 dict(id="b169-indeg-end-closed", property="C16", nth=0, edits=[(IDG, "        for edge in self.edges(v=node, begin=begin, end=end):\n            if edge[2] >= begin:\n                # if begin is in specified time period, add to SortedDict, with +1 to indicate begin\n                sd.setdefault((edge[2], 1), []).append((edge[0], edge[1]))\n            if edge[3] < end:", "        for edge in self.edges(v=node, begin=begin, end=end):\n            if edge[2] > begin:\n                # if begin is in specified time period, add to SortedDict, with +1 to indicate begin\n                sd.setdefault((edge[2], 1), []).append((edge[0], edge[1]))\n            if edge[3] < end:")],
  needs="a change list of a node with an incoming edge that begins with the window", breaks="that event is missing from the list",
  demo="""
G = dnx.IntervalDiGraph()
G.add_edges_from([(1, 2, 0, 4), (3, 2, 2, 6)])
assert G.degree(2, begin=0, end=7, delta=True)[0][0] == 0, G.degree(2, begin=0, end=7, delta=True)
"""),
 dict(id="b170-sdg-add-undirected", property="C22", edits=[(SDG, "            g = DiGraph()\n", "            g = Graph() if not ebunch else DiGraph()\n")], skip=True,
  needs="an empty edge list", breaks="", demo=""),
 dict(id="b171-merge-gap", property="C12", edits=[(IG, "G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True)", "G.edges(u, v, begin - merge[1] - 1, end + merge[1], data=True)")],
  needs="merging lines that are not in time order", breaks="an edge that ends just before an earlier one is not merged",
  demo="""
import tempfile, os
d = tempfile.mkdtemp()
try:
    with open(d + '/f', 'w') as f:
        f.write('1 2 4 6\\n1 2 1 3\\n')
    G = dnx.IntervalGraph.load_from_txt(d + '/f', merge=(True, 1))
    assert sorted(G.edges()) == [(1, 2, 1.0, 6.0)], G.edges()
finally:
    os.path.exists(d + '/f') and os.remove(d + '/f')
    os.rmdir(d)
"""),
 dict(id="b172-motif-window-start", property="C18", edits=[(CT, "                while edges[start][2] == tmp_time:\n                    same_time_edges.append(edges[start][0:2])\n                    start += 1\n                    if start >= len(edges):\n                        break\n", "                while edges[start][2] == tmp_time:\n                    if edges[start][0:2] not in same_time_edges:\n                        same_time_edges.append(edges[start][0:2])\n                    start += 1\n                    if start >= len(edges):\n                        break\n")], skip=True,
  needs="", breaks="", demo=""),
 dict(id="b173-part-first-nodes", property="C23", edits=[(CT, "        new_key = tuple(OrderedDict.fromkeys(key)) # generates new key without duplicates\n", "        new_key = tuple(OrderedDict.fromkeys(key[:2] + key[2:][::-1])) if len(motif) > 3 else tuple(OrderedDict.fromkeys(key)) # generates new key without duplicates\n")],
  needs="a motif of more than three nodes", breaks="the participation table counts nodes at wrong positions",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edges_from([(1, 2, 0), (2, 3, 1), (3, 4, 2)])
t, c, p = dnx.count_temporal_motif(G, ((1, 2), (2, 3), (3, 4)), 5)
assert p.at[3, 3] == 1 and p.at[4, 4] == 1, p
"""),
 dict(id="b174-snap-get-window-list", property="C13", edits=[(SG, "            return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]\n", "            return [graph.has_node(n) for graph in self._get(sbunch=dict.fromkeys(sbunch))]\n")],
  needs="the same index asked for twice", breaks="it is answered once",
  demo="""
S = dnx.SnapshotGraph()
S.add_snapshot([(1, 2)], time=0)
S.add_snapshot([(3, 4)], time=1)
assert S.has_node(1, sbunch=[0, 1, 0]) == [True, False, True]
"""),
 dict(id="b175-mdg-has-edge-incl", property="C02", edits=[(MDG, "    def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):", "    def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, False)):")],
  needs="an edge at the very end of the window of a removal", breaks="it is kept",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edges_from([(1, 2, 0), (1, 2, 5)])
G.remove_edge(1, 2, begin=3, end=5)
assert list(G.edges()) == [(1, 2, 0)]
"""),
]
PLANTS = [p for p in PLANTS if not p.get("skip")]
