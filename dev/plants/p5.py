IG, IDG, MG, MDG, TR, SG = ("classes/intervalgraph.py", "classes/intervaldigraph.py", "classes/impulsegraph.py",
                            "classes/impulsedigraph.py", "classes/intervaltree.py", "classes/snapshotgraph.py")
SDG = "classes/snapshotdigraph.py"
CT = "algorithms/count_temporal_motif.py"
PLANTS = [
 dict(id="b130-mean-falsy-node", property="C16", edits=[(MG, "        if node == None:\n", "        if not node and node != 0:\n")],
  needs="a node that is an empty string or an empty tuple", breaks="the mean degree is returned for it",
  demo="""
G = dnx.ImpulseGraph()
G.add_edges_from([('', 1, 0), ('', 2, 1), ('', 3, 2)])
assert G.degree('') == 3, G.degree('')
"""),
 dict(id="b131-run-model-anyend", property="C17", edits=[(MG, "                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)\n                          or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]\n",
     "                          if (u == [None] or e[0] in u or e[1] in u) and (v == [None] or e[0] in v or e[1] in v)]\n")],
  needs="a trained model that picks the time-first route and endpoint lists that share a node", breaks="edges with one end in both lists are returned although the other end is in neither",
  demo="""
class M:
    def predict(self, X): return [(1.0, 0.0)]
G = dnx.ImpulseGraph()
G.add_edges_from([(1, 2, 0), (1, 3, 1), (2, 3, 2)])
want = sorted(G.edges(u=[1, 2], v=[1], begin=0, end=5))
G._model = M()
assert sorted(G.edges(u=[1, 2], v=[1], begin=0, end=5)) == want
"""),
 dict(id="b132-model-union-inplace", property="C07", edits=[(IG, "                nodes = set(u).union(set(v))\n", "                nodes = u if isinstance(u, set) else set(u)\n                nodes.update(v)\n")],
  needs="a trained model and an endpoint given as a set together with the other endpoint", breaks="the caller's set is enlarged by the query",
  demo="""
class M:
    def predict(self, X): return [(1.0, 0.0)]
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 0, 3), (1, 3, 1, 2), (2, 3, 2, 5)])
G._model = M()
s = {1}
G.edges(u=s, v=2, begin=0, end=5)
assert s == {1}, s
"""),
 dict(id="b133-interval-cache", property="C21", edits=[
     (IG, "        return self.tree.begin, self.tree.end\n", "        n = self.tree.number_of_edges\n        if getattr(self, '_span', None) is None or self._span[0] != n:\n            self._span = (n, self.tree.begin, self.tree.end)\n        return self._span[1], self._span[2]\n")],
  needs="interval() asked, an edge removed, another one added, interval() asked again", breaks="the interval of the earlier edges is returned",
  demo="""
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 0, 3), (1, 3, 1, 9)])
assert G.interval() == (0, 9)
G.remove_edge(1, 3)
G.add_edge(1, 4, 2, 5)
assert G.interval() == (0, 5), G.interval()
"""),
 dict(id="b134-nodes-cache", property="C26", edits=[
     (MG, "        node_dict = {n: self._node[n] for n in inodes}\n", "        node_dict = self.graph.setdefault('_nodes', {})\n        for n in inodes:\n            node_dict[n] = self._node[n]\n")],
  needs="nodes of two different windows of one impulse digraph", breaks="the second answer also has the nodes of the first",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edges_from([(1, 2, 0), (3, 4, 9)])
G.nodes(begin=0, end=2)
assert sorted(G.nodes(begin=8, end=10)) == [3, 4]
"""),
 dict(id="b135-sg-list-cache", property="C13", edits=[
     (SG, "        return [snapshot for snapshot in self._get(sbunch, start, end)]\n",
          "        if sbunch is None and start is None and end is None:\n            if getattr(self, '_all', None) is None or len(self._all) != len(self.snapshots):\n                self._all = [snapshot for snapshot in self._get()]\n            return list(self._all)\n        return [snapshot for snapshot in self._get(sbunch, start, end)]\n")],
  needs="get() asked, a snapshot replaced by another at the same times, get() asked again", breaks="the replaced snapshot is returned",
  demo="""
G = dnx.SnapshotGraph()
G.insert(nx.Graph([(1, 2)]), start=0, end=3)
assert G.get()[0].has_edge(1, 2)
g = nx.Graph([(5, 6)])
G.insert(g, start=0, end=3)
assert G.get()[0] is g
"""),
 dict(id="b136-edge-tuple-bulk", property="C15", edits=[
     (IDG, "        for e in ebunch_to_add:\n            if len(e) != 4:\n                raise NetworkXError(\"Edge tuple {0} must be a 4-tuple.\".format(e))\n",
           "        for e in ebunch_to_add:\n            if len(e) < 4:\n                raise NetworkXError(\"Edge tuple {0} must be a 4-tuple.\".format(e))\n")],
  needs="an edge tuple with an attribute dictionary as fifth entry", breaks="it is accepted and the attributes are dropped",
  demo="""
G = dnx.IntervalDiGraph()
try:
    G.add_edges_from([(1, 2, 0, 3, {'w': 1})])
except nx.NetworkXError:
    pass
else:
    raise SystemExit('accepted')
"""),
 dict(id="b137-mg-export-falsy-attr", property="C08", edits=[
     (MDG, "            G.add_nodes_from((n, self._node[n].copy()) for n in G.nodes)\n", "            G.add_nodes_from((n, {k: a for k, a in self._node[n].items() if a}) for n in G.nodes)\n")],
  needs="a node attribute that is 0, False or empty", breaks="the attribute is missing in the exported graph",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_node(1, p=0)
G.add_edge(1, 2, 3)
assert dict(G.to_subgraph(None, None, node_data=True).nodes(data=True))[1] == {'p': 0}
"""),
 dict(id="b138-snapgraph-node-data", property="C10", edits=[
     (IG, "                                    edge_interval_data=edge_interval_data, node_data=node_data),\n", "                                    edge_interval_data=edge_interval_data, node_data=node_data and edge_data),\n")],
  needs="a conversion that asks for node data but not for edge data", breaks="the snapshots have no node data",
  demo="""
G = dnx.IntervalGraph()
G.add_node(1, p=7)
G.add_edge(1, 2, 3, 5)
assert dict(G.to_snapshot_graph(node_data=True).get()[0].nodes(data=True))[1] == {'p': 7}
"""),
 dict(id="b139-motif-node-index", property="C23", edits=[
     (CT, "            nppp.at[new_key[i], motif[i]] += new_total_counts.get(new_key)", "            nppp.at[new_key[i], motif[i]] += 1")],
  needs="an instance that is counted more than once", breaks="the participation table counts it once",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edges_from([(1, 2, 0), (1, 2, 1), (2, 3, 2)])
n, c, t = dnx.count_temporal_motif(G, ((1, 2), (2, 3)), 5)
assert n == 2 and t.at[1, 1] == 2, t
"""),
 dict(id="b140-import-shared-attr", property="C19", edits=[
     (MG, "        for edge in graph.edges(data=True):\n            attr = {}\n\n            for key in edge[2]:\n                if key != timestamp:\n                    attr[key] = edge[2][key]\n\n            G.add_edge(edge[0], edge[1], edge[2][timestamp], **attr)\n",
          "        for edge in graph.edges(data=True):\n            attr = {}\n\n            for key in edge[2]:\n                if key != timestamp:\n                    attr[key] = edge[2][key]\n\n            G.add_edge(edge[0], edge[1], edge[2][timestamp])\n            for iedge in G._adj[edge[0]][edge[1]]:\n                G._adj[edge[0]][edge[1]][iedge].update(attr)\n")],
  needs="a multigraph with two edges between the same nodes whose attributes differ", breaks="the attributes of the later edge overwrite those of the earlier one",
  demo="""
N = nx.MultiGraph()
N.add_edge(1, 2, timestamp=3, w=1)
N.add_edge(1, 2, timestamp=4, w=2)
G = dnx.ImpulseGraph.from_networkx_graph(N)
assert dict(G.edges(data='w'))[(1, 2, 3)] == 1
"""),
 dict(id="b141-ig-degree-loop", property="C15", edits=[
     (IG, "            return len(self.edges(u=node, begin=begin, end=end))\n", "            return sum(len(self.edges(u=node, v=v, begin=begin, end=end)) for v in self._adj.get(node, {}) if v is not None)\n")],
  needs="the degree of a node in a reversed window when it has no edge", breaks="nothing is raised",
  demo="""
G = dnx.IntervalGraph()
G.add_node(1)
G.add_edge(2, 3, 0, 4)
try:
    G.degree(1, begin=4, end=2)
except nx.NetworkXError:
    pass
else:
    raise SystemExit('accepted')
"""),
 dict(id="b143-sg-subgraph-default", property="C13", edits=[
     (SG, "            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):\n                subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])\n",
          "            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):\n                if subgraph.snapshots and subgraph.snapshots.keys()[-1] >= key:\n                    break\n                subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])\n")],
  needs="a subgraph of snapshots whose indices are not ascending", breaks="the later ones are missing",
  demo="""
G = dnx.SnapshotGraph()
for i in range(3):
    G.insert(nx.Graph([(1, i + 2)]), start=i, end=i + 1)
assert len(G.subgraph([1, 2, 3, 4], sbunch=[2, 0])) == 2
"""),

 dict(id="b142-tree-slice-memo", property="C03", edits=[
     (TR, "        for node in self.query(root, interval_start, interval_end):\n            yield from node.edges\n",
          "        key = (interval_start, interval_end, self.number_of_edges)\n        if getattr(self, 'memo', (None,))[0] != key:\n            self.memo = key, [edge for node in self.query(root, interval_start, interval_end) for edge in node.edges]\n        yield from self.memo[1]\n")],
  needs="the same window asked twice with one removal and one insertion in between", breaks="the second answer is the first one",
  demo="""
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 0, 3), (1, 3, 1, 9)])
G.edges(begin=0, end=10)
G.remove_edge(1, 3)
G.add_edge(1, 4, 2, 5)
assert sorted(G.edges(begin=0, end=10)) == [(1, 2, 0, 3), (1, 4, 2, 5)]
"""),
 dict(id="b144-count-after-end", property="C01", edits=[
     (IG, "        iedges = self.tree[begin:end]\n\n        inodes = set()\n        for u, v, _, _ in iedges:\n            inodes.add(u)\n            inodes.add(v)\n\n        return len(inodes)\n",
          "        if begin is not None and begin >= self.tree.end:\n            return 0\n\n        inodes = set()\n        for u, v, _, _ in self.tree[begin:end]:\n            inodes.add(u)\n            inodes.add(v)\n\n        return len(inodes)\n")],
  needs="a window that begins at the very end of the graph where a zero-length edge lies", breaks="its nodes are not counted",
  demo="""
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 0, 3), (3, 4, 3, 3)])
assert G.number_of_nodes(begin=3) == 2
"""),
 dict(id="b145-save-short-time", property="C12", edits=[
     (MG, "                line = str(edge[0][0]) + delimiter + str(edge[0][1]) + delimiter + str(edge[0][2])\n", "                line = str(edge[0][0]) + delimiter + str(edge[0][1]) + delimiter + '{:g}'.format(edge[0][2])\n")],
  needs="timestamps of more than six digits", breaks="they are rounded in the saved file",
  demo="""
import tempfile
G = dnx.ImpulseGraph()
G.add_edge(1, 2, 1234567.0)
with tempfile.TemporaryDirectory() as d:
    G.save_to_txt(os.path.join(d, 'g.txt'))
    H = dnx.ImpulseGraph.load_from_txt(os.path.join(d, 'g.txt'))
assert H.edges() == [(1, 2, 1234567.0)], H.edges()
"""),
 dict(id="b146-snap-true-div", property="C09", edits=[
     (IG, "            number_of_snapshots = int((end - begin) // length_of_snapshots)\n", "            number_of_snapshots = int((end - begin) / length_of_snapshots)\n")],
  needs="a length such as 0.1 that is no exact binary fraction", breaks="one snapshot too many is yielded",
  demo="""
G = dnx.IntervalGraph()
G.add_edges_from([(1, 2, 0, 1), (3, 4, 1, 1)])
assert len(G.to_snapshots(length_of_snapshots=0.1)) == 10
"""),
 dict(id="b148-mdg-succ-empty", property="C05", edits=[
     (MDG, "            self._pred[iedge[0]].pop(iedge[1], None)\n            self._succ[iedge[1]].pop(iedge[0], None)\n", "            self._pred[iedge[0]].pop(iedge[1], None)\n")],
  needs="an edge removed, then its second node removed", breaks="the node stays",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edges_from([(1, 2, 0), (1, 3, 1)])
G.remove_edge(1, 2)
G.remove_node(2)
assert not G.has_node(2)
"""),
 dict(id="b149-add-empty-graph", property="C22", edits=[(SG, "        if graph is None:\n            g = Graph()\n", "        if not graph:\n            g = Graph()\n")],
  needs="an empty graph added as a snapshot", breaks="another graph (or an error) takes its place",
  demo="""
G = dnx.SnapshotGraph()
g = nx.Graph()
G.add_snapshot(ebunch=[], graph=g, start=0, end=1)
assert G.get()[0] is g
"""),
 dict(id="b152-import-skip-empty", property="C11", edits=[(IG, "        for snapshot in snapshot_graph.get():\n            for edge in snapshot.edges(data=True):\n", "        for snapshot in snapshot_graph.get():\n            if snapshot.number_of_edges() == 0:\n                continue\n            for edge in snapshot.edges(data=True):\n")],
  needs="an empty snapshot between others", breaks="the time of the empty snapshot is skipped",
  demo="""
G = dnx.SnapshotGraph()
G.insert(nx.Graph([(1, 2)]), start=0, end=1)
G.insert(nx.Graph(), start=1, end=2)
G.insert(nx.Graph([(1, 2)]), start=2, end=3)
assert sorted(dnx.IntervalGraph.from_snapshot_graph(G).edges()) == [(1, 2, 0, 1), (1, 2, 2, 3)]
"""),
 dict(id="b154-motif-exact-static", property="C18", edits=[(CT, "        counts = dict()\n        edges = list()\n", "        counts = dict()\n        if sub.number_of_edges() != static_motif.number_of_edges():\n            continue\n        edges = list()\n")],
  needs="nodes of an instance that have further edges among them", breaks="the instance is not counted",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edges_from([(1, 2, 0), (2, 3, 1), (3, 1, 9)])
assert dnx.count_temporal_motif(G, ((1, 2), (2, 3)), 5)[0] == 1
"""),
 dict(id="b156-impulse-dedupe", property="C10", edits=[(MG, "        for time, snapshot in self.tree.items():\n            G.insert(", "        last = None\n        for time, snapshot in self.tree.items():\n            if snapshot == last:\n                continue\n            last = snapshot\n            G.insert(")],
  needs="the same edges at two successive instants", breaks="the second instant has no snapshot",
  demo="""
G = dnx.ImpulseGraph()
G.add_edges_from([(1, 2, 0), (1, 2, 1)])
assert len(G.to_snapshot_graph()) == 2
"""),
 dict(id="b157-name-once", property="C26", edits=[(SG, "        self.graph['name'] = s\n", "        self.graph.setdefault('name', s)\n")],
  needs="a graph whose name is changed", breaks="it keeps its first name",
  demo="""
G = dnx.SnapshotGraph(name='a')
G.name = 'b'
assert G.name == 'b' and str(G) == 'b'
"""),
]
