IG, IDG, MG, MDG, TR, SG = ("classes/intervalgraph.py", "classes/intervaldigraph.py", "classes/impulsegraph.py",
                            "classes/impulsedigraph.py", "classes/intervaltree.py", "classes/snapshotgraph.py")
PLANTS = [
 dict(id="b180-training-adds", property="C17", edits=[(IG, "            for u in nodes:\n                for v in self._adj[u]:\n", "            for u in nodes:\n                self._adj[u].setdefault(u, {})\n                for v in self._adj[u]:\n")],
  needs="a trained model", breaks="every sampled node has become its own neighbour: has_edge(n, n) is true",
  demo="""
import random
random.seed(1)
G = dnx.IntervalGraph()
G.add_edges_from([(i, i + 1, 3 * i, 3 * i + 1) for i in range(20)])
before = [(a, b) for a in range(21) for b in range(21) if G.has_edge(a, b)]
G.generate_predictive_model(training_size=20)
assert [(a, b) for a in range(21) for b in range(21) if G.has_edge(a, b)] == before
"""),
 dict(id="b181-predict-returns", property="C12", edits=[(IG, "            G.generate_predictive_model()\n\n        return G", "            return G.generate_predictive_model()\n\n        return G")],
  needs="loading with predict=True", breaks="the loaded graph is lost",
  demo="""
import random, tempfile
random.seed(1)
d = tempfile.mkdtemp()
p = os.path.join(d, "g.txt")
with open(p, "w") as f:
    for i in range(20):
        f.write(f"{i} {i + 1} {3 * i} {3 * i + 1}\\n")
try:
    G = dnx.IntervalGraph.load_from_txt(p, intervaltype=int, predict=True)
finally:
    os.remove(p)
    os.rmdir(d)
assert G is not None and len(G.edges()) == 20
"""),
 dict(id="b182-remove-while-walking", property="C05", edits=[(MG, "                remove_edges.append(edge)\n        for edge in remove_edges:\n            self.__remove_iedge(edge)\n", "                self.__remove_iedge(edge)\n")],
  needs="a node with two edges at one instant", breaks="the second one is skipped and stays",
  demo="""
G = dnx.ImpulseGraph()
G.add_edges_from([(1, 2, 0), (1, 3, 0), (2, 3, 0), (1, 4, 0)])
G.remove_node(1)
assert not G.has_node(1) and G.edges() == [(2, 3, 0)], G.edges()
"""),
 dict(id="b183-merge-attrs-swapped", property="C04", edits=[(IDG, "", "")], needs="", breaks="", demo=""),
]
PLANTS = [p for p in PLANTS if p["demo"]]
