MDG = "classes/impulsedigraph.py"
SG = "classes/snapshotgraph.py"
TXT = """
import tempfile
def load(text, cls, **kw):
    d = tempfile.mkdtemp()
    p = os.path.join(d, "g.txt")
    with open(p, "w") as f:
        f.write(text)
    try:
        return cls.load_from_txt(p, **kw)
    finally:
        os.remove(p)
        os.rmdir(d)
"""
PLANTS = [
 dict(id="b183-own-timestamp", property="C08", edits=[(MDG, "dict(self._pred[iedge[0]][iedge[1]][iedge], timestamp=iedge[2])", "{'timestamp': iedge[2], **self._pred[iedge[0]][iedge[1]][iedge]}")],
  needs="an edge attribute that is itself called timestamp", breaks="the requested time stamp of the edge is hidden by its attribute",
  demo="""
G = dnx.ImpulseDiGraph()
G.add_edge(1, 2, 10, timestamp='noon', w=1)
H = G.to_subgraph(0, 20, edge_data=True, edge_timestamp_data=True)
assert list(H.edges(data=True)) == [(1, 2, {'timestamp': 10, 'w': 1})], list(H.edges(data=True))
"""),
 dict(id="b184-last-comment-mark", property="C12", edits=[(SG, "line.find(comments)", "line.rfind(comments)")],
  needs="a comment with the comment mark in it", breaks="the first part of the comment is read as data",
  demo=TXT + """
S = load("0 1;1 0 start=0 end=2 # first # second\\n0 1;1 0 start=2 end=4\\n", dnx.SnapshotGraph)
assert list(S.snapshots) == [(0, 2), (2, 4)]
"""),
 dict(id="b185-start-mark-first", property="C12", edits=[(SG, "p = min(line.find(start), line.find(end))", "p = line.find(start)")],
  needs="a line whose end time stands before its start time", breaks="the file is no longer read",
  demo=TXT + """
S = load("0 1;1 0 end=2 start=0\\n", dnx.SnapshotGraph)
assert list(S.snapshots) == [(0, 2)]
"""),
 dict(id="b186-mark-prefix", property="C12", edits=[(SG, "                    if key == start:", "                    if key.startswith(start):")],
  needs="interval marks of which one begins with the other", breaks="the end time is taken for the start time",
  demo=TXT + """
S = load("0 1;1 0 t=0 t2=2\\n", dnx.SnapshotGraph, start='t', end='t2')
assert list(S.snapshots) == [(0, 2)]
"""),
]
