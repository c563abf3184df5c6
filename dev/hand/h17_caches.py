# file: dynetworkx/classes/intervalgraph.py
class IntervalGraph:
    def interval(self):
        if getattr(self, '_span', None) is None:
            self._span = (self.tree.begin, self.tree.end)
        return self._span

    def __len__(self):
        return len(self._node)

    def number_of_nodes(self, begin=None, end=None):
        if begin is None and end is None:
            return len(self._node)
        if not hasattr(self, '_counts'):
            self._counts = {}
        if (begin, end) not in self._counts:
            inodes = set()
            for u, v, _, _ in self.tree[begin:end]:
                inodes.add(u)
                inodes.add(v)
            self._counts[begin, end] = len(inodes)
        return self._counts[begin, end]

    def add_edge(self, u, v, begin, end, **attr):
        # the graph is undirected, an existing (v, u) edge with the same interval is the same edge
        if v in self._adj and u in self._adj[v] and (v, u, begin, end) in self._adj[v][u]:
            u, v = v, u

        if u in self._adj and v in self._adj[u] and (u, v, begin, end) in self._adj[u][v]:
            self._adj[u][v][(u, v, begin, end)].update(attr)
            self._adj[v][u][(u, v, begin, end)].update(attr)
            return

        iedge = (u, v, begin, end)

        if begin > end:
            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))

        self._span = None
        self._counts = {}
        # add nodes
        self._adj.setdefault(u, {}).setdefault(v, {})
        self._adj.setdefault(v, {}).setdefault(u, {})
        self._node.setdefault(u, {})
        self._node.setdefault(v, {})

        # add edge
        try:
            self.tree.add(iedge)
        except ValueError:
            raise NetworkXError("IntervalGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))

        self._adj[u][v][iedge] = self._adj[v][u][iedge] = attr

    def __remove_iedge(self, iedge):
        self._span = None
        self._counts = {}
        self.tree.remove(iedge)
        self._adj[iedge[0]][iedge[1]].pop(iedge, None)
        self._adj[iedge[1]][iedge[0]].pop(iedge, None)

        # clean up empty dictionaries
        if len(self._adj[iedge[0]][iedge[1]]) == 0:
            self._adj[iedge[0]].pop(iedge[1], None)
            self._adj[iedge[1]].pop(iedge[0], None)
# file: dynetworkx/classes/intervaldigraph.py
class IntervalDiGraph:
    def interval(self):
        return self.tree.begin, self.tree.end

    def number_of_nodes(self, begin=None, end=None):
        if begin is None and end is None:
            return len(self._node)
        inodes = set()
        for u, v, _, _ in self.tree[begin:end]:
            inodes.add(u)
            inodes.add(v)
        return len(inodes)
# file: dynetworkx/classes/impulsegraph.py
class ImpulseGraph:
    def __init__(self, **attr):
        self.tree = SortedDict()
        self.graph = {}  # dictionary for graph attributes
        self._node = {}
        self._adj = {}
        self._model = None
        self._n_edges = 0

        self.graph.update(attr)

    def number_of_edges(self):
        return self._n_edges

    def add_edge(self, u, v, t, **attr):
        # the graph is undirected, an existing (v, u) edge with the same timestamp is the same edge
        if v in self._adj and u in self._adj[v] and (v, u, t) in self._adj[v][u]:
            u, v = v, u

        if (u, v) not in self.tree.get(t, ()):
            self._n_edges += 1
        self.tree.setdefault(t, set()).add((u, v))

        self._node.setdefault(u, {})
        self._node.setdefault(v, {})
        self._adj.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), attr).update(attr)
        self._adj.setdefault(v, {}).setdefault(u, {}).setdefault((u, v, t), attr).update(attr)

    def __remove_iedge(self, iedge):
        self._n_edges -= 1
        self.tree[iedge[2]].remove((iedge[0], iedge[1]))
        self._adj[iedge[0]][iedge[1]].pop(iedge, None)
        self._adj[iedge[1]][iedge[0]].pop(iedge, None)

        # clean up empty timestamps and dictionaries
        if len(self.tree[iedge[2]]) == 0:
            del self.tree[iedge[2]]
        if len(self._adj[iedge[0]][iedge[1]]) == 0:
            self._adj[iedge[0]].pop(iedge[1], None)
            self._adj[iedge[1]].pop(iedge[0], None)

    def interval(self):
        if self._n_edges == 0:
            raise IndexError("ImpulseGraph is empty.")
        return list(self.tree.keys())[0], list(self.tree.keys())[-1]
# file: dynetworkx/classes/impulsedigraph.py
class ImpulseDiGraph:
    def interval(self):
        if len(self.tree.keys()) == 0:
            raise IndexError("ImpulseGraph is empty.")
        return list(self.tree.keys())[0], list(self.tree.keys())[-1]
# file: dynetworkx/classes/snapshotgraph.py
class SnapshotGraph:
    def __iter__(self):
        if getattr(self, '_all', None) is None:
            self._all = list(self.snapshots.values())
        return iter(list(self._all))

    def insert(self, graph, start=None, end=None, time=None):
        if time is not None and (start is not None or end is not None):
            raise ValueError('Time and (start or end) cannot both be specified.')
        elif time is not None:
            self._all = None
            self.snapshots.update({(time, time): graph})
        elif start is None or end is None:
            raise ValueError('Either time or both start and end must be specified.')
        elif start > end:
            raise ValueError('Start of the interval must be lower or equal to end')
        else:
            self._all = None
            self.snapshots.update({(start, end): graph})
