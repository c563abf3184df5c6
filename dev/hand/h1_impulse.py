# file: dynetworkx/classes/impulsegraph.py
class ImpulseGraph:
    def interval(self):
        if not self.tree:
            raise IndexError("ImpulseGraph is empty.")
        times = self.tree.keys()
        return times[0], times[-1]

    def add_node(self, node_for_adding, **attr):
        if node_for_adding not in self._node:
            self._node[node_for_adding] = {}
        self._node[node_for_adding].update(attr)
        if node_for_adding not in self._adj:
            self._adj[node_for_adding] = {}

    def add_nodes_from(self, nodes_for_adding, **attr):
        for entry in nodes_for_adding:
            label, extra = entry, {}
            if isinstance(entry, tuple) and len(entry) == 2 and isinstance(entry[1], dict):
                label, extra = entry
            self.add_node(label, **attr)
            self._node[label].update(extra)

    def number_of_nodes(self, begin=None, end=None, inclusive=(True, False)):
        if begin is None and end is None:
            return len(self._node)
        if end is None:
            inclusive = (inclusive[0], True)
        return len(self.__endpoints(begin, end, inclusive))

    def __endpoints(self, begin, end, inclusive):
        found = set()
        for u, v, _ in self.__search_tree(begin, end, inclusive=inclusive):
            found.update((u, v))
        return found

    def has_node(self, n, begin=None, end=None, inclusive=(True, False)):
        if n not in self._node:
            return False
        if begin is None and end is None:
            return True
        begin, end = self.__validate_interval(begin, end)
        return any(n in (u, v) for u, v, t in self.__search_tree(begin, end, inclusive=inclusive))

    def nodes(self, begin=None, end=None, inclusive=(True, False), data=False, default=None):
        if begin is None and end is None:
            shown = self._node
        else:
            shown = {n: self._node[n] for n in self.__endpoints(begin, end, inclusive)}
        return NodeDataView(shown, data=data, default=default)

    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
        if n not in self._node:
            return
        doomed = [edge for edge in self.__search_tree(begin, end, inclusive) if n in edge[:2]]
        for edge in doomed:
            self.__remove_iedge(edge)
        if not self._adj.get(n):
            self._adj.pop(n, None)
            del self._node[n]

    def add_edge(self, u, v, t, **attr):
        if (v, u, t) in self._adj.get(v, {}).get(u, {}):
            u, v = v, u
        iedge = (u, v, t)
        if t not in self.tree:
            self.tree[t] = set()
        self.tree[t].add((u, v))
        for n in (u, v):
            self._node.setdefault(n, {})
        for a, b in ((u, v), (v, u)):
            nbrs = self._adj.setdefault(a, {})
            edges = nbrs.setdefault(b, {})
            edges.setdefault(iedge, attr).update(attr)

    def add_edges_from(self, ebunch_to_add, **attr):
        for e in ebunch_to_add:
            if len(e) != 3:
                raise NetworkXError("Edge tuple {0} must be a 3-tuple.".format(e))
            u, v, t = e
            self.add_edge(u, v, t, **attr)

    def has_edge(self, u, v, begin=None, end=None, inclusive=(True, False)):
        try:
            edges = self._adj[u][v]
        except KeyError:
            return False
        if begin is None and end is None:
            return True
        self.__validate_interval(begin, end)
        return any(self.__in_interval(t, begin, end, inclusive=inclusive) for _, _, t in edges)

    def __edges_interval_first(self, begin, end, inclusive):
        self.__validate_interval(begin, end)
        return [edge for edge in self.__search_tree(begin, end, inclusive)]

    def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, False)):
        edges = self._adj.get(u, {}).get(v)
        if edges is None:
            return
        for edge in list(edges):
            if (begin is None and end is None) or self.__in_interval(edge[2], begin, end, inclusive=inclusive):
                self.__remove_iedge(edge)

    def __remove_iedge(self, iedge):
        u, v, t = iedge
        self.tree[t].remove((u, v))
        if not self.tree[t]:
            del self.tree[t]
        self._adj[u][v].pop(iedge, None)
        self._adj[v][u].pop(iedge, None)
        if not self._adj[u][v]:
            self._adj[u].pop(v, None)
            self._adj[v].pop(u, None)

    def __search_tree(self, begin=None, end=None, inclusive=(True, False)):
        begin, end = self.__validate_interval(begin, end)
        if begin is not None and begin == end and begin in self.tree:
            times = [begin]
        else:
            times = self.tree.irange(begin, end, inclusive=inclusive)
        for t in times:
            for u, v in self.tree[t]:
                yield u, v, t

    def __in_interval(self, t, begin, end, inclusive=(True, False)):
        if begin is not None and begin == end:
            return t == begin
        low, high = inclusive
        after = begin is None or begin < t or (low and t == begin)
        before = end is None or t < end or (high and t == end)
        return after and before

    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
        if end is None:
            inclusive = (inclusive[0], True)
        if node is None:
            degrees = [self.degree(n, begin=begin, end=end, inclusive=inclusive)
                       for n in self.nodes(begin=begin, end=end, inclusive=inclusive)]
            return sum(degrees) / len(degrees)
        edges = self.edges(u=node, begin=begin, end=end, inclusive=inclusive)
        if not delta:
            return len(edges)
        times = {}
        for _, _, t in edges:
            times[t] = times.get(t, 0) + 1
        return list(times.items())

    def to_subgraph(self, begin, end, inclusive=(True, False), multigraph=False, edge_data=False,
                    edge_timestamp_data=False, node_data=False):
        G = MultiGraph() if multigraph else Graph()
        for u, v, t in self.__search_tree(begin, end, inclusive=inclusive):
            data = {}
            if edge_data:
                data.update(self._adj[u][v][(u, v, t)])
            if edge_timestamp_data:
                data['timestamp'] = t
            G.add_edge(u, v, **data)
        if node_data:
            for n in list(G.nodes):
                G.add_node(n, **self._node[n])
        return G

    def to_snapshot_graph(self, multigraph=False, edge_data=False, edge_timestamp_data=False, node_data=False):
        G = dnx.SnapshotGraph()
        for time in self.tree:
            snapshot = self.to_subgraph(time, time, inclusive=(True, True), multigraph=multigraph,
                                        edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                        node_data=node_data)
            G.insert(snapshot, time=time)
        return G

    @classmethod
    def from_networkx_graph(cls, graph, timestamp='timestamp'):
        G = cls()
        for u, v, data in graph.edges(data=True):
            attr = {key: value for key, value in data.items() if key != timestamp}
            G.add_edge(u, v, data[timestamp], **attr)
        return G
