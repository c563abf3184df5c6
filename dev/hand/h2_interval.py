# file: dynetworkx/classes/intervalgraph.py
class IntervalGraph:
    def interval(self):
        tree = self.tree
        return (tree.begin, tree.end)

    def add_node(self, node_for_adding, **attr):
        if node_for_adding in self._node:
            self._node[node_for_adding].update(attr)
        else:
            self._node[node_for_adding] = attr
        if node_for_adding not in self._adj:
            self._adj[node_for_adding] = {}

    def __endpoints(self, begin, end):
        return {n for edge in self.tree[begin:end] for n in edge[:2]}

    def number_of_nodes(self, begin=None, end=None):
        if begin is None and end is None:
            return len(self._node)
        return len(self.__endpoints(begin, end))

    def has_node(self, n, begin=None, end=None):
        if n not in self._node:
            return False
        if begin is None and end is None:
            return True
        if begin is None and end < self.tree.begin:
            return False
        if begin is not None and end is not None and end < begin:
            return False
        return n in self.__endpoints(begin, end)

    def nodes(self, begin=None, end=None, data=False, default=None):
        if begin is None and end is None:
            return NodeDataView(self._node, data=data, default=default)
        node_dict = {}
        for n in self.__endpoints(begin, end):
            node_dict[n] = self._node[n]
        return NodeDataView(node_dict, data=data, default=default)

    def remove_node(self, n, begin=None, end=None):
        if n not in self._node:
            return
        for iedge in [e for e in self.tree[begin:end] if n in (e[0], e[1])]:
            self.__remove_iedge(iedge)
        if not self._adj.get(n):
            self._adj.pop(n, None)
            self._node.pop(n, None)

    def __known(self, u, v, begin, end):
        """the stored edge of that pair and interval, or None"""
        for iedge in ((v, u, begin, end), (u, v, begin, end)):
            if iedge in self._adj.get(u, {}).get(v, {}):
                return iedge
        return None

    def add_edge(self, u, v, begin, end, **attr):
        known = self.__known(u, v, begin, end)
        if known is not None:
            self._adj[u][v][known].update(attr)
            return
        if begin > end:
            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))
        iedge = (u, v, begin, end)
        for a, b in ((u, v), (v, u)):
            self._node.setdefault(a, {})
            self._adj.setdefault(a, {}).setdefault(b, {})[iedge] = attr
        self.tree.add(iedge)

    def has_edge(self, u, v, begin=None, end=None, overlapping=True):
        nbrs = self._adj.get(u)
        if nbrs is None or v not in nbrs:
            return False
        if begin is None and end is None:
            return True
        edges = nbrs[v]
        if not overlapping:
            if begin is None or end is None:
                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
            return any(e in edges for e in ((u, v, begin, end), (v, u, begin, end)))
        self.__check_window(begin, end)
        return any(self.__overlaps_or_contains(iv, begin, end) for iv in edges)

    @staticmethod
    def __check_window(begin, end):
        if begin is not None and end is not None and begin > end:
            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))

    def __edges_node_first(self, u_list, v_list, begin, end):
        iedges = set()
        for u in u_list:
            for v in v_list:
                if u is None and v is None:
                    for nbrs in self._adj.values():
                        for edges in nbrs.values():
                            iedges.update(edges)
                elif u is not None and v is not None:
                    if u in self._adj and v in self._adj[u]:
                        iedges |= set(self._adj[u][v])
                else:
                    for edges in self._adj.get(v if u is None else u, {}).values():
                        iedges.update(edges)
        if begin is None and end is None:
            return iedges
        self.__check_window(begin, end)
        return [iv for iv in iedges if self.__overlaps_or_contains(iv, begin, end)]

    def __edges_interval_first(self, begin, end):
        self.__check_window(begin, end)
        return list(self.tree[begin:end])

    def remove_edge(self, u, v, begin=None, end=None, overlapping=True):
        if u not in self._adj or v not in self._adj[u]:
            return
        edges = self._adj[u][v]
        if not overlapping:
            if begin is None or end is None:
                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
            doomed = [e for e in ((u, v, begin, end), (v, u, begin, end)) if e in edges][:1]
        elif begin is None and end is None:
            doomed = list(edges)
        else:
            self.__check_window(begin, end)
            doomed = [iv for iv in edges if self.__overlaps_or_contains(iv, begin, end)]
        for iv in doomed:
            self.__remove_iedge(iv)

    def __remove_iedge(self, iedge):
        u, v = iedge[:2]
        for a, b in ((u, v), (v, u)):
            if b in self._adj[a]:
                self._adj[a][b].pop(iedge, None)
                if not self._adj[a][b]:
                    del self._adj[a][b]
        self.tree.remove(iedge)

    @staticmethod
    def __overlaps_or_contains(iv, begin, end):
        low, high = iv[2], iv[3]
        if low == begin:
            return True
        if end is not None and not low < end:
            return False
        if begin is not None and not high > begin:
            return False
        return True

    def to_subgraph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
        G = MultiGraph() if multigraph else Graph()
        for iedge in self.tree[begin:end]:
            u, v, low, high = iedge
            data = dict(self._adj[u][v][iedge]) if edge_data else {}
            if edge_interval_data:
                data.update(begin=low, end=high)
            G.add_edge(u, v, **data)
        if node_data:
            for n in G.nodes:
                G.nodes[n].update(self._node[n])
        return G

    def to_snapshot_graph(self, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
        G = dnx.SnapshotGraph()
        options = dict(multigraph=multigraph, edge_data=edge_data, edge_interval_data=edge_interval_data,
                       node_data=node_data)
        times = set()
        for low, high in self.tree.nodes:
            if low == high:
                G.insert(self.to_subgraph(low, low, **options), time=low)
            else:
                times |= {low, high}
        times = sorted(times)
        for i in range(1, len(times)):
            begin, end = times[i - 1], times[i]
            G.insert(self.to_subgraph(begin, end, **options), start=begin, end=end)
        return G

    @classmethod
    def from_networkx_graph(cls, graph, begin='begin', end='end'):
        G = cls()
        for u, v, data in graph.edges(data=True):
            attr = dict(data)
            low, high = attr.pop(begin), attr.pop(end)
            G.add_edge(u, v, low, high, **attr)
        return G

    def degree(self, node=None, begin=None, end=None, delta=False):
        if node is None:
            nodes = self.nodes(begin=begin, end=end)
            return sum(self.degree(n, begin=begin, end=end) for n in nodes) / len(nodes)
        if not delta:
            return len(self.edges(u=node, begin=begin, end=end))
        if begin is None:
            begin = self.tree.begin
        if end is None:
            end = self.tree.end
        current = self.degree(node, begin=begin, end=begin)
        changes = []
        for edge in self.edges(u=node, begin=begin, end=end):
            if edge[2] >= begin:
                changes.append((edge[2], 1))
            if edge[3] < end:
                changes.append((edge[3], -1))
        output = []
        for time, change in sorted(changes):
            if time != begin or change < 0:
                current += change
            output.append((time, current))
        return output
