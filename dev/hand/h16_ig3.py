# file: dynetworkx/classes/intervalgraph.py
import itertools
from collections import defaultdict

def _reversed_window(begin, end):
    return None not in (begin, end) and begin > end

class IntervalGraph:
    def add_nodes_from(self, nodes_for_adding, **attr):
        for entry in nodes_for_adding:
            name, extra = entry, {}
            if isinstance(entry, tuple) and len(entry) == 2 and isinstance(entry[1], dict):
                name, extra = entry
            self.add_node(name, **{**attr, **extra})

    def _ends(self, begin, end):
        found = set()
        for edge in self.tree[begin:end]:
            found |= {edge[0], edge[1]}
        return found

    def number_of_nodes(self, begin=None, end=None):
        return len(self._node) if begin is None and end is None else len(self._ends(begin, end))

    def nodes(self, begin=None, end=None, data=False, default=None):
        if begin is None and end is None:
            selected = self._node
        else:
            selected = dict((n, self._node[n]) for n in self._ends(begin, end))
        return NodeDataView(selected, data=data, default=default)

    def remove_node(self, n, begin=None, end=None):
        if n in self._node:
            touching = [e for e in self.tree[begin:end] if n in e[:2]]
            for iedge in touching:
                self.__remove_iedge(iedge)
            if not self._adj.get(n):
                del self._node[n]
                if n in self._adj:
                    del self._adj[n]

    def add_edge(self, u, v, begin, end, **attr):
        forward, backward = (u, v, begin, end), (v, u, begin, end)
        known = self._adj.get(u, {}).get(v, {})
        for iedge in (backward, forward):
            if iedge in known:
                known[iedge].update(attr)
                return
        if begin > end:
            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))
        for a, b in ((u, v), (v, u)):
            self._adj.setdefault(a, {}).setdefault(b, {})
            self._node.setdefault(a, {})
        try:
            self.tree.add(forward)
        except ValueError:
            raise NetworkXError("IntervalGraph: edge duration must be strictly bigger than zero {0}.".format(forward))
        for a, b in ((u, v), (v, u)):
            self._adj[a][b][forward] = attr

    def has_edge(self, u, v, begin=None, end=None, overlapping=True):
        neighbours = self._adj.get(u)
        if neighbours is None or v not in neighbours:
            return False
        stored = neighbours[v]
        if begin is None and end is None:
            return True
        if overlapping:
            if _reversed_window(begin, end):
                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                    "begin: {}, end: {}.".format(begin, end))
            hits = [iv for iv in stored if self.__overlaps_or_contains(iv, begin, end)]
            return bool(hits)
        if begin is None or end is None:
            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
        return any(candidate in stored for candidate in [(u, v, begin, end), (v, u, begin, end)])

    def __edges_node_first(self, u_list, v_list, begin, end):
        iedges = set()
        for u, v in itertools.product(u_list, v_list):
            if u is None and v is None:
                for nbrs in self._adj.values():
                    for edges in nbrs.values():
                        iedges.update(edges)
                continue
            one, other = (u, v) if u is not None else (v, None)
            nbrs = self._adj.get(one)
            if nbrs is None:
                continue
            if other is None:
                iedges.update(itertools.chain(*nbrs.values()))
            elif other in nbrs:
                iedges |= set(nbrs[other])
        if begin is None and end is None:
            return iedges
        if _reversed_window(begin, end):
            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))
        return list(filter(lambda iv: IntervalGraph.__overlaps_or_contains(iv, begin, end), iedges))

    def __attributes(self, iv):
        u, v = iv[:2]
        return self._adj[u][v][iv]

    def __wants(self, iv, u, v):
        direct = (u == [None] or iv[0] in u) and (v == [None] or iv[1] in v)
        return direct or (u == [None] or iv[1] in u) and (v == [None] or iv[0] in v)

    def edges(self, u=None, v=None, begin=None, end=None, data=False, default=None):
        if not isinstance(u, (list, set)):
            u = [u]
        if not isinstance(v, (list, set)):
            v = [v]
        free = u == [None] and v == [None]
        windowed = begin is not None or end is not None
        by_nodes = not (free and windowed)
        if not free and windowed and self._model is not None and self.tree.number_of_edges > 0:
            nodes = v if u == [None] else u if v == [None] else set(u) | set(v)
            graph_begin, graph_end = self.interval()
            width = (graph_end if end is None else end) - (graph_begin if begin is None else begin)
            features = (len(nodes) / self.number_of_nodes(), width / ((graph_end - graph_begin) or 1))
            node_time, interval_time = self._model.predict([features])[0]
            by_nodes = node_time < interval_time
        if by_nodes:
            iedges = list(self.__edges_node_first(u, v, begin, end))
        else:
            iedges = [e for e in self.__edges_interval_first(begin, end) if free or self.__wants(e, u, v)]
        if data is False:
            return iedges
        if data is True:
            return [(iv, self.__attributes(iv)) for iv in iedges]
        return [(iv, self.__attributes(iv).get(data, default)) for iv in iedges]

    def remove_edge(self, u, v, begin=None, end=None, overlapping=True):
        if u not in self._adj or v not in self._adj[u]:
            return
        stored = self._adj[u][v]
        if not overlapping:
            if begin is None or end is None:
                raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
            iedge = (u, v, begin, end)
            if iedge not in stored:
                iedge = (v, u, begin, end)
            if iedge in stored:
                self.__remove_iedge(iedge)
            return
        if _reversed_window(begin, end):
            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))
        for iv in list(stored):
            if IntervalGraph.__overlaps_or_contains(iv, begin, end):
                self.__remove_iedge(iv)

    def degree(self, node=None, begin=None, end=None, delta=False):
        if node is None:
            degrees = [self.degree(n, begin=begin, end=end) for n in self.nodes(begin=begin, end=end)]
            return sum(degrees) / len(degrees)
        if not delta:
            return len(self.edges(u=node, begin=begin, end=end))
        low, high = self.interval()
        begin = low if begin is None else begin
        end = high if end is None else end
        current = self.degree(node, begin=begin, end=begin)
        changes = defaultdict(int)
        for _, _, b, e in self.edges(u=node, begin=begin, end=end):
            if b >= begin:
                changes[(b, 1)] += 1
            if e < end:
                changes[(e, -1)] += 1
        output = []
        for time, step in sorted(changes):
            for _ in range(changes[(time, step)]):
                if time != begin or step < 0:
                    current += step
                output.append((time, current))
        return output

    def __remove_iedge(self, iedge):
        u, v = iedge[:2]
        self.tree.remove(iedge)
        for a, b in ((u, v), (v, u)):
            if a in self._adj and b in self._adj[a]:
                self._adj[a][b].pop(iedge, None)
                if not self._adj[a][b]:
                    del self._adj[a][b]

    @staticmethod
    def __overlaps_or_contains(iv, begin, end):
        if begin is not None and iv[2] == begin:
            return True
        return (begin is None or iv[3] > begin) and (end is None or iv[2] < end)

    def to_subgraph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
        def attributes(iedge):
            d = dict(self._adj[iedge[0]][iedge[1]][iedge]) if edge_data else {}
            if edge_interval_data:
                d.update(begin=iedge[2], end=iedge[3])
            return d
        G = (MultiGraph if multigraph else Graph)()
        for iedge in self.tree[begin:end]:
            G.add_edge(*iedge[:2], **attributes(iedge))
        if node_data:
            for n in list(G):
                G.add_nodes_from([(n, self._node[n].copy())])
        return G

    def to_snapshot_graph(self, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
        G = dnx.SnapshotGraph()
        options = dict(multigraph=multigraph, edge_data=edge_data, edge_interval_data=edge_interval_data, node_data=node_data)
        times = set()
        for node in self.tree.inOrder(self.tree.root):
            if node.low != node.high:
                times |= {node.low, node.high}
                continue
            G.insert(graph=self.to_subgraph(node.low, node.low, **options), time=node.low)
        times = sorted(times)
        for i in range(len(times) - 1):
            low, high = times[i], times[i + 1]
            G.insert(self.to_subgraph(low, high, **options), start=low, end=high)
        return G

    @classmethod
    def from_networkx_graph(cls, graph, begin='begin', end='end'):
        G = cls()
        for u, v, data in graph.edges(data=True):
            attr = dict(data)
            low, high = attr.pop(begin), attr.pop(end)
            G.add_edge(u, v, low, high, **attr)
        return G

    def save_to_txt(self, path, delimiter=" "):
        if not self._node:
            raise ValueError("Given graph is empty.")
        if delimiter == '=':
            raise ValueError("Delimiter cannot be =.")
        with open(path, 'w') as file:
            for iedge, attr in self.edges(data=True):
                fields = [str(x) for x in iedge]
                fields.extend('{}={}'.format(k, w) for k, w in attr.items())
                file.write(delimiter.join(fields) + '\n')
