# file: dynetworkx/classes/impulsedigraph.py
class ImpulseDiGraph:
    def add_node(self, node_for_adding, **attr):
        known = self._node.get(node_for_adding)
        if known is None:
            self._node[node_for_adding] = dict(attr)
        else:
            known.update(attr)
        for index in (self._pred, self._succ):
            index.setdefault(node_for_adding, {})

    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
        if n not in self._node:
            return
        for u, v, t in list(self.__search_tree(begin, end, inclusive)):
            if n in (u, v):
                self.__remove_iedge((u, v, t))
        if self._pred.get(n) or self._succ.get(n):
            return
        for index in (self._pred, self._succ, self._node):
            index.pop(n, None)

    def add_edge(self, u, v, t, **attr):
        try:
            self.tree[t].add((u, v))
        except KeyError:
            self.tree[t] = {(u, v)}
        self._node.setdefault(u, {})
        self._node.setdefault(v, {})
        out = self._pred.setdefault(u, {}).setdefault(v, {})
        back = self._succ.setdefault(v, {}).setdefault(u, {})
        if (u, v, t) in out:
            out[(u, v, t)].update(attr)
        else:
            out[(u, v, t)] = back[(u, v, t)] = attr

    def has_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):
        edges = self._pred.get(u, {}).get(v, None)
        if edges is None:
            return False
        if begin is None and end is None:
            return True
        if None not in (begin, end) and begin > end:
            raise NetworkXError("ImpulseDiGraph: end before begin")
        for edge in edges:
            if self.__in_interval(edge[2], begin, end, inclusive=inclusive):
                break
        else:
            return False
        return True

    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
        iedges = set()
        for u, v in product(u_list, v_list):
            iedges.update(self.__between(u, v))
        if begin is None and end is None:
            return iedges
        if begin is not None and end is not None and begin > end:
            raise NetworkXError("ImpulseDiGraph: end before begin")
        kept = []
        for iv in iedges:
            if self.__in_interval(iv[2], begin, end, inclusive):
                kept.append(iv)
        return kept

    def __between(self, u, v):
        if u is not None and v is not None:
            return list(self._pred.get(u, {}).get(v, {}))
        if u is not None:
            nbrs = self._pred.get(u, {})
        elif v is not None:
            nbrs = self._succ.get(v, {})
        else:
            return [iv for out in self._pred.values() for edges in out.values() for iv in edges]
        return [iv for edges in nbrs.values() for iv in edges]

    def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):
        if u not in self._pred or v not in self._pred[u]:
            return
        whole = begin is None and end is None
        for edge in [e for e in self._pred[u][v] if whole or self.__in_interval(e[2], begin, end, inclusive=inclusive)]:
            self.__remove_iedge(edge)

    def __times(self, edges):
        d = {}
        for edge in edges:
            if edge[2] in d:
                d[edge[2]] += 1
            else:
                d[edge[2]] = 1
        return list(d.items())

    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
        window = dict(begin=begin, end=end, inclusive=inclusive)
        if node is None:
            total = count = 0
            for n in self.nodes(**window):
                count += 1
                total += self.degree(n, **window)
            return total / count
        edges = list(self.edges(u=node, **window)) + list(self.edges(v=node, **window))
        if delta:
            return sorted(self.__times(edges))
        return len(edges)

    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
        if node is None:
            nodes = list(self.nodes(begin=begin, end=end, inclusive=inclusive))
            return sum(self.in_degree(n, begin=begin, end=end, inclusive=inclusive) for n in nodes) / len(nodes)
        edges = self.edges(v=node, begin=begin, end=end, inclusive=inclusive)
        return self.__times(edges) if delta else len(edges)

    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
        if node is None:
            nodes = list(self.nodes(begin=begin, end=end, inclusive=inclusive))
            return sum(self.out_degree(n, begin=begin, end=end, inclusive=inclusive) for n in nodes) / len(nodes)
        edges = self.edges(u=node, begin=begin, end=end, inclusive=inclusive)
        return self.__times(edges) if delta else len(edges)

    def to_subgraph(self, begin, end, inclusive=(True, False), multigraph=False, edge_data=False,
                    edge_timestamp_data=False, node_data=False):
        cls = MultiDiGraph if multigraph else DiGraph
        G = cls()
        rows = []
        for u, v, t in self.__search_tree(begin, end, inclusive=inclusive):
            attr = {}
            if edge_data:
                attr = self._pred[u][v][(u, v, t)].copy()
            if edge_timestamp_data:
                attr['timestamp'] = t
            rows.append((u, v, attr))
        G.add_edges_from(rows)
        if node_data:
            G.add_nodes_from([(n, dict(self._node[n])) for n in G])
        return G

# file: dynetworkx/classes/intervaldigraph.py
class IntervalDiGraph:
    def remove_edge(self, u, v, begin=None, end=None, overlapping=True):
        try:
            edges = self._pred[u][v]
        except KeyError:
            return
        if not overlapping and (begin is None or end is None):
            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
        if overlapping and begin is not None and end is not None and begin > end:
            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))
        def hit(iv):
            if overlapping:
                return IntervalDiGraph.__overlaps_or_contains(iv, begin, end)
            return iv == (u, v, begin, end)
        for iv in list(filter(hit, edges)):
            self.__remove_iedge(iv)

    def __deltas(self, edges, begin, end):
        changes = []
        for _, _, low, high in edges:
            if low >= begin:
                changes.append((low, 1))
            if high < end:
                changes.append((high, -1))
        changes.sort()
        return changes

    def __walk(self, edges, begin, end, current):
        output = []
        for time, step in self.__deltas(edges, begin, end):
            current += step if time != begin or step < 0 else 0
            output.append((time, current))
        return output

    def in_degree(self, node=None, begin=None, end=None, delta=False):
        if node is None:
            nodes = self.nodes(begin=begin, end=end)
            total = 0
            for n in nodes:
                total = total + self.in_degree(n, begin=begin, end=end)
            return total / len(nodes)
        edges = self.edges(v=node, begin=begin, end=end)
        if not delta:
            return len(edges)
        begin = self.tree.begin if begin is None else begin
        end = self.tree.end if end is None else end
        edges = self.edges(v=node, begin=begin, end=end)
        return self.__walk(edges, begin, end, self.in_degree(node, begin=begin, end=begin))

    def out_degree(self, node=None, begin=None, end=None, delta=False):
        if node is None:
            nodes = self.nodes(begin=begin, end=end)
            total = 0
            for n in nodes:
                total = total + self.out_degree(n, begin=begin, end=end)
            return total / len(nodes)
        if not delta:
            return len(self.edges(u=node, begin=begin, end=end))
        begin = self.tree.begin if begin is None else begin
        end = self.tree.end if end is None else end
        edges = self.edges(u=node, begin=begin, end=end)
        return self.__walk(edges, begin, end, self.out_degree(node, begin=begin, end=begin))

    def __remove_iedge(self, iedge):
        u, v, begin, end = iedge
        self.tree.remove(iedge)
        del self._pred[u][v][iedge]
        del self._succ[v][u][iedge]
        if not self._pred[u][v]:
            del self._pred[u][v]
            del self._succ[v][u]

    @staticmethod
    def __overlaps_or_contains(iv, begin, end):
        _, _, low, high = iv
        if begin is None:
            return end is None or low < end
        touches = high > begin and (end is None or low < end)
        return touches or low == begin
