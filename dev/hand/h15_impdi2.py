# file: dynetworkx/classes/impulsedigraph.py
from collections import Counter, defaultdict
from itertools import chain

class ImpulseDiGraph:
    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
        if n not in self._node:
            return
        doomed = [e for e in self.__search_tree(begin, end, inclusive) if n == e[0] or n == e[1]]
        for e in doomed:
            self.__remove_iedge(e)
        isolated = not (self._pred.get(n) or self._succ.get(n))
        if isolated:
            for store in (self._node, self._succ, self._pred):
                if n in store:
                    del store[n]

    def add_edge(self, u, v, t, **attr):
        edge = (u, v, t)
        if t not in self.tree:
            self.tree[t] = set()
        self.tree[t].add(edge[:2])
        for n in edge[:2]:
            self._node.setdefault(n, {})
        forward = self._pred.setdefault(u, {}).setdefault(v, {})
        backward = self._succ.setdefault(v, {}).setdefault(u, {})
        stored = forward.setdefault(edge, attr)
        stored.update(attr)
        backward.setdefault(edge, stored)

    def add_edges_from(self, ebunch_to_add, **attr):
        for e in ebunch_to_add:
            if len(e) != 3:
                raise NetworkXError("Edge tuple {0} must be a 3-tuple.".format(e))
            u, v, t = e
            self.add_edge(u, v, t, **attr)

    def has_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):
        if u not in self._pred or v not in self._pred[u]:
            return False
        if begin is None and end is None:
            return True
        self.__validate_interval(begin, end)
        return any(self.__in_interval(t, begin, end, inclusive=inclusive) for _, _, t in self._pred[u][v])

    def __pairs(self, u_list, v_list):
        for u in u_list:
            for v in v_list:
                yield u, v

    def __stored(self, u, v):
        if u is None and v is None:
            for out in self._pred.values():
                for edges in out.values():
                    yield from edges
        elif v is None:
            for edges in self._pred.get(u, {}).values():
                yield from edges
        elif u is None:
            for edges in self._succ.get(v, {}).values():
                yield from edges
        elif u in self._pred and v in self._pred[u]:
            yield from self._pred[u][v]

    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
        iedges = set(chain.from_iterable(self.__stored(u, v) for u, v in self.__pairs(u_list, v_list)))
        if begin is None and end is None:
            return iedges
        self.__validate_interval(begin, end)
        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive)]

    def __edges_interval_first(self, begin, end, inclusive):
        self.__validate_interval(begin, end)
        return [e for e in self.__search_tree(begin, end, inclusive)]

    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
        us = u if isinstance(u, (list, set)) else [u]
        vs = v if isinstance(v, (list, set)) else [v]
        any_u, any_v = us == [None], vs == [None]
        unbounded = begin is None and end is None

        if any_u and any_v and not unbounded:
            found = self.__edges_interval_first(begin, end, inclusive)
        elif unbounded or self._model is None or not len(self.tree):
            found = self.__edges_node_first(us, vs, begin, end, inclusive)
        else:
            if any_u:
                nodes = vs
            elif any_v:
                nodes = us
            else:
                nodes = set(us) | set(vs)
            low, high = self.interval()
            first = low if begin is None else begin
            last = high if end is None else end
            features = (len(nodes) / self.number_of_nodes(), (last - first) / ((high - low) or 1))
            node_time, interval_time = self._model.predict([features])[0]
            if node_time < interval_time:
                found = self.__edges_node_first(us, vs, begin, end, inclusive)
            else:
                found = []
                for e in self.__edges_interval_first(begin, end, inclusive):
                    if not any_u and e[0] not in us:
                        continue
                    if not any_v and e[1] not in vs:
                        continue
                    found.append(e)

        if data is False:
            return list(found)
        out = []
        for iv in found:
            attrs = self._pred[iv[0]][iv[1]][iv]
            out.append((iv, attrs if data is True else attrs.get(data, default)))
        return out

    def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):
        try:
            edges = list(self._pred[u][v])
        except KeyError:
            return
        if not (begin is None and end is None):
            edges = [e for e in edges if self.__in_interval(e[2], begin, end, inclusive=inclusive)]
        for edge in edges:
            self.__remove_iedge(edge)

    def __mean(self, degree, begin, end, inclusive):
        values = [degree(n, begin=begin, end=end, inclusive=inclusive)
                  for n in self.nodes(begin=begin, end=end, inclusive=inclusive)]
        return sum(values) / len(values)

    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
        if node is None:
            return self.__mean(self.degree, begin, end, inclusive)
        out = self.edges(u=node, begin=begin, end=end, inclusive=inclusive)
        into = self.edges(v=node, begin=begin, end=end, inclusive=inclusive)
        if not delta:
            return len(out) + len(into)
        return sorted(Counter(e[2] for e in chain(out, into)).items())

    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
        if node is None:
            return self.__mean(self.in_degree, begin, end, inclusive)
        edges = self.edges(v=node, begin=begin, end=end, inclusive=inclusive)
        if delta is False:
            return len(edges)
        counts = defaultdict(int)
        for edge in edges:
            counts[edge[2]] += 1
        return [(t, counts[t]) for t in counts]

    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
        if node is None:
            return self.__mean(self.out_degree, begin, end, inclusive)
        edges = self.edges(u=node, begin=begin, end=end, inclusive=inclusive)
        if delta is False:
            return len(edges)
        changes = {}
        for edge in edges:
            changes[edge[2]] = changes.get(edge[2], 0) + 1
        return list(changes.items())

    def to_subgraph(self, begin, end, inclusive=(True, False), multigraph=False, edge_data=False,
                    edge_timestamp_data=False, node_data=False):
        G = MultiDiGraph() if multigraph else DiGraph()
        for iedge in self.__search_tree(begin, end, inclusive=inclusive):
            u, v, t = iedge
            attrs = {}
            if edge_data:
                attrs.update(self._pred[u][v][iedge])
            if edge_timestamp_data:
                attrs['timestamp'] = t
            G.add_edge(u, v, **attrs)
        if node_data:
            for n in list(G.nodes):
                G.add_node(n, **self._node[n])
        return G

    def __remove_iedge(self, iedge):
        u, v, t = iedge
        at = self.tree[t]
        at.remove((u, v))
        if not at:
            del self.tree[t]
        for index, a, b in ((self._pred, u, v), (self._succ, v, u)):
            index[a][b].pop(iedge, None)
            if not index[a][b]:
                del index[a][b]

    def __search_tree(self, begin=None, end=None, inclusive=(True, True)):
        self.__validate_interval(begin, end)
        if begin is not None and begin == end and begin in self.tree:
            times = [begin]
        else:
            times = self.tree.irange(begin, end, inclusive=inclusive)
        for t in times:
            for u, v in self.tree[t]:
                yield u, v, t

    def __in_interval(self, t, begin, end, inclusive=(True, True)):
        if begin is not None and begin == end:
            return t == begin
        if begin is not None and (t < begin or (t == begin and not inclusive[0])):
            return False
        if end is not None and (t > end or (t == end and not inclusive[1])):
            return False
        return True
