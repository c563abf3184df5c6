# file: dynetworkx/classes/intervaldigraph.py
class IntervalDiGraph:
    def add_node(self, node_for_adding, **attr):
        if node_for_adding not in self._node:
            self._node[node_for_adding] = {}
        self._node[node_for_adding].update(attr)
        for side in (self._pred, self._succ):
            if node_for_adding not in side:
                side[node_for_adding] = {}

    def remove_node(self, n, begin=None, end=None):
        if n not in self._node:
            return
        doomed = []
        for iedge in self.tree[begin:end]:
            if n in iedge[:2]:
                doomed.append(iedge)
        for iedge in doomed:
            self.__remove_iedge(iedge)
        if self._pred.get(n) or self._succ.get(n):
            return
        for table in (self._pred, self._succ, self._node):
            table.pop(n, None)

    def add_edge(self, u, v, begin, end, **attr):
        iedge = (u, v, begin, end)
        known = self._pred.get(u, {}).get(v, {}).get(iedge)
        if known is not None:
            known.update(attr)
            return
        if begin > end:
            raise NetworkXError("IntervalDiGraph: interval end before begin: {}, {}.".format(begin, end))
        for n in (u, v):
            if n not in self._node:
                self._node[n] = {}
        out = self._pred.setdefault(u, {}).setdefault(v, {})
        into = self._succ.setdefault(v, {}).setdefault(u, {})
        self.tree.add(iedge)
        out[iedge] = attr
        into[iedge] = attr

    @staticmethod
    def __check(begin, end):
        if begin is not None and end is not None and end < begin:
            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))

    def has_edge(self, u, v, begin=None, end=None, overlapping=True):
        between = self._pred.get(u, {}).get(v)
        if between is None:
            return False
        if begin is None and end is None:
            return True
        if overlapping:
            self.__check(begin, end)
            return any(self.__overlaps_or_contains(iv, begin, end) for iv in between)
        if None in (begin, end):
            raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
        return (u, v, begin, end) in between

    def __edges_node_first(self, u_list, v_list, begin, end):
        iedges = set()
        for u in u_list:
            for v in v_list:
                if u is not None:
                    nbrs = self._pred.get(u, {})
                    if v is not None:
                        iedges |= set(nbrs.get(v, {}))
                    else:
                        for w in nbrs:
                            iedges.update(nbrs[w])
                elif v is not None:
                    for es in self._succ.get(v, {}).values():
                        iedges.update(es)
                else:
                    for nbrs in self._pred.values():
                        for es in nbrs.values():
                            iedges.update(es)
        if begin is None and end is None:
            return iedges
        self.__check(begin, end)
        return [iv for iv in iedges if self.__overlaps_or_contains(iv, begin, end)]

    def __edges_interval_first(self, begin, end):
        self.__check(begin, end)
        return list(self.tree[begin:end])

    def edges(self, u=None, v=None, begin=None, end=None, data=False, default=None):
        us = list(u) if isinstance(u, (list, set)) else [u]
        vs = list(v) if isinstance(v, (list, set)) else [v]
        free_u = us == [None]
        free_v = vs == [None]
        if free_u and free_v and not (begin is None and end is None):
            iedges = self.__edges_interval_first(begin, end)
        elif (free_u and free_v) or (begin is None and end is None) or self._model is None \
                or self.tree.number_of_edges == 0:
            iedges = self.__edges_node_first(us, vs, begin, end)
        else:
            chosen = vs if free_u else (us if free_v else set(us).union(vs))
            first, last = self.interval()
            width = ((last if end is None else end) - (first if begin is None else begin)) / ((last - first) or 1)
            times = self._model.predict([(len(chosen) / self.number_of_nodes(), width)])[0]
            if times[0] < times[1]:
                iedges = self.__edges_node_first(us, vs, begin, end)
            else:
                iedges = [e for e in self.__edges_interval_first(begin, end)
                          if (free_u or e[0] in us) and (free_v or e[1] in vs)]
        if data is False:
            return list(iedges)
        if data is True:
            return [(iv, self._pred[iv[0]][iv[1]][iv]) for iv in iedges]
        return [(iv, self._pred[iv[0]][iv[1]][iv].get(data, default)) for iv in iedges]

    def degree(self, node=None, begin=None, end=None, delta=False):
        if node is None:
            members = list(self.nodes(begin=begin, end=end))
            return sum(self.degree(n, begin=begin, end=end) for n in members) / len(members)
        if not delta:
            return len(self.edges(u=node, begin=begin, end=end)) + len(self.edges(v=node, begin=begin, end=end))
        first = self.tree.begin if begin is None else begin
        last = self.tree.end if end is None else end
        current = self.degree(node, begin=first, end=first)
        events = SortedDict()
        for edge in self.edges(u=node, begin=first, end=last) + self.edges(v=node, begin=first, end=last):
            if edge[2] >= first:
                events[(edge[2], 1)] = events.get((edge[2], 1), 0) + 1
            if edge[3] < last:
                events[(edge[3], -1)] = events.get((edge[3], -1), 0) + 1
        output = []
        for (time, step), n in events.items():
            for _ in range(n):
                if time != first or step < 0:
                    current += step
                output.append((time, current))
        return output

    def to_subgraph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
        self.__check(begin, end)
        G = (MultiDiGraph if multigraph else DiGraph)()
        for iedge in self.tree[begin:end]:
            u, v, lo, hi = iedge
            attrs = dict(self._pred[u][v][iedge]) if edge_data else {}
            if edge_interval_data:
                attrs['begin'] = lo
                attrs['end'] = hi
            G.add_edge(u, v, **attrs)
        if node_data:
            for n in G:
                G.nodes[n].update(self._node[n])
        return G
