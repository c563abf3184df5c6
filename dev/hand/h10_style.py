# file: dynetworkx/classes/impulsegraph.py
import operator
from collections import defaultdict
from functools import partial

_COMPARE = {True: operator.le, False: operator.lt}

def _after(begin, t, closed):
    return begin is None or _COMPARE[bool(closed)](begin, t)

def _before(end, t, closed):
    return end is None or _COMPARE[bool(closed)](t, end)

def _outside(begin, end):
    """whether the window is reversed"""
    if begin is None:
        return False
    if end is None:
        return False
    return begin > end

class ImpulseGraph:
    def __len__(self):
        n = 0
        for _ in self._node:
            n += 1
        return n

    def __contains__(self, n):
        try:
            hash(n)
        except TypeError:
            return False
        return n in self._node

    def __in_interval(self, t, begin, end, inclusive=(True, False)):
        if begin is not None and begin == end:
            return t == begin
        return _after(begin, t, inclusive[0]) and _before(end, t, inclusive[1])

    def __validate_interval(self, begin=None, end=None):
        if _outside(begin, end):
            raise NetworkXError(f"ImpulseGraph: interval end must be bigger than or equal to begin: begin: {begin}, end: {end}.")
        return (begin, end)

    def interval(self):
        if not self.tree:
            return (float("inf"), float("-inf"))
        times = list(self.tree)
        return (times[0], times[-1])

    def has_node(self, n, begin=None, end=None, inclusive=(True, False)):
        if n not in self._node:
            return False
        if begin is None and end is None:
            return True
        if end is None:
            inclusive = (inclusive[0], True)
        endpoints = ((e[0], e[1]) for e in self.__search_tree(begin, end, inclusive))
        return any(n in pair for pair in endpoints)

    def number_of_nodes(self, begin=None, end=None, inclusive=(True, False)):
        if begin is end is None:
            return len(self._node)
        if end is None:
            inclusive = (inclusive[0], True)
        touched = set()
        for edge in self.__search_tree(begin, end, inclusive):
            for n in edge[:2]:
                if n not in touched:
                    touched.add(n)
        return len(touched)

    def add_edge(self, u, v, t, **attr):
        key = (u, v, t)
        mirrored = (v, u, t)
        for edge in (mirrored, key):
            if u in self._adj and v in self._adj[u] and edge in self._adj[u][v]:
                self._adj[u][v][edge].update(attr)
                return
        for n in {u, v}:
            self._node.setdefault(n, {})
        for a, b in ((u, v), (v, u)):
            neighbours = self._adj.setdefault(a, {})
            neighbours.setdefault(b, {})[key] = attr
        if t not in self.tree:
            self.tree[t] = []
        self.tree[t].append((u, v))

    def add_edges_from(self, ebunch_to_add, **attr):
        for e in ebunch_to_add:
            if len(e) == 3:
                u, v, t = e
                self.add_edge(u, v, t, **attr)
            else:
                raise NetworkXError("Edge tuple {0} must be a 3-tuple.".format(e))

    def remove_edge(self, u, v, begin=None, end=None, inclusive=(True, False)):
        stored = self._adj.get(u, {}).get(v, {})
        if begin is None and end is None:
            victims = list(stored)
        else:
            wanted = partial(self.__in_interval, begin=begin, end=end, inclusive=inclusive)
            victims = [e for e in stored if wanted(e[2])]
        while victims:
            self.__remove_iedge(victims.pop())

    def __remove_iedge(self, iedge):
        u, v, t = iedge
        bucket = self.tree[t]
        bucket.remove((u, v))
        if not bucket:
            self.tree.pop(t)
        for a, b in ((u, v), (v, u)):
            between = self._adj[a].get(b)
            if between is None:
                continue
            between.pop(iedge, None)
            if not between:
                del self._adj[a][b]

    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
        if end is None:
            inclusive = (inclusive[0], True)
        if node is None:
            degrees = [self.degree(n, begin=begin, end=end, inclusive=inclusive)
                       for n in self.nodes(begin=begin, end=end, inclusive=inclusive)]
            return sum(degrees) / len(degrees)
        found = self.edges(u=node, begin=begin, end=end, inclusive=inclusive)
        if not delta:
            return len(found)
        per_time = defaultdict(int)
        for _, _, t in found:
            per_time[t] += 1
        return [(t, n) for t, n in per_time.items()]

    def to_subgraph(self, begin, end, inclusive=(True, False), multigraph=False, edge_data=False,
                    edge_timestamp_data=False, node_data=False):
        G = MultiGraph() if multigraph else Graph()

        def described(iedge):
            u, v, t = iedge
            attr = {}
            if edge_data:
                attr.update(self._adj[u][v][iedge])
            if edge_timestamp_data:
                attr['timestamp'] = t
            return u, v, attr

        G.add_edges_from(map(described, self.__search_tree(begin, end, inclusive=inclusive)))
        if node_data:
            for n in list(G.nodes):
                G.add_node(n, **self._node[n])
        return G

    @classmethod
    def from_networkx_graph(cls, graph, timestamp='timestamp'):
        G = cls()
        for u, v, data in graph.edges(data=True):
            rest = dict(data)
            t = rest.pop(timestamp)
            G.add_edge(u, v, t, **rest)
        return G

# file: dynetworkx/classes/intervalgraph.py
class IntervalGraph:
    def __edges_node_first(self, u_list, v_list, begin, end):
        def matching(u, v):
            if u is None and v is None:
                for nbrs in self._adj.values():
                    for ivs in nbrs.values():
                        yield from ivs
            elif u is None or v is None:
                for ivs in self._adj.get(v if u is None else u, {}).values():
                    yield from ivs
            else:
                yield from self._adj.get(u, {}).get(v, {})

        iedges = set()
        for u, v in product(u_list, v_list):
            for iv in matching(u, v):
                iedges.add(iv)
        if begin is None and end is None:
            return iedges
        if begin is not None and end is not None and begin > end:
            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                "begin: {}, end: {}.".format(begin, end))
        kept = []
        for iv in iedges:
            if not IntervalGraph.__overlaps_or_contains(iv, begin, end):
                continue
            kept.append(iv)
        return kept

    @staticmethod
    def __overlaps_or_contains(iv, begin, end):
        low, high = iv[2:]
        starts_in_time = end is None or low < end
        lasts = begin is None or high > begin
        return (starts_in_time and lasts) or (begin is not None and low == begin)

    def to_snapshots(self, number_of_snapshots=False, length_of_snapshots=False, multigraph=False, edge_data=False,
                     edge_interval_data=False, node_data=False, return_length=False):
        if type(number_of_snapshots) is bool and type(length_of_snapshots) is bool:
            raise NetworkXError("IntervalGraph: either number of snapshots or length of snapshots must be given.")
        if not (type(number_of_snapshots) is bool or type(length_of_snapshots) is bool):
            raise NetworkXError("IntervalGraph: not both.")
        begin, end = self.interval()
        span = end - begin
        if type(length_of_snapshots) in (int, float):
            if not length_of_snapshots > 0:
                raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0.")
            whole, rest = divmod(span, length_of_snapshots)
            number_of_snapshots = int(whole) + (1 if rest else 0)
        if number_of_snapshots < 2 or type(number_of_snapshots) is not int:
            raise NetworkXError("IntervalGraph: number of snapshots must be an integer and 2 or bigger.")
        length = span / number_of_snapshots if length_of_snapshots is False else length_of_snapshots
        snapshots = []
        for i in range(number_of_snapshots):
            first = begin + length * i
            last = begin + length * (i + 1)
            if i + 1 == number_of_snapshots:
                last += 1
            snapshots.append(self.to_subgraph(first, last, multigraph=multigraph, edge_data=edge_data,
                                              edge_interval_data=edge_interval_data, node_data=node_data))
        if not return_length:
            return snapshots
        return snapshots, length

    def edges(self, u=None, v=None, begin=None, end=None, data=False, default=None):
        if not isinstance(u, (list, set)):
            u = [u]
        if not isinstance(v, (list, set)):
            v = [v]
        no_nodes = u == [None] and v == [None]
        no_time = begin is None and end is None
        by_node = True
        if no_nodes:
            by_node = no_time
        elif not no_time and self._model is not None and self.tree.number_of_edges > 0:
            by_node = self.__node_route_is_faster(u, v, begin, end)
        if by_node:
            iedges = self.__edges_node_first(u, v, begin, end)
        else:
            iedges = self.__edges_interval_first(begin, end)
            if not no_nodes:
                iedges = [e for e in iedges if self.__joins(e[0], e[1], u, v) or self.__joins(e[1], e[0], u, v)]
        return self.__with_data(iedges, data, default)

    @staticmethod
    def __joins(a, b, u, v):
        return (u == [None] or a in u) and (v == [None] or b in v)

    def __node_route_is_faster(self, u, v, begin, end):
        if u == [None]:
            nodes = v
        elif v == [None]:
            nodes = u
        else:
            nodes = set(u) | set(v)
        graph_begin, graph_end = self.interval()
        begin = graph_begin if begin is None else begin
        end = graph_end if end is None else end
        length = graph_end - graph_begin
        if not length:
            length = 1
        features = (len(nodes) / self.number_of_nodes(), (end - begin) / length)
        node_time, interval_time = self._model.predict([features])[0]
        return node_time < interval_time

    def __with_data(self, iedges, data, default):
        if data is False:
            return list(iedges)
        result = []
        for iv in iedges:
            attr = self._adj[iv[0]][iv[1]][iv]
            if data is True:
                result.append((iv, attr))
            elif data in attr:
                result.append((iv, attr[data]))
            else:
                result.append((iv, default))
        return result
