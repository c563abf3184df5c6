# file: dynetworkx/classes/impulsegraph.py
import itertools
class ImpulseGraph:
    def __between(self, u, v):
        """the stored edges of one pair of endpoint filters"""
        if u is None:
            u, v = v, u
        if u is None:
            return itertools.chain.from_iterable(es for nb in self._adj.values() for es in nb.values())
        nbrs = self._adj.get(u)
        if nbrs is None:
            return ()
        if v is None:
            return itertools.chain.from_iterable(nbrs.values())
        return nbrs.get(v, ())

    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
        found = {e for u, v in product(u_list, v_list) for e in self.__between(u, v)}
        if begin is None and end is None:
            return found
        if not (begin is None or end is None) and end < begin:
            raise NetworkXError("ImpulseGraph: interval end before begin: {}, {}.".format(begin, end))
        return list(filter(lambda e: self.__in_interval(e[2], begin, end, inclusive), found))

    def __edges_interval_first(self, begin, end, inclusive):
        if not (begin is None or end is None) and end < begin:
            raise NetworkXError("ImpulseGraph: interval end before begin: {}, {}.".format(begin, end))
        return [e for e in self.__search_tree(begin, end, inclusive)]

    def __prefer_nodes(self, nodes, begin, end):
        graph_begin, graph_end = self.interval()
        lo = begin if begin is not None else graph_begin
        hi = end if end is not None else graph_end
        span = (hi - lo) / ((graph_end - graph_begin) or 1)
        node_time, interval_time = self._model.predict([(len(nodes) / self.number_of_nodes(), span)])[0]
        return node_time < interval_time

    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
        us = u if isinstance(u, (list, set)) else [u]
        vs = v if isinstance(v, (list, set)) else [v]
        any_u, any_v = us == [None], vs == [None]
        whole = begin is None and end is None

        if any_u and any_v:
            found = self.__edges_node_first(us, vs, None, None, inclusive) if whole else \
                self.__edges_interval_first(begin, end, inclusive)
        elif whole or self._model is None or not self.tree:
            found = self.__edges_node_first(us, vs, begin, end, inclusive)
        else:
            nodes = vs if any_u else us if any_v else set(us) | set(vs)
            if self.__prefer_nodes(nodes, begin, end):
                found = self.__edges_node_first(us, vs, begin, end, inclusive)
            else:
                found = []
                for e in self.__edges_interval_first(begin, end, inclusive):
                    a, b, _ = e
                    if (any_u or a in us) and (any_v or b in vs) or (any_u or b in us) and (any_v or a in vs):
                        found.append(e)

        if data is False:
            return list(found)
        out = []
        for e in found:
            attrs = self._adj[e[0]][e[1]][e]
            out.append((e, attrs if data is True else attrs.get(data, default)))
        return out

    def save_to_txt(self, path, delimiter=" "):
        if not len(self):
            raise ValueError("Given graph is empty.")
        if delimiter == '=':
            raise ValueError("Delimiter cannot be =.")
        with open(path, 'w') as out:
            for (u, v, t), attrs in self.edges(data=True):
                fields = [str(u), str(v), str(t)]
                fields.extend('{}={}'.format(k, x) for k, x in attrs.items())
                out.write(delimiter.join(fields) + '\n')

    def to_snapshots(self, number_of_snapshots=False, length_of_snapshots=False, multigraph=False, edge_data=False,
                     edge_timestamp_data=False, node_data=False, return_length=False):
        count_given = not isinstance(number_of_snapshots, bool)
        length_given = not isinstance(length_of_snapshots, bool)
        if count_given == length_given:
            raise NetworkXError("ImpulseGraph: give number or length of snapshots (one of them).")
        begin, end = self.interval()
        if length_given:
            if length_of_snapshots <= 0:
                raise NetworkXError("ImpulseGraph: length of snapshots must be positive: {}".format(length_of_snapshots))
            number_of_snapshots = int((end - begin) // length_of_snapshots)
            if (end - begin) % length_of_snapshots:
                number_of_snapshots += 1
        if type(number_of_snapshots) is not int or number_of_snapshots < 2:
            raise NetworkXError("ImpulseGraph: number of snapshots must be an int of 2 or more.")
        if not length_given:
            length_of_snapshots = (end - begin) / number_of_snapshots
        options = dict(multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                       node_data=node_data)
        last = number_of_snapshots - 1
        snapshots = [self.to_subgraph(begin + length_of_snapshots * i, begin + length_of_snapshots * (i + 1),
                                      inclusive=(True, False), **options) for i in range(last)]
        snapshots.append(self.to_subgraph(begin + length_of_snapshots * last,
                                          max(begin + length_of_snapshots * number_of_snapshots, end),
                                          inclusive=(True, True), **options))
        return (snapshots, length_of_snapshots) if return_length else snapshots

    def to_networkx_graph(self, begin=None, end=None, inclusive=(True, False), multigraph=False, edge_data=False,
                          edge_timestamp_data=False, node_data=False):
        return self.to_subgraph(begin, end, inclusive, multigraph, edge_data, edge_timestamp_data, node_data)
