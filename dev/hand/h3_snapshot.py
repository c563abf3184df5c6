# file: dynetworkx/classes/snapshotgraph.py
class SnapshotGraph:
    def insert(self, graph, start=None, end=None, time=None):
        if time is not None:
            if start is not None or end is not None:
                raise ValueError('Time and (start or end) cannot both be specified.')
            start = end = time
        if start is None or end is None:
            raise ValueError('Either time or both start and end must be specified.')
        if end < start:
            raise ValueError('Start of the interval must be lower or equal to end')
        self.snapshots[(start, end)] = graph

    def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None):
        if graph is None:
            graph = Graph()
            graph.add_edges_from(ebunch)
        self.insert(graph, start=start, end=end, time=time)

    def __select(self, sbunch, start, end):
        if sbunch is not None and (start is not None or end is not None):
            raise ValueError('Either sbunch or (start and end) can be specified.')
        return list(self._get(sbunch=sbunch, start=start, end=end))

    def subgraph(self, nbunch, sbunch=None, start=None, end=None):
        subgraph = type(self)()
        subgraph.graph = self.graph
        if sbunch is not None and (start is not None or end is not None):
            raise ValueError('Either sbunch or (start and end) can be specified.')
        for (low, high), snapshot in self._get(sbunch=sbunch, start=start, end=end, include_interval=True):
            subgraph.insert(snapshot.subgraph(nbunch), low, high)
        return subgraph

    def degree(self, sbunch=None, nbunch=None, start=None, end=None, weight=None):
        degrees = []
        for graph in self.__select(sbunch, start, end):
            degrees.append(graph.degree(graph if nbunch is None else nbunch, weight=weight))
        return degrees

    def number_of_nodes(self, sbunch=None, start=None, end=None):
        return [graph.number_of_nodes() for graph in self.__select(sbunch, start, end)]

    def order(self, sbunch=None, start=None, end=None):
        return [g.order() for g in self.__select(sbunch, start, end)]

    def has_node(self, n, sbunch=None, start=None, end=None):
        return [graph.has_node(n) for graph in self.__select(sbunch, start, end)]

    def is_multigraph(self, sbunch=None, start=None, end=None):
        return [graph.is_multigraph() for graph in self.__select(sbunch, start, end)]

    def is_directed(self, sbunch=None, start=None, end=None):
        return [graph.is_directed() for graph in self.__select(sbunch, start, end)]

    def to_directed(self, sbunch=None, start=None, end=None):
        return [graph.to_directed() for graph in self.__select(sbunch, start, end)]

    def to_undirected(self, sbunch=None, start=None, end=None):
        return [graph.to_undirected() for graph in self.__select(sbunch, start, end)]

    def size(self, sbunch=None, start=None, end=None, weight=None):
        return [graph.size(weight=weight) for graph in self.__select(sbunch, start, end)]

    def _get(self, sbunch=None, start=None, end=None, include_interval=False, split_overlaps=False):
        if sbunch is not None:
            if start is not None or end is not None:
                raise ValueError('Either sbunch or (start and end) can be specified.')
            for index in sbunch:
                key, graph = self.snapshots.peekitem(index)
                yield (key, graph) if include_interval else graph
            return
        if split_overlaps:
            self.__split(start)
            self.__split(end)
        for key, graph in list(self.snapshots.items()):
            low, high = key
            starts = start is None or low >= start or high > start
            ends = end is None or low < end
            if starts and ends:
                if include_interval:
                    yield key, graph
                else:
                    yield graph

    def __split(self, time):
        if time is None:
            return
        for low, high in list(self.snapshots):
            if low < time < high:
                graph = self.snapshots.pop((low, high))
                self.snapshots[(low, time)] = graph
                self.snapshots[(time, high)] = copy.deepcopy(graph)

    def get(self, sbunch=None, start=None, end=None):
        return list(self._get(sbunch, start, end))

    def add_nodes_from(self, nbunch, sbunch=None, start=None, end=None, **attrs):
        for graph in self.__targets(sbunch, start, end):
            graph.add_nodes_from(nbunch, **attrs)

    def add_edges_from(self, ebunch, sbunch=None, start=None, end=None, **attrs):
        for graph in self.__targets(sbunch, start, end):
            graph.add_edges_from(ebunch, **attrs)

    def __targets(self, sbunch, start, end):
        if sbunch is not None and (start is not None or end is not None):
            raise ValueError('Either sbunch or (start and end) can be specified.')
        if sbunch is not None:
            return self._get(sbunch=sbunch)
        return self._get(start=start, end=end, split_overlaps=True)

    def compute_network_statistic(self, nx_statistic_function, sbunch=None, start=None, end=None, **kwargs):
        return [nx_statistic_function(graph, **kwargs) for graph in self.__select(sbunch, start, end)]
