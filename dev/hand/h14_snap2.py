# file: dynetworkx/classes/snapshotgraph.py
from operator import methodcaller

class SnapshotGraph:
    def __len__(self):
        return sum(1 for _ in self.snapshots)

    def __contains__(self, graph):
        try:
            for g in self.snapshots.values():
                if g is graph or g == graph:
                    return True
        except TypeError:
            pass
        return False

    def __iter__(self):
        for graph in self.snapshots.values():
            yield graph

    @staticmethod
    def _check_selection(sbunch, start, end):
        if sbunch is None:
            return
        if start is None and end is None:
            return
        raise ValueError('Either sbunch or (start and end) can be specified.')

    def insert(self, graph, start=None, end=None, time=None):
        has_start, has_end = start is not None, end is not None
        if time is not None:
            if has_start or has_end:
                raise ValueError('Time and (start or end) cannot both be specified.')
            key = (time, time)
        else:
            if not (has_start and has_end):
                raise ValueError('Either time or both start and end must be specified.')
            if start > end:
                raise ValueError('Start of the interval must be lower or equal to end')
            key = (start, end)
        self.snapshots[key] = graph

    def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None):
        if graph is not None:
            snapshot = graph
        else:
            snapshot = Graph()
            for edge in ebunch:
                snapshot.add_edge(edge[0], edge[1], **(edge[2] if len(edge) > 2 else {}))
        if time is None:
            if start is None and end is None:
                raise ValueError('Either time or both start and end must be specified.')
            return self.insert(snapshot, start=start, end=end)
        if start is not None or end is not None:
            raise ValueError('Time and (start or end) cannot both be specified.')
        return self.insert(snapshot, time=time)

    def subgraph(self, nbunch, sbunch=None, start=None, end=None):
        self._check_selection(sbunch, start, end)
        subgraph = self.__class__()
        subgraph.graph = self.graph
        options = {'sbunch': sbunch} if sbunch is not None else {'start': start, 'end': end}
        pairs = self._get(include_interval=True, **options)
        for interval, snapshot in pairs:
            subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=interval[0], end=interval[1])
        return subgraph

    def _map(self, function, sbunch, start, end):
        self._check_selection(sbunch, start, end)
        if sbunch is not None:
            graphs = self._get(sbunch=sbunch)
        else:
            graphs = self._get(start=start, end=end)
        return [function(graph) for graph in graphs]

    def degree(self, sbunch=None, nbunch=None, start=None, end=None, weight=None):
        def of(graph):
            return graph.degree(nbunch if nbunch is not None else graph, weight=weight)
        return self._map(of, sbunch, start, end)

    def number_of_nodes(self, sbunch=None, start=None, end=None):
        return self._map(lambda graph: graph.number_of_nodes(), sbunch, start, end)

    def order(self, sbunch=None, start=None, end=None):
        return self._map(methodcaller('order'), sbunch, start, end)

    def has_node(self, n, sbunch=None, start=None, end=None):
        return self._map(lambda graph: graph.has_node(n), sbunch, start, end)

    def is_multigraph(self, sbunch=None, start=None, end=None):
        return self._map(lambda graph: graph.is_multigraph(), sbunch, start, end)

    def is_directed(self, sbunch=None, start=None, end=None):
        return self._map(lambda graph: graph.is_directed(), sbunch, start, end)

    def to_directed(self, sbunch=None, start=None, end=None):
        return self._map(lambda graph: graph.to_directed(), sbunch, start, end)

    def to_undirected(self, sbunch=None, start=None, end=None):
        return self._map(lambda graph: graph.to_undirected(), sbunch, start, end)

    def size(self, sbunch=None, start=None, end=None, weight=None):
        return self._map(lambda graph: graph.size(weight=weight), sbunch, start, end)

    def _overlaps(self, key, start, end):
        low, high = key
        if start is not None and not (low >= start or high > start):
            return False
        return end is None or low < end

    def _split_at(self, time):
        if time is None:
            return
        crossing = [key for key in self.snapshots.keys() if key[0] < time and time < key[1]]
        for low, high in crossing:
            g = self.snapshots.pop((low, high))
            second = copy.deepcopy(g)
            self.insert(g, low, time)
            self.insert(second, time, high)

    def _get(self, sbunch=None, start=None, end=None, include_interval=False, split_overlaps=False):
        self._check_selection(sbunch, start, end)
        if sbunch is not None:
            items = self.snapshots.items()
            selected = (items[index] for index in sbunch)
        else:
            if split_overlaps:
                self._split_at(start)
                self._split_at(end)
            selected = [(key, graph) for key, graph in self.snapshots.items() if self._overlaps(key, start, end)]
        for key, graph in selected:
            yield (key, graph) if include_interval else graph

    def get(self, sbunch=None, start=None, end=None):
        self._check_selection(sbunch, start, end)
        graphs = []
        for graph in self._get(sbunch=sbunch, start=start, end=end):
            graphs.append(graph)
        return graphs

    def add_nodes_from(self, nbunch, sbunch=None, start=None, end=None, **attrs):
        self._check_selection(sbunch, start, end)
        if sbunch is None:
            targets = self._get(start=start, end=end, split_overlaps=True)
        else:
            targets = self._get(sbunch=sbunch)
        for graph in targets:
            graph.add_nodes_from(nbunch, **attrs)

    def add_edges_from(self, ebunch, sbunch=None, start=None, end=None, **attrs):
        self._check_selection(sbunch, start, end)
        if sbunch is None:
            targets = self._get(start=start, end=end, split_overlaps=True)
        else:
            targets = self._get(sbunch=sbunch)
        for graph in targets:
            graph.add_edges_from(ebunch, **attrs)

    def save_to_txt(self, path, delimiter=";", start='start', end='end'):
        if not len(self):
            raise ValueError("Given graph is empty.")
        if delimiter in (' ', '\n'):
            raise ValueError("Delimiter cannot be " + delimiter + ".")
        with open(path, 'w') as file:
            for (low, high), graph in self._get(include_interval=True):
                m = adjacency_matrix(graph).todense()
                rows = [' '.join(row) for row in np.asarray(m, dtype=str)]
                file.write('{} {}={} {}={}\n'.format(delimiter.join(rows), start, low, end, high))

    def compute_network_statistic(self, nx_statistic_function, sbunch=None, start=None, end=None, **kwargs):
        return self._map(lambda graph: nx_statistic_function(graph, **kwargs), sbunch, start, end)
