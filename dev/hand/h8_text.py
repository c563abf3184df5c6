# file: dynetworkx/classes/impulsegraph.py
class ImpulseGraph:
    @staticmethod
    def _parse_attrs(fields):
        data = {}
        for field in fields:
            key, value = field.split('=')
            try:
                data[key] = float(value)
            except ValueError:
                data[key] = value
        return data

    @classmethod
    def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
        if delimiter == '=':
            raise ValueError("Delimiter cannot be =.")
        if len(order) != 3 or not all(k in order for k in ('u', 'v', 't')):
            raise ValueError("Order must be a 3-tuple containing strings 'u', 'v', and 't'.")
        G = cls()
        iu, iv, it = order.index('u'), order.index('v'), order.index('t')
        with open(path) as file:
            for line in file:
                line = line.split(comments, 1)[0]
                if line.strip() == '':
                    continue
                fields = line.rstrip().split(delimiter)
                u, v = fields[iu], fields[iv]
                attrs = cls._parse_attrs(fields[3:])
                try:
                    u, v = nodetype(u), nodetype(v)
                except Exception:
                    if nodetype is not int:
                        raise TypeError("Failed to convert node to {0}".format(nodetype))
                    try:
                        u = int(fields[iu])
                    except ValueError:
                        pass
                try:
                    when = timestamptype(fields[it])
                except Exception:
                    raise TypeError("Failed to convert interval time to {}".format(timestamptype))
                G.add_edge(u, v, when, **attrs)
        if predict is True:
            G.generate_predictive_model()
        return G

# file: dynetworkx/classes/intervalgraph.py
class IntervalGraph:
    @staticmethod
    def _strip_comment(line, comments):
        pos = line.find(comments)
        return line if pos < 0 else line[:pos]

    def save_to_txt(self, path, delimiter=" "):
        if len(self) == 0:
            raise ValueError("Given graph is empty.")
        if delimiter == '=':
            raise ValueError("Delimiter cannot be =.")
        lines = []
        for iedge, attr in self.edges(data=True):
            parts = [str(x) for x in iedge] + [str(k) + '=' + str(attr[k]) for k in attr]
            lines.append(delimiter.join(parts) + '\n')
        with open(path, 'w') as file:
            file.writelines(lines)

    @classmethod
    def from_snapshot_graph(cls, snapshot_graph, begin=0, period=1):
        G = cls()
        runs = {}
        for snapshot in snapshot_graph.get():
            for u, v, attr in snapshot.edges(data=True):
                pair = (u, v)
                if not snapshot.is_directed() and (v, u) in runs:
                    pair = (v, u)
                ends = runs.setdefault(pair, {})
                finish = begin + period
                if begin in ends:
                    ends[finish] = ends.pop(begin)
                elif finish not in ends:
                    ends[finish] = (begin, attr)
            begin += period
        for (u, v), ends in runs.items():
            for finish, (start, attr) in ends.items():
                G.add_edge(u, v, start, finish, **attr)
        return G

    def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        tree = self.tree
        return tree.unique_begin_timestamps(begin, end, inclusive)

# file: dynetworkx/classes/snapshotgraph.py
class SnapshotGraph:
    def save_to_txt(self, path, delimiter=";", start='start', end='end'):
        if not len(self):
            raise ValueError("Given graph is empty.")
        if delimiter in (' ', '\n'):
            raise ValueError("Delimiter cannot be " + delimiter + ".")
        with open(path, 'w') as file:
            for (first, last), graph in self._get(include_interval=True):
                rows = np.asarray(adjacency_matrix(graph).todense(), dtype=str)
                text = delimiter.join(' '.join(row) for row in rows)
                file.write('{} {}={} {}={}\n'.format(text, start, first, end, last))

    @staticmethod
    def load_from_txt(path, delimiter=";", comments="#", start='start', end='end'):
        if delimiter == ' ' or delimiter == '\n':
            raise ValueError("Delimiter cannot be " + delimiter + ".")
        sg = SnapshotGraph()
        with open(path, 'r') as file:
            for raw in file:
                cut = raw.find(comments)
                line = raw[:cut] if cut >= 0 else raw
                if not line.strip():
                    continue
                cut = min(line.find(start), line.find(end))
                first = last = None
                for item in line[cut:].split():
                    key, value = item.split('=')
                    try:
                        number = float(value)
                    except ValueError:
                        raise ValueError('Value of "{}" must be float.'.format(key))
                    if key == start:
                        first = number
                    else:
                        last = number
                if first is None or last is None:
                    raise ValueError('A snapshot does not include its interval')
                matrix = [[float(x) for x in row.split()] for row in line[:cut].strip().split(delimiter)]
                sg.insert(from_numpy_array(np.array(matrix)), start=first, end=last)
        return sg
