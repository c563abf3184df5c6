# file: dynetworkx/classes/intervaltree.py
class IntervalTree:
    def query(self, node, begin, end):
        stack = []
        while stack or node is not None:
            if node is not None:
                if node.max >= begin:
                    stack.append(node)
                    node = node.left
                else:
                    node = None
            else:
                node = stack.pop()
                if node.inInterval(begin, end):
                    yield node
                node = node.right if node.low <= end else None

    def slice(self, interval_start, interval_end, root=None):
        root = root or self.root
        if not root:
            return
        low = float("-inf") if interval_start is None else interval_start
        high = float("inf") if interval_end is None else interval_end
        for node in self.query(root, low, high):
            for edge in node.edges:
                yield edge

    def add(self, edge):
        start, end = edge[2], edge[3]
        key = (start, end)
        node = self.nodes.get(key)
        if node is None:
            node = Node(start, end)
            self.nodes[key] = node
            self.root = self.insert(self.root, node)
            if start < self.begin:
                self.begin = start
            if end > self.end:
                self.end = end
        node.edges.append(edge)
        self.number_of_edges += 1

    def inOrder(self, root):
        stack, order = [], []
        while root or stack:
            while root:
                stack.append(root)
                root = root.left
            root = stack.pop()
            order.append(root)
            root = root.right
        return order

    def remove(self, edge):
        key = edge[2:4]
        node = self.nodes[key]
        try:
            node.edges.remove(edge)
        except ValueError:
            return
        self.number_of_edges -= 1
        if not node.edges:
            self.nodes.pop(key)
            self.root = self.discard(self.root, node)
        self.__refresh(*key)

    def __refresh(self, start, end):
        if self.root is None:
            self.begin, self.end = float("inf"), float("-inf")
            return
        if start == self.begin:
            leftmost = self.root
            while leftmost.left:
                leftmost = leftmost.left
            self.begin = leftmost.low
        if end == self.end:
            self.end = self.root.max

    def __stamps(self, times, begin, end, inclusive):
        begin = self.begin if begin is None else begin
        end = self.end if end is None else end
        after = operator.le if inclusive[0] else operator.lt
        before = operator.le if inclusive[1] else operator.lt
        return sorted({t for t in times if after(begin, t) and before(t, end)})

    def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        times = []
        for n in self.inOrder(self.root):
            times += [n.low, n.high]
        return self.__stamps(times, begin, end, inclusive)

    def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        return self.__stamps((n.low for n in self.inOrder(self.root)), begin, end, inclusive)

    def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        return self.__stamps([n.high for n in self.inOrder(self.root)], begin, end, inclusive)
