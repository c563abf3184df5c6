# file: dynetworkx/classes/intervaltree.py
class IntervalTree:
    def updateMax(self, node):
        node.max = node.high
        for child in (node.left, node.right):
            if child is not None and child.max > node.max:
                node.max = child.max

    def inOrder(self, root):
        if root is not None:
            for n in self.inOrder(root.left):
                yield n
            yield root
            for n in self.inOrder(root.right):
                yield n

    @staticmethod
    def _before(a, b):
        return (a.low, a.high) < (b.low, b.high)

    def _refresh(self, node):
        node.height = 1 + max(self.getHeight(node.left), self.getHeight(node.right))
        self.updateMax(node)

    def insert(self, root, node):
        if root is None:
            return node
        if self._before(node, root):
            root.left = self.insert(root.left, node)
        else:
            root.right = self.insert(root.right, node)
        return self._rebalance(root)

    def _rebalance(self, root):
        self._refresh(root)
        balance = self.getBalance(root)
        if balance > 1:
            if self.getBalance(root.left) < 0:
                root.left = self.leftRotate(root.left)
            return self.rightRotate(root)
        if balance < -1:
            if self.getBalance(root.right) > 0:
                root.right = self.rightRotate(root.right)
            return self.leftRotate(root)
        return root

    def discard(self, root, node):
        if root is node:
            if not root.left or not root.right:
                return root.left or root.right
            successor = root.right
            while successor.left is not None:
                successor = successor.left
            rest = self.discard(root.right, successor)
            successor.left, successor.right = root.left, rest
            return self._rebalance(successor)
        if self._before(node, root):
            root.left = self.discard(root.left, node)
        else:
            root.right = self.discard(root.right, node)
        return self._rebalance(root)

    def leftRotate(self, x):
        y = x.right
        x.right, y.left = y.left, x
        self._refresh(x)
        self._refresh(y)
        return y

    def rightRotate(self, x):
        y = x.left
        x.left, y.right = y.right, x
        self._refresh(x)
        self._refresh(y)
        return y

    def getHeight(self, node):
        return node.height if node else 0

    def query(self, node, begin, end):
        left, right = node.left, node.right
        if left is not None and left.max >= begin:
            for n in self.query(left, begin, end):
                yield n
        if node.inInterval(begin, end):
            yield node
        if right is not None and right.max >= begin and not node.low > end:
            for n in self.query(right, begin, end):
                yield n

    def add(self, edge):
        start, end = edge[2:4]
        node = self.nodes.get((start, end))
        if node is None:
            node = Node(start, end)
            self.nodes[(start, end)] = node
            self.root = self.insert(self.root, node)
            if start < self.begin:
                self.begin = start
            if end > self.end:
                self.end = end
        node.edges.append(edge)
        self.number_of_edges += 1

    def remove(self, edge):
        start, end = edge[2:4]
        node = self.nodes[(start, end)]
        if edge not in node.edges:
            return
        node.edges.remove(edge)
        self.number_of_edges -= 1
        if not node.edges:
            self.root = self.discard(self.root, self.nodes.pop((start, end)))
        if self.root is None:
            self.begin, self.end = float("inf"), float("-inf")
            return
        if self.begin == start:
            first = self.root
            while first.left is not None:
                first = first.left
            self.begin = first.low
        if self.end == end:
            self.end = self.root.max

    def slice(self, interval_start, interval_end, root=None):
        root = root or self.root
        if root is None:
            return
        low = float("-inf") if interval_start is None else interval_start
        high = float("inf") if interval_end is None else interval_end
        for node in self.query(root, low, high):
            for edge in node.edges:
                yield edge

    def _stamps(self, begin, end, inclusive, values):
        begin = self.begin if begin is None else begin
        end = self.end if end is None else end
        found = set()
        for n in self.inOrder(self.root):
            for t in values(n):
                after = begin <= t if inclusive[0] else begin < t
                before = t <= end if inclusive[1] else t < end
                if after and before:
                    found.add(t)
        return sorted(found)

    def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        return self._stamps(begin, end, inclusive, lambda n: (n.low, n.high))

    def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        return self._stamps(begin, end, inclusive, lambda n: (n.low,))

    def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        return self._stamps(begin, end, inclusive, lambda n: (n.high,))
