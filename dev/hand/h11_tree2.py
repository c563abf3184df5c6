# file: dynetworkx/classes/intervaltree.py
class IntervalTree:
    def inOrder(self, root):
        stack = []
        node = root
        while stack or node:
            while node:
                stack.append(node)
                node = node.left
            node = stack.pop()
            yield node
            node = node.right

    def query(self, node, begin, end):
        hits = []
        if node.left and node.left.max >= begin:
            hits.extend(self.query(node.left, begin, end))
        if node.inInterval(begin, end):
            hits.append(node)
        if node.right and node.low <= end and node.right.max >= begin:
            hits.extend(self.query(node.right, begin, end))
        return hits

    def updateMax(self, node):
        best = node.high
        if node.left:
            best = max(best, node.left.max)
        if node.right:
            best = max(best, node.right.max)
        node.max = best

    def updateHeight(self, node):
        left = self.getHeight(node.left)
        right = self.getHeight(node.right)
        node.height = (left if left > right else right) + 1

    def insert(self, root, node):
        if root is None:
            return node
        goes_left = node.low < root.low if node.low != root.low else node.high < root.high
        if goes_left:
            root.left = self.insert(root.left, node)
        else:
            root.right = self.insert(root.right, node)
        self.updateHeight(root)
        balance = self.getBalance(root)
        if -1 <= balance <= 1:
            self.updateMax(root)
            return root
        if balance > 1:
            if root.left.right is node:
                root.left = self.leftRotate(root.left)
            return self.rightRotate(root)
        if root.right.left is node:
            root.right = self.rightRotate(root.right)
        return self.leftRotate(root)

    def leftRotate(self, x):
        y = x.right
        x.right = y.left
        y.left = x
        for n in (x, y):
            self.updateHeight(n)
            self.updateMax(n)
        return y

    def rightRotate(self, x):
        y = x.left
        x.left = y.right
        y.right = x
        self.updateHeight(x)
        self.updateMax(x)
        self.updateHeight(y)
        self.updateMax(y)
        return y

    def leftmost(self, node):
        while node.left is not None:
            node = node.left
        return node

    def add(self, edge):
        low, high = edge[2], edge[3]
        key = low, high
        self.number_of_edges += 1
        if key not in self.nodes:
            self.nodes[key] = Node(low, high)
            self.root = self.insert(self.root, self.nodes[key])
            self.begin = min(self.begin, low)
            self.end = max(self.end, high)
        self.nodes[key].edges.append(edge)

    def remove(self, edge):
        key = (edge[2], edge[3])
        node = self.nodes[key]
        if edge in node.edges:
            node.edges.remove(edge)
            self.number_of_edges -= 1
            if not node.edges:
                del self.nodes[key]
                self.root = self.discard(self.root, node)
            if not self.root:
                self.begin = float("inf")
                self.end = float("-inf")
            else:
                if edge[2] == self.begin:
                    self.begin = self.leftmost(self.root).low
                if edge[3] == self.end:
                    self.end = self.root.max

    def slice(self, interval_start, interval_end, root=None):
        start = interval_start if interval_start is not None else float("-inf")
        stop = interval_end if interval_end is not None else float("inf")
        top = root if root else self.root
        if top:
            for node in self.query(top, start, stop):
                yield from node.edges

    def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        begins = self.unique_begin_timestamps(begin, end, inclusive)
        ends = self.unique_end_timestamps(begin, end, inclusive)
        return sorted(set(begins) | set(ends))

    def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
        low = self.begin if begin is None else begin
        high = self.end if end is None else end
        found = {n.low for n in self.inOrder(self.root) if low <= n.low <= high}
        if not inclusive[0]:
            found.discard(low)
        if not inclusive[1]:
            found.discard(high)
        return sorted(found)
