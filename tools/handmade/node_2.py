# target: pybbn/graph/node.py
class Clique(Node):
    def __init__(self, nodes):
        self.nodes = nodes
        self.marked = False
        self.node_ids = {n.id for n in nodes}
        Node.__init__(self, self._sid(nodes))

    @staticmethod
    def _sid(nodes):
        return "-".join(map(str, sorted(n.id for n in nodes)))

    def intersects(self, that):
        lhs = [x.id for x in self.nodes]
        rhs = [x.id for x in that.nodes]
        rhs_ids = set(rhs)
        intersection = [x for x in lhs if x in rhs_ids]
        is_intersection = len(intersection) > 0
        if is_intersection:
            lhs, rhs, intersection = sorted(lhs), sorted(rhs), sorted(intersection)
        return is_intersection, lhs, rhs, intersection

    def get_weight(self):
        return reduce(operator.mul, (n.get_weight() for n in self.nodes))

    def contains(self, id):
        for node in self.nodes:
            if node.id == id:
                return True
        return False

    def is_superset(self, that):
        return that.get_node_ids().issubset(self.get_node_ids())


class SepSet(Clique):
    def __init__(self, left, right, lhs=None, rhs=None, intersection=None):
        missing = lhs is None or rhs is None or intersection is None
        if missing:
            _, lhs, rhs, intersection = left.intersects(right)
        parts = []
        for arr in (lhs, intersection, rhs):
            parts.extend(str(x) for x in arr)
        Node.__init__(self, "-".join(parts))
        self.marked = False
        self.left = left
        self.right = right
        self.nodes = list(filter(lambda n: n.id in intersection, left.nodes))
        self.is_empty_intersection = not intersection

    def get_cost(self):
        left_weight = self.left.get_weight()
        right_weight = self.right.get_weight()
        return left_weight + right_weight

    @property
    def cost(self):
        return self.left.get_weight() + self.right.get_weight()

    @property
    def mass(self):
        return len(self.nodes)
