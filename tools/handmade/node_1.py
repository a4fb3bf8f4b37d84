# target: pybbn/graph/node.py
class Node(object):
    def __copy__(self):
        result = self.__class__.__new__(self.__class__)
        for k, v in self.__dict__.items():
            result.__dict__[k] = v
        return result

    def __deepcopy__(self, memodict={}):
        result = self.__class__.__new__(self.__class__)
        memodict[id(self)] = result
        for name in self.__dict__:
            setattr(result, name, deepcopy(self.__dict__[name], memodict))
        return result

    def __str__(self):
        return str(self.id)


class BbnNode(Node):
    def __init__(self, variable, probs):
        super().__init__(variable.id)
        self.variable = variable
        self.probs = probs
        self.weight = len(variable.values)
        self.potential = None

    def to_dict(self):
        return {"probs": list(self.probs), "variable": self.variable.to_dict()}

    def __str__(self):
        values = ",".join(self.variable.values)
        return f"{self.id}|{self.variable.name}|{values}"


class Clique(Node):
    def __init__(self, nodes):
        node_ids = sorted(node.id for node in nodes)
        Node.__init__(self, "-".join(str(i) for i in node_ids))
        self.nodes = nodes
        self.node_ids = set(node_ids)
        self.marked = False

    def intersects(self, that):
        lhs = [n.id for n in self.nodes]
        rhs = [n.id for n in that.nodes]
        shared = [i for i in lhs if i in rhs]
        if not shared:
            return False, lhs, rhs, shared
        return True, sorted(lhs), sorted(rhs), sorted(shared)

    def get_sid(self):
        names = [n.variable.name for n in self.nodes]
        names.sort()
        return "-".join(names)

    def is_superset(self, that):
        return self.get_node_ids() >= that.get_node_ids()

    def get_weight(self):
        weight = 1
        for node in self.nodes:
            weight *= node.get_weight()
        return weight

    def contains(self, id):
        return any(n.id == id for n in self.nodes)

    def get_sep_set(self, that):
        _, mine, theirs, shared = self.intersects(that)
        return SepSet(self, that, mine, theirs, shared)

    def __str__(self):
        names = ",".join(sorted(n.variable.name for n in self.nodes))
        return f"({names})"


class SepSet(Clique):
    @staticmethod
    def _make_sid(lhs, intersection, rhs):
        return "-".join(str(i) for i in lhs + intersection + rhs)

    def __init__(self, left, right, lhs=None, rhs=None, intersection=None):
        if None in (lhs, rhs, intersection):
            _, lhs, rhs, intersection = left.intersects(right)
        Node.__init__(self, self._make_sid(lhs, intersection, rhs))
        self.left = left
        self.right = right
        self.marked = False
        self.nodes = [n for n in left.nodes if n.id in intersection]
        self.is_empty_intersection = len(intersection) == 0

    def __str__(self):
        names = ",".join(n.variable.name for n in self.nodes)
        return f"|{self.left} -- {names} -- {self.right}|"
