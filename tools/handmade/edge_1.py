# target: pybbn/graph/edge.py
class Edge(object):
    @property
    def key(self):
        if self.type == EdgeType.DIRECTED:
            return "{}->{}".format(self.i.id, self.j.id)
        lo, hi = sorted((self.i.id, self.j.id))
        return f"{lo}--{hi}"

    def __copy__(self):
        cls = type(self)
        result = cls.__new__(cls)
        result.__dict__.update(self.__dict__)
        return result


class SepSetEdge(Edge):
    def __init__(self, i, j):
        super(SepSetEdge, self).__init__(i, j, EdgeType.UNDIRECTED)

    def __str__(self):
        smaller = min(self.i.id, self.j.id)
        larger = max(self.i.id, self.j.id)
        first = self.i if smaller == self.i.id else self.j
        second = self.j if larger == self.j.id else self.i
        return f"{first}--{second}"


class JtEdge(Edge):
    def __init__(self, sep_set):
        self.sep_set = sep_set
        super().__init__(sep_set.left, sep_set.right, EdgeType.UNDIRECTED)

    def get_lhs_edge(self):
        sep_set = self.sep_set
        return SepSetEdge(sep_set.left, sep_set)

    def __str__(self):
        s = self.sep_set
        return "--".join([str(s.left), str(s), str(s.right)])
