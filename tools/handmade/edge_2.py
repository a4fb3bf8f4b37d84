# target: pybbn/graph/edge.py
class Edge(object):
    @staticmethod
    def _format(a, sep, b):
        return "{}{}{}".format(a, sep, b)

    @property
    def key(self):
        if EdgeType.DIRECTED == self.type:
            return Edge._format(self.i.id, "->", self.j.id)
        a = min(self.i.id, self.j.id)
        b = max(self.i.id, self.j.id)
        return Edge._format(a, "--", b)

    def __deepcopy__(self, memodict={}):
        result = type(self).__new__(type(self))
        memodict[id(self)] = result
        for k, v in vars(self).items():
            setattr(result, k, deepcopy(v, memodict))
        return result
