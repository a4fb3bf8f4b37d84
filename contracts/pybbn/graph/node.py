from copy import deepcopy
from functools import reduce

class Node(object):

    def __init__(self, id):
        self.id = id
        self.metadata = dict()

    def add_metadata(self, k, v):
        self.metadata[k] = v

    def __copy__(self):
        cls = self.__class__
        result = cls.__new__(cls)
        result.__dict__.update(self.__dict__)
        return result

    def __deepcopy__(self, memodict={}):
        cls = self.__class__
        result = cls.__new__(cls)
        memodict[id(self)] = result
        for k, v in self.__dict__.items():
            setattr(result, k, deepcopy(v, memodict))
        return result

    def __str__(self):
        return '{}'.format(self.id)

class BbnNode(Node):

    def __init__(self, variable, probs):
        Node.__init__(self, variable.id)
        self.variable = variable
        self.probs = probs
        self.potential = None
        self.weight = len(self.variable.values)

    def get_weight(self):
        return self.weight

    def to_dict(self):
        return {'probs': [p for p in self.probs], 'variable': self.variable.to_dict()}

    def __str__(self):
        return '{}|{}|{}'.format(self.id, self.variable.name, str.join(',', self.variable.values))

    def __repr__(self):
        return self.variable.name

class Clique(Node):

    def __init__(self, nodes):
        nids = [n.id for n in nodes]
        nids.sort()
        sid = str.join('-', [str(x) for x in nids])
        Node.__init__(self, sid)
        self.nodes = nodes
        self.marked = False
        self.node_ids = set([node.id for node in self.nodes])

    def intersects(self, that):
        lhs = [x.id for x in self.nodes]
        rhs = [x.id for x in that.nodes]
        intersection = [x for x in lhs if x in rhs]
        is_intersection = True if len(intersection) > 0 else False
        if is_intersection:
            lhs = sorted(lhs)
            rhs = sorted(rhs)
            intersection = sorted(intersection)
        return (is_intersection, lhs, rhs, intersection)

    def get_sid(self):
        sids = '-'.join(sorted([n.variable.name for n in self.nodes]))
        return sids

    def is_marked(self):
        return self.marked

    def mark(self):
        self.marked = True

    def unmark(self):
        self.marked = False

    def get_node_ids(self):
        return self.node_ids

    def is_superset(self, that):
        s1 = self.get_node_ids()
        s2 = that.get_node_ids()
        return s1.issuperset(s2)

    def get_weight(self):
        return reduce(lambda x, y: x * y, [node.get_weight() for node in self.nodes])

    def contains(self, id):
        result = len([n for n in self.nodes if n.id == id])
        if result > 0:
            return True
        else:
            return False

    def get_sep_set(self, that):
        _, lhs, rhs, intersection = self.intersects(that)
        return SepSet(self, that, lhs, rhs, intersection)

    def __str__(self):
        names = sorted([node.variable.name for node in self.nodes])
        return '({})'.format(str.join(',', names))

class SepSet(Clique):

    def __init__(self, left, right, lhs=None, rhs=None, intersection=None):
        if lhs is None or rhs is None or intersection is None:
            _, lhs, rhs, intersection = left.intersects(right)
        sid = '-'.join((str(x) for arr in [lhs, intersection, rhs] for x in arr))
        Node.__init__(self, sid)
        self.nodes = [x for x in left.nodes if x.id in intersection]
        self.marked = False
        self.left = left
        self.right = right
        self.is_empty_intersection = False if len(intersection) > 0 else True

    @property
    def is_empty(self):
        return self.is_empty_intersection

    @property
    def cost(self):
        return self.get_cost()

    @property
    def mass(self):
        return self.get_mass()

    def get_cost(self):
        return self.left.get_weight() + self.right.get_weight()

    def get_mass(self):
        return len(self.nodes)

    def __str__(self):
        s = '{}'.format(str.join(',', [node.variable.name for node in self.nodes]))
        s = '|{} -- {} -- {}|'.format(self.left, s, self.right)
        return s
