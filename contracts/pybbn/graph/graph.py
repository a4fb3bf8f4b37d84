from collections import defaultdict
from copy import deepcopy
from pybbn.graph.edge import EdgeType

class Graph(object):

    def __init__(self):
        self.nodes = dict()
        self.edges = dict()
        self.edge_map = defaultdict(set)
        self.neighbors = defaultdict(set)

    def get_neighbors(self, id):
        return self.neighbors[id]

    def get_node(self, id):
        return self.nodes[id]

    def get_nodes(self):
        return self.nodes.values()

    def get_edges(self):
        return [edge for edge in self.edges.values()]

    def add_node(self, node):
        if node.id not in self.nodes:
            self.nodes[node.id] = node
        return self

    def add_edge(self, edge):
        self.add_node(edge.i)
        self.add_node(edge.j)
        if self.__shouldadd__(edge):
            self.edges[edge.key] = edge
            self.edge_map[edge.i.id].add(edge.j.id)
            if EdgeType.UNDIRECTED == edge.type:
                self.edge_map[edge.j.id].add(edge.i.id)
            self.neighbors[edge.i.id].add(edge.j.id)
            self.neighbors[edge.j.id].add(edge.i.id)
            self.__edge_added__(edge)
        return self

    def __edge_added__(self, edge):
        pass

    def __shouldadd__(self, edge):
        lhs = edge.i
        rhs = edge.j
        if lhs.id == rhs.id:
            return False
        if EdgeType.UNDIRECTED == edge.type:
            if lhs.id not in self.edge_map[rhs.id] or rhs.id not in self.edge_map[lhs.id]:
                return True
        elif rhs.id not in self.edge_map[lhs.id]:
            return True
        return False

    def edge_exists(self, id1, id2):
        if id1 in self.edge_map and id2 in self.edge_map[id1]:
            return True
        if id2 in self.edge_map and id1 in self.edge_map[id2]:
            return True
        return False

    def remove_node(self, id):
        self.nodes.pop(id, None)
        self.edge_map.pop(id, None)
        self.neighbors.pop(id, None)
        for k, v in self.edge_map.items():
            if id in v:
                v.remove(id)
        for k, v in self.neighbors.items():
            if id in v:
                v.remove(id)
        for k in [k for k, e in self.edges.items() if id in (e.i.id, e.j.id)]:
            self.edges.pop(k)

    def __str__(self):
        nodes = str.join('\n', [x.__str__() for x in self.nodes.values()])
        edges = str.join('\n', [x.__str__() for x in self.edges.values()])
        return nodes + '\n' + edges

    def __copy__(self):
        cls = self.__class__
        result = cls.__new__(cls)
        result.__dict__.update(self.__dict__)
        return result

    def __deepcopy__(self, memodict={}):
        cls = self.__class__
        result = cls.__new__(cls)
        memodict[id(self)] = result
        for k, v in self.__dict__.items():
            setattr(result, k, deepcopy(v, memodict))
        return result

class Ug(Graph):

    def __init__(self):
        Graph.__init__(self)
