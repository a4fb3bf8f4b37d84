from pybbn.graph.graph import Graph

class Pdag(Graph):

    def __init__(self):
        Graph.__init__(self)

    def get_parents(self, id):
        return [x for x in self.edge_map if id in self.edge_map[x]]

    def get_out_nodes(self, id):
        parents = self.get_parents(id)
        neighbors = self.get_neighbors(id)
        out_nodes = [neighbor_id for neighbor_id in neighbors if neighbor_id not in parents]
        return out_nodes

    def __shouldadd__(self, edge):
        parent = edge.i
        child = edge.j
        if parent.id == child.id:
            return False
        if child.id not in self.edge_map[parent.id] and parent.id not in self.edge_map[child.id]:
            if not PathDetector(self, child.id, parent.id).exists():
                return True
        return False

    def edge_exists(self, id1, id2):
        if id2 in self.edge_map[id1] or id1 in self.edge_map[id2]:
            return True
        return False

    def directed_edge_exists(self, id1, id2):
        if id2 in self.edge_map[id1] and id1 not in self.edge_map[id2]:
            return True
        return False

class PathDetector(object):

    def __init__(self, graph, start, stop):
        self.graph = graph
        self.start = start
        self.stop = stop
        self.seen = set()

    def exists(self):
        if self.start == self.stop:
            return True
        else:
            return self.__find__(self.start)

    def __find__(self, i):
        out_nodes = self.graph.get_out_nodes(i)
        if self.stop in out_nodes:
            return True
        self.seen.add(i)
        for out_node in out_nodes:
            if out_node not in self.seen and self.__find__(out_node):
                return True
        return False
