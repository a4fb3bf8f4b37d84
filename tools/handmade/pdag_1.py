# target: pybbn/graph/pdag.py
class Pdag:
    def get_parents(self, id):
        parents = []
        for x, out in self.edge_map.items():
            if id in out:
                parents.append(x)
        return parents

    def get_out_nodes(self, id):
        parents = set(self.get_parents(id))
        return [n for n in self.get_neighbors(id) if n not in parents]

    def __shouldadd__(self, edge):
        a, b = edge.i.id, edge.j.id
        if a == b or b in self.edge_map[a] or a in self.edge_map[b]:
            return False
        return not PathDetector(self, b, a).exists()

    def edge_exists(self, id1, id2):
        return id2 in self.edge_map[id1] or id1 in self.edge_map[id2]

    def directed_edge_exists(self, id1, id2):
        forward = id2 in self.edge_map[id1]
        backward = id1 in self.edge_map[id2]
        return forward and not backward


class PathDetector:
    def exists(self):
        return True if self.start == self.stop else self.__find__(self.start)

    def __find__(self, i):
        out_nodes = self.graph.get_out_nodes(i)
        if self.stop in out_nodes:
            return True
        self.seen.add(i)
        return any(n not in self.seen and self.__find__(n) for n in out_nodes)
