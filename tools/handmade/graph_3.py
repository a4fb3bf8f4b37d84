# target: pybbn/graph/graph.py
class Graph:
    def remove_node(self, id):
        self.nodes.pop(id, None)
        self.edge_map.pop(id, None)
        self.neighbors.pop(id, None)
        for adjacent in itertools.chain(self.edge_map.values(), self.neighbors.values()):
            if id in adjacent:
                adjacent.remove(id)
        self.edges = {key: edge for key, edge in self.edges.items() if id not in (edge.i.id, edge.j.id)}

    def edge_exists(self, id1, id2):
        forward = id1 in self.edge_map and id2 in self.edge_map[id1]
        if forward:
            return True
        backward = id2 in self.edge_map and id1 in self.edge_map[id2]
        return backward

    def __shouldadd__(self, edge):
        lhs = edge.i
        rhs = edge.j
        if lhs.id == rhs.id:
            return False
        missing = rhs.id not in self.edge_map[lhs.id]
        if EdgeType.UNDIRECTED == edge.type:
            missing = missing or lhs.id not in self.edge_map[rhs.id]
        return missing

    def __str__(self):
        lines = [x.__str__() for x in self.nodes.values()]
        text = "\n".join(lines)
        text += "\n"
        text += "\n".join(map(str, self.edges.values()))
        return text
