# target: pybbn/graph/graph.py
class Graph:
    def get_edges(self):
        return list(self.edges.values())

    def add_node(self, node):
        self.nodes.setdefault(node.id, node)
        return self

    def add_edge(self, edge):
        for node in (edge.i, edge.j):
            self.add_node(node)
        if self.__shouldadd__(edge):
            i, j = edge.i.id, edge.j.id
            self.edges[edge.key] = edge
            self.edge_map[i].add(j)
            self.neighbors[i].add(j)
            self.neighbors[j].add(i)
            if edge.type == EdgeType.UNDIRECTED:
                self.edge_map[j].add(i)
            self.__edge_added__(edge)
        return self

    def __shouldadd__(self, edge):
        lhs, rhs = edge.i, edge.j
        if lhs.id == rhs.id:
            return False
        known = rhs.id in self.edge_map[lhs.id]
        if edge.type != EdgeType.UNDIRECTED:
            return not known
        if not known:
            return True
        return lhs.id not in self.edge_map[rhs.id]

    def edge_exists(self, id1, id2):
        def has(a, b):
            return a in self.edge_map and b in self.edge_map[a]

        return has(id1, id2) or has(id2, id1)

    def remove_node(self, id):
        self.__drop_edges(id)
        if id in self.nodes:
            del self.nodes[id]
        self.edge_map.pop(id, None)
        self.neighbors.pop(id, None)
        for targets in self.edge_map.values():
            if id in targets:
                targets.remove(id)
        for targets in self.neighbors.values():
            if id in targets:
                targets.remove(id)

    def __drop_edges(self, id):
        for key, edge in list(self.edges.items()):
            if id == edge.i.id or id == edge.j.id:
                self.edges.pop(key)

    def __str__(self):
        parts = []
        for group in (self.nodes, self.edges):
            parts.append("\n".join([str(item) for item in group.values()]))
        return "\n".join(parts)
