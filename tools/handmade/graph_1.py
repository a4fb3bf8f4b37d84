# target: pybbn/graph/graph.py
class Graph:
    def get_edges(self):
        edges = []
        for key in self.edges:
            edges.append(self.edges[key])
        return edges

    def add_node(self, node):
        if node.id in self.nodes:
            return self
        self.nodes[node.id] = node
        return self

    def add_edge(self, edge):
        left, right = edge.i, edge.j
        self.add_node(left)
        self.add_node(right)
        if not self.__shouldadd__(edge):
            return self
        self.edges[edge.key] = edge
        self._link(left, right, edge.type == EdgeType.UNDIRECTED)
        self.__edge_added__(edge)
        return self

    def _link(self, left, right, both):
        self.edge_map[left.id].add(right.id)
        if both:
            self.edge_map[right.id].add(left.id)
        for a, b in ((left, right), (right, left)):
            self.neighbors[a.id].add(b.id)

    def __shouldadd__(self, edge):
        a, b = edge.i.id, edge.j.id
        if a == b:
            return False
        forward = b in self.edge_map[a]
        if edge.type == EdgeType.UNDIRECTED:
            backward = a in self.edge_map[b]
            return not (forward and backward)
        return not forward

    def edge_exists(self, id1, id2):
        return any(dst in self.edge_map.get(src, ()) for src, dst in ((id1, id2), (id2, id1)))

    def remove_node(self, id):
        for m in (self.nodes, self.edge_map, self.neighbors):
            m.pop(id, None)
        for adjacency in (self.edge_map, self.neighbors):
            for ids in adjacency.values():
                ids.discard(id)
        stale = [key for key, edge in self.edges.items() if edge.i.id == id or edge.j.id == id]
        for key in stale:
            del self.edges[key]

    def __str__(self):
        return "\n".join(str(x) for x in self.nodes.values()) + "\n" + "\n".join(str(x) for x in self.edges.values())

    def __copy__(self):
        result = self.__class__.__new__(self.__class__)
        for key, value in self.__dict__.items():
            result.__dict__[key] = value
        return result

    def __deepcopy__(self, memodict={}):
        result = type(self).__new__(type(self))
        memodict[id(self)] = result
        for name in self.__dict__:
            setattr(result, name, deepcopy(self.__dict__[name], memodict))
        return result
