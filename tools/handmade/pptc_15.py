# target: pybbn/pptc/triangulator.py
class Triangulator(object):
    @staticmethod
    def triangulate(m):
        cliques = []
        mm = Triangulator.duplicate(m)
        while True:
            if len(mm.get_nodes()) == 0:
                break
            node_clique = Triangulator.select_node(mm)
            clique = Clique(node_clique.get_bbn_nodes())
            if not Triangulator.is_subset(cliques, clique):
                cliques.append(clique)
            mm.remove_node(node_clique.node.id)
            for edge in node_clique.edges:
                mm.add_edge(edge)
                m.add_edge(edge)
        return cliques

    @staticmethod
    def generate_cliques(m):
        result = []
        for node in m.get_nodes():
            result.append(
                NodeClique(
                    node,
                    [m.get_node(neighbor_id) for neighbor_id in m.get_neighbors(node.id)],
                    Triangulator.get_weight(node, m),
                    Triangulator.get_edges_to_add(node, m),
                )
            )
        return result

    @staticmethod
    def select_node(m):
        candidates = list(Triangulator.generate_cliques(m))
        candidates.sort(key=lambda c: (len(c.edges), c.weight, c.node.id))
        return candidates[0]

    @staticmethod
    def get_weight(n, m):
        own = n.get_weight()
        neighbor_ids = m.get_neighbors(n.id)
        if len(neighbor_ids) == 0:
            return own
        return own * reduce(operator.mul, [m.get_node(i).get_weight() for i in neighbor_ids])

    @staticmethod
    def get_edges_to_add(n, m):
        neighbors = [m.get_node(i) for i in m.get_neighbors(n.id)]
        size = len(neighbors)
        edges = []
        for i in range(size):
            for j in range(i + 1, size):
                a, b = neighbors[i], neighbors[j]
                if m.edge_exists(a.id, b.id):
                    continue
                edges.append(Edge(a, b, EdgeType.UNDIRECTED))
        return edges

    @staticmethod
    def is_subset(cliques, clique):
        for other in cliques:
            if other.is_superset(clique):
                return True
        return False


class NodeClique:
    def get_bbn_nodes(self):
        nodes = list(self.neighbors)
        nodes.append(self.node)
        return nodes
