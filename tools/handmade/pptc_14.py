# target: pybbn/pptc/triangulator.py
class Triangulator(object):
    @staticmethod
    def _add_fill_ins(edges, graphs):
        for edge in edges:
            for graph in graphs:
                graph.add_edge(edge)

    @staticmethod
    def triangulate(m):
        cliques = []
        mm = Triangulator.duplicate(m)
        while mm.get_nodes():
            node_clique = Triangulator.select_node(mm)
            clique = Clique(node_clique.get_bbn_nodes())
            mm.remove_node(node_clique.node.id)
            if not Triangulator.is_subset(cliques, clique):
                cliques.append(clique)
            Triangulator._add_fill_ins(node_clique.edges, (m, mm))
        return cliques

    @staticmethod
    def duplicate(g):
        clone = Ug()
        for n in g.get_nodes():
            clone.add_node(n)
        for e in g.get_edges():
            clone.add_edge(e)
        return clone

    @staticmethod
    def generate_cliques(m):
        for node in m.get_nodes():
            neighbors = [m.get_node(i) for i in m.get_neighbors(node.id)]
            weight = Triangulator.get_weight(node, m)
            edges = Triangulator.get_edges_to_add(node, m)
            yield NodeClique(node, neighbors, weight, edges)

    @staticmethod
    def select_node(m):
        def sort_key(node_clique):
            return len(node_clique.edges), node_clique.weight, node_clique.node.id

        return min(Triangulator.generate_cliques(m), key=sort_key)

    @staticmethod
    def get_weight(n, m):
        weight = n.get_weight()
        for neighbor_id in m.get_neighbors(n.id):
            weight *= m.get_node(neighbor_id).get_weight()
        return weight

    @staticmethod
    def get_edges_to_add(n, m):
        neighbors = [m.get_node(i) for i in m.get_neighbors(n.id)]
        edges = []
        for lhs, rhs in combinations(neighbors, 2):
            if not m.edge_exists(lhs.id, rhs.id):
                edges.append(Edge(lhs, rhs, EdgeType.UNDIRECTED))
        return edges

    @staticmethod
    def is_subset(cliques, clique):
        return any(c.is_superset(clique) for c in cliques)


class NodeClique:
    def get_bbn_nodes(self):
        return list(self.neighbors) + [self.node]
