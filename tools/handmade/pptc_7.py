# target: pybbn/pptc/moralizer.py
class Moralizer(object):
    @staticmethod
    def _get_parents(dag, node):
        return [dag.get_node(parent_id) for parent_id in dag.get_parents(node.id)]

    @staticmethod
    def _marry(ug, parents):
        for pa1, pa2 in itertools.combinations(parents, 2):
            ug.add_edge(Edge(pa1, pa2, EdgeType.UNDIRECTED))

    @staticmethod
    def moralize(dag):
        ug = Ug()
        for node in dag.get_nodes():
            ug.add_node(node)
        for edge in dag.get_edges():
            ug.add_edge(Edge(edge.i, edge.j, EdgeType.UNDIRECTED))
        for node in dag.get_nodes():
            Moralizer._marry(ug, Moralizer._get_parents(dag, node))
        for node in dag.get_nodes():
            node.add_metadata("parents", Moralizer._get_parents(dag, node))
            node.metadata.pop("parent.clique", None)
        return ug
