# target: pybbn/pptc/moralizer.py
class Moralizer(object):
    @staticmethod
    def moralize(dag):
        def undirected(a, b):
            return Edge(a, b, EdgeType.UNDIRECTED)

        ug = Ug()
        for node in dag.get_nodes():
            ug.add_node(node)
        for edge in dag.get_edges():
            ug.add_edge(undirected(edge.i, edge.j))
        for node in dag.get_nodes():
            parents = [dag.get_node(pa) for pa in dag.get_parents(node.id)]
            for i, pa1 in enumerate(parents):
                for pa2 in parents[i + 1:]:
                    ug.add_edge(undirected(pa1, pa2))
            node.add_metadata("parents", parents)
            if "parent.clique" in node.metadata:
                del node.metadata["parent.clique"]
        return ug
