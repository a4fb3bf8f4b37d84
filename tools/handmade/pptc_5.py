# target: pybbn/pptc/initializer.py
class Initializer(object):
    @staticmethod
    def _reset(join_tree, cluster):
        join_tree.add_potential(cluster, PotentialUtil.get_potential_from_nodes(cluster.nodes))

    @staticmethod
    def initialize(join_tree):
        for clique in join_tree.get_cliques():
            Initializer._reset(join_tree, clique)
        for sep_set in join_tree.get_sep_sets():
            Initializer._reset(join_tree, sep_set)

        nodes = join_tree.get_bbn_nodes()
        for node in nodes:
            clique = Initializer.get_clique(node, join_tree)
            PotentialUtil.multiply(join_tree.potentials[clique.id], node.potential)

        for node in nodes:
            clique = node.metadata["parent.clique"]
            clique_potential = join_tree.potentials[clique.id]
            for value in node.variable.values:
                PotentialUtil.multiply(clique_potential, join_tree.get_evidence(node, value))
        return join_tree

    @staticmethod
    def get_clique(node, join_tree):
        if "parent.clique" in node.metadata:
            return node.metadata["parent.clique"]
        candidates = join_tree.find_cliques_with_node_and_parents(node.id)
        clique = min(candidates, key=lambda c: c.id)
        node.add_metadata("parent.clique", clique)
        return clique
