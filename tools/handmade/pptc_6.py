# target: pybbn/pptc/initializer.py
class Initializer(object):
    @staticmethod
    def _init_potentials(join_tree):
        for x in itertools.chain(join_tree.get_cliques(), join_tree.get_sep_sets()):
            join_tree.add_potential(x, PotentialUtil.get_potential_from_nodes(x.nodes))

    @staticmethod
    def _absorb_cpts(join_tree, nodes):
        for node in nodes:
            clique = Initializer.get_clique(node, join_tree)
            PotentialUtil.multiply(join_tree.potentials[clique.id], node.potential)

    @staticmethod
    def _absorb_evidence(join_tree, nodes):
        for node in nodes:
            for value in node.variable.values:
                clique = node.metadata["parent.clique"]
                PotentialUtil.multiply(join_tree.potentials[clique.id], join_tree.get_evidence(node, value))

    @staticmethod
    def initialize(join_tree):
        Initializer._init_potentials(join_tree)
        nodes = join_tree.get_bbn_nodes()
        Initializer._absorb_cpts(join_tree, nodes)
        Initializer._absorb_evidence(join_tree, nodes)
        return join_tree

    @staticmethod
    def get_clique(node, join_tree):
        clique = node.metadata.get("parent.clique")
        if clique is None:
            cliques = join_tree.find_cliques_with_node_and_parents(node.id)
            cliques.sort(key=lambda c: c.id)
            clique = cliques[0]
            node.add_metadata("parent.clique", clique)
        return clique
