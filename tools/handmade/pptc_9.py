# target: pybbn/pptc/potentialinitializer.py
class PotentialInitializer(object):
    @staticmethod
    def _get_parents(bbn, node):
        if node.id not in bbn.parents:
            return []
        return [bbn.get_node(pa) for pa in bbn.parents[node.id]]

    @staticmethod
    def init(bbn):
        for node in bbn.get_nodes():
            node.potential = PotentialUtil.get_potential(node, PotentialInitializer._get_parents(bbn, node))

    @staticmethod
    def reinit(jt):
        pairs = jt.get_bbn_node_and_parents()
        for node in pairs:
            node.metadata["parents"] = pairs[node]
            node.potential = PotentialUtil.get_potential(node, pairs[node])
