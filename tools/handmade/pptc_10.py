# target: pybbn/pptc/potentialinitializer.py
class PotentialInitializer(object):
    @staticmethod
    def init(bbn):
        for node in bbn.get_nodes():
            parent_ids = bbn.parents.get(node.id, [])
            parents = [bbn.get_node(parent_id) for parent_id in parent_ids]
            node.potential = PotentialUtil.get_potential(node, parents)
