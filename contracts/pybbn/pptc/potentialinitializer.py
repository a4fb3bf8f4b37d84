from pybbn.graph.potential import PotentialUtil

class PotentialInitializer(object):

    @staticmethod
    def init(bbn):
        for node in bbn.get_nodes():
            parents = [bbn.get_node(parent_id) for parent_id in bbn.parents[node.id]] if node.id in bbn.parents else []
            potential = PotentialUtil.get_potential(node, parents)
            node.potential = potential

    @staticmethod
    def reinit(jt):
        for node, parents in jt.get_bbn_node_and_parents().items():
            potential = PotentialUtil.get_potential(node, parents)
            node.potential = potential
            node.metadata['parents'] = parents
