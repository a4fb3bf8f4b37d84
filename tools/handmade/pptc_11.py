# target: pybbn/pptc/propagator.py
class Propagator(object):
    @staticmethod
    def propagate(join_tree):
        cliques = sorted(join_tree.get_cliques(), key=lambda clique: clique.id)
        join_tree.unmark_cliques()
        roots = Propagator._collect_all(join_tree, cliques)
        join_tree.unmark_cliques()
        for root in roots:
            Propagator.distribute_evidence(join_tree, root)
        return join_tree

    @staticmethod
    def _collect_all(join_tree, cliques):
        roots = []
        for clique in cliques:
            if clique.is_marked():
                continue
            roots.append(clique)
            Propagator.collect_evidence(join_tree, clique)
        return roots

    @staticmethod
    def collect_evidence(join_tree, start):
        EvidenceCollector(join_tree, start).start()

    @staticmethod
    def distribute_evidence(join_tree, start):
        EvidenceDistributor(join_tree, start).start()
