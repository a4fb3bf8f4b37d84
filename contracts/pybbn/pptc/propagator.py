from pybbn.pptc.evidencecollector import EvidenceCollector
from pybbn.pptc.evidencedistributor import EvidenceDistributor

class Propagator(object):

    @staticmethod
    def propagate(join_tree):
        cliques = join_tree.get_cliques()
        cliques = sorted(cliques, key=lambda c: c.id)
        roots = []
        join_tree.unmark_cliques()
        for x in cliques:
            if not x.is_marked():
                roots.append(x)
                Propagator.collect_evidence(join_tree, x)
        join_tree.unmark_cliques()
        for x in roots:
            Propagator.distribute_evidence(join_tree, x)
        return join_tree

    @staticmethod
    def collect_evidence(join_tree, start):
        collector = EvidenceCollector(join_tree, start)
        collector.start()

    @staticmethod
    def distribute_evidence(join_tree, start):
        distributor = EvidenceDistributor(join_tree, start)
        distributor.start()
