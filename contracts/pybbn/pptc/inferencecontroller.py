import copy
from pybbn.graph.jointree import JoinTreeListener
from pybbn.pptc.initializer import Initializer
from pybbn.pptc.moralizer import Moralizer
from pybbn.pptc.potentialinitializer import PotentialInitializer
from pybbn.pptc.propagator import Propagator
from pybbn.pptc.transformer import Transformer
from pybbn.pptc.triangulator import Triangulator

class InferenceController(JoinTreeListener):

    @staticmethod
    def apply(bbn):
        PotentialInitializer.init(bbn)
        ug = Moralizer.moralize(bbn)
        cliques = Triangulator.triangulate(ug)
        join_tree = Transformer.transform(cliques)
        join_tree.parent_info = {node.id: list(bbn.parents[node.id]) for node in bbn.get_nodes() if node.id in bbn.parents}
        Initializer.initialize(join_tree)
        Propagator.propagate(join_tree)
        join_tree.set_listener(InferenceController())
        return join_tree

    @staticmethod
    def reapply(join_tree, cpts):
        jt = copy.deepcopy(join_tree)
        jt.update_bbn_cpts(cpts)
        jt.listener = None
        jt.evidences = dict()
        PotentialInitializer.reinit(jt)
        Initializer.initialize(jt)
        Propagator.propagate(jt)
        jt.set_listener(InferenceController())
        return jt

    @staticmethod
    def apply_from_serde(join_tree):
        join_tree.listener = None
        join_tree.evidences = dict()
        PotentialInitializer.reinit(join_tree)
        Initializer.initialize(join_tree)
        Propagator.propagate(join_tree)
        join_tree.set_listener(InferenceController())
        return join_tree

    def evidence_retracted(self, join_tree):
        Initializer.initialize(join_tree)
        Propagator.propagate(join_tree)

    def evidence_updated(self, join_tree):
        Propagator.propagate(join_tree)
