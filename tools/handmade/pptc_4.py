# target: pybbn/pptc/inferencecontroller.py
class InferenceController(JoinTreeListener):
    @staticmethod
    def _get_parent_info(bbn):
        info = {}
        for node in bbn.get_nodes():
            if node.id in bbn.parents:
                info[node.id] = list(bbn.parents[node.id])
        return info

    @staticmethod
    def _initialize_and_propagate(join_tree):
        Initializer.initialize(join_tree)
        Propagator.propagate(join_tree)

    @staticmethod
    def _setup(join_tree):
        PotentialInitializer.reinit(join_tree)
        InferenceController._initialize_and_propagate(join_tree)
        join_tree.set_listener(InferenceController())
        return join_tree

    @staticmethod
    def apply(bbn):
        PotentialInitializer.init(bbn)
        join_tree = Transformer.transform(Triangulator.triangulate(Moralizer.moralize(bbn)))
        join_tree.parent_info = InferenceController._get_parent_info(bbn)
        InferenceController._initialize_and_propagate(join_tree)
        join_tree.set_listener(InferenceController())
        return join_tree

    @staticmethod
    def reapply(join_tree, cpts):
        clone = copy.deepcopy(join_tree)
        clone.update_bbn_cpts(cpts)
        clone.evidences = {}
        clone.listener = None
        return InferenceController._setup(clone)

    @staticmethod
    def apply_from_serde(join_tree):
        join_tree.evidences = {}
        join_tree.listener = None
        return InferenceController._setup(join_tree)

    def evidence_retracted(self, join_tree):
        self._initialize_and_propagate(join_tree)
