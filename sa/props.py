"""The properties: what they say, and the functions they are decided on.

`entries` are the public operations a property speaks about; the property is decided on them and on everything they
reach through resolved calls, apart from `cut` (reached, but irrelevant to the property).  `parts` narrows the parts of
a function that count: "result", or the prefix of an effect class.
"""

EVID = ["jointree:JoinTree.update_evidences", "jointree:JoinTree.set_observation", "jointree:JoinTree.unobserve",
        "jointree:JoinTree.unobserve_all"]
READ = ["jointree:JoinTree.get_posteriors", "jointree:JoinTree.get_bbn_potential"]
EVB = ["jointree:EvidenceBuilder.*", "jointree:Evidence.*"]
IC = "inferencecontroller:InferenceController."
JPD = ["jointree:PathDetector.*", "jointree:JoinTree.__shouldadd__", "jointree:JoinTree.add_edge"]
BUILT = ["node:BbnNode.__init__", "node:BbnNode.get_weight", "node:Clique.*", "node:SepSet.*", "variable:Variable.__init__", "edge:*"]

PROPS = {
    "C01": dict(
        title="Posterior marginals equal Bayes' rule on the full joint distribution",
        statement="For every discrete Bayesian belief network and every set of evidence of non-zero probability, the posterior marginal "
        "reported for each variable equals the one obtained by summing the product of all conditional probability tables and evidence likelihoods "
        "over the other variables. This holds for connected and disconnected networks, nodes with any number of values and parents, and any mix "
        "of hard, soft and absent evidence.",
        over=["inputs", "programs"],
        qtext="all DAG structures, CPTs, variable domains and evidence sets",
        why="The tests pin posteriors of a handful of example networks; the guarantee quantifies over every structure, CPT and evidence set.",
        files=["pybbn/pptc/*.py", "pybbn/graph/*.py"],
        mech=[("join tree construction", "pybbn/pptc/inferencecontroller.py"), ("message passing", "pybbn/pptc/propagator.py"),
              ("potential arithmetic", "pybbn/graph/potential.py"), ("marginalisation to a node", "pybbn/graph/jointree.py")],
        entries=[IC + "apply"] + EVID + READ + EVB + JPD + BUILT, cut=["*__str__", "*__repr__", "dag:PathDetector*", "pdag:*"]),
    "C02": dict(
        title="Posteriors depend on the current evidence, not on how it got there",
        statement="After any sequence of setting, replacing and retracting evidence, the posteriors are those of a freshly built inference engine "
        "given only the evidence now in force. Every change of evidence takes effect before the next query, and retracting all evidence restores the priors.",
        over=["histories"], qtext="all finite sequences of evidence updates, retractions and queries",
        why="Tests run a few fixed update sequences; histories are unbounded and mix update and retraction paths that share mutable potentials.",
        files=["pybbn/graph/jointree.py", "pybbn/pptc/inferencecontroller.py", "pybbn/pptc/initializer.py", "pybbn/pptc/potentialinitializer.py"],
        mech=[("classification of a change of evidence", "pybbn/graph/jointree.py"), ("global update and global retraction", "pybbn/pptc/inferencecontroller.py"),
              ("re-initialisation of potentials and likelihoods", "pybbn/pptc/initializer.py")],
        entries=EVID + READ + [IC + "evidence_retracted", IC + "evidence_updated", "jointree:JoinTree.get_change_type",
                               "jointree:JoinTree.get_unobserved_evidence", "jointree:JoinTree.set_listener", "jointree:JoinTree.get_evidence",
                               "jointree:JoinTree.get_bbn_*"]
        + EVB, cut=["*__str__"]),
    "C03": dict(
        title='Evidence is normalised and classified according to its type',
        statement='Validated evidence assigns a likelihood to every value of its variable: an observation becomes exactly one 1 (at the likeliest value) with the rest 0, a retraction all 1, a finding zeros and ones (all ones if no value is positive), and virtual likelihoods are clamped to between 0 and 1. A change is reported as no change exactly when old and new evidence are both uninformative or both observe the same value, anything else resets the tree, and the strongest change wins when several variables change.',
        over=["inputs"], qtext="all evidence types and likelihood vectors, including partial, unordered and out-of-range ones",
        why="Tests check single examples per evidence type; the rules must hold for every likelihood vector and every pair of old and new evidence.",
        files=["pybbn/graph/jointree.py"],
        mech=[("per-type normalisation", "pybbn/graph/jointree.py"), ("comparison of old and new likelihoods", "pybbn/graph/jointree.py")],
        entries=EVB + ["jointree:JoinTree.get_change_type", "jointree:JoinTree.get_unobserved_evidence", "jointree:JoinTree.set_observation"],
        cut=["jointree:JoinTree.update_evidences", "jointree:JoinTree.__notify_listener__", IC + "*", "initializer:*", "propagator:*", "evidencecollector:*",
             "evidencedistributor:*", "potential:*", "node:*", "graph:*"]),
    "C04": dict(
        title="Zero probabilities and impossible evidence never break inference",
        statement="Zero entries in tables or evidence never raise a division error: a quotient with zero divisor counts as zero, and values excluded by "
        "evidence keep probability zero through every later message. A table that sums to zero is left as it is rather than normalised.",
        over=["inputs"], qtext="all tables and evidence containing zeros, including contradictory evidence",
        why="Tests use strictly positive tables almost everywhere; the zero cases are combinatorially many.",
        files=["pybbn/graph/potential.py", "pybbn/pptc/propagator.py"],
        mech=[("zero-safe division", "pybbn/graph/potential.py"), ("guarded normalisation", "pybbn/graph/potential.py")],
        entries=["potential:PotentialUtil.divide", "potential:PotentialUtil.is_zero", "potential:PotentialUtil.normalize",
                 "potential:PotentialUtil.pass_single_message", "jointree:JoinTree.get_bbn_potential", "jointree:JoinTree.get_posteriors",
                 "initializer:Initializer.initialize", "jointree:JoinTree.update_evidences", "jointree:Evidence.*"],
        cut=["jointree:JoinTree.__get_bbn_nodes__", "node:*", "graph:*", "jointree:JoinTree.find*", "initializer:Initializer.get_clique", "jointree:JoinTree.get_change_type", "jointree:JoinTree.get_evidence", "jointree:JoinTree.get_cliques"]),
    "C05": dict(
        title='The join tree of every network covers all families and has running intersection',
        statement='For every network the constructed cliques cover each variable together with its parents, no clique contains another, and the cliques are joined into a tree (a forest for a disconnected network) in which all cliques containing a variable are connected through separators containing it. Each separator is the intersection of the two cliques it joins.',
        over=["inputs", "programs"], qtext="all DAG structures and domain sizes",
        why="Tests compare cliques for a few known graphs; the property is about every DAG, including ties between equally good eliminations.",
        files=["pybbn/pptc/moralizer.py", "pybbn/pptc/triangulator.py", "pybbn/pptc/transformer.py", "pybbn/graph/node.py", "pybbn/graph/jointree.py"],
        mech=[("marrying of parents", "pybbn/pptc/moralizer.py"), ("elimination with fill-in", "pybbn/pptc/triangulator.py"),
              ("maximum-mass spanning tree of separators", "pybbn/pptc/transformer.py"), ("acyclic edge insertion", "pybbn/graph/jointree.py")],
        entries=["moralizer:Moralizer.moralize", "triangulator:Triangulator.triangulate", "transformer:Transformer.transform", IC + "apply",
                 "jointree:JoinTree.find_cliques_with_node_and_parents", "node:Clique.*", "node:SepSet.*", "node:BbnNode.*"] + JPD + ["edge:*", "graph:Graph.*"],
        cut=["*__str__", "potential*", "propagator:*", "evidence*", "initializer:Initializer.initialize", "dag:PathDetector*", "dag:Dag.__should*",
             "dag:Bbn.__should*", "pdag:*", "jointree:JoinTree.get_evidence"]),
    "C06": dict(
        title="Message passing calibrates every part of the join tree",
        statement="After each propagation, adjacent cliques agree on the marginal of the separator between them, in every component of the tree. Each clique sends and "
        "receives one message over each of its separators: inward before outward, absorbing the new separator table and dividing by the old one.",
        over=["inputs", "histories"], qtext="all join trees, including forests and single cliques, and all initial potentials",
        why="Tests look at final posteriors of small connected trees; calibration is about every tree shape and every message order.",
        files=["pybbn/pptc/propagator.py", "pybbn/pptc/evidencecollector.py", "pybbn/pptc/evidencedistributor.py", "pybbn/graph/potential.py"],
        mech=[("collect and distribute phases", "pybbn/pptc/propagator.py"), ("recursive walk over separators", "pybbn/pptc/evidencecollector.py"),
              ("absorption with division", "pybbn/graph/potential.py")],
        entries=["propagator:*", "evidencecollector:*", "evidencedistributor:*", "potential:PotentialUtil.pass_single_message",
                 "node:Clique.mark", "node:Clique.unmark", "node:Clique.is_marked", "jointree:JoinTree.unmark_cliques", "jointree:JoinTree.get_cliques",
                 "node:Clique.get_sep_set", "graph:Graph.get_neighbors", IC + "evidence_*"] + JPD,
        cut=["*__str__", "pdag:*", "dag:PathDetector*", "dag:*__shouldadd__", "triangulator:*", "initializer:*"]),
    "C07": dict(
        title="Building and querying a join tree is deterministic",
        statement="Building inference twice for the same network yields the same cliques, separators and posteriors: choices between equally good eliminations or "
        "separators are decided by stable identifiers, never by hash order, object identity, time or unseeded randomness.",
        over=["inputs", "configurations"], qtext="all networks, interpreter hash seeds and repeated constructions in one process",
        why="A test run sees one hash seed and one construction order; order dependence shows only under others.",
        files=["pybbn/pptc/*.py", "pybbn/graph/*.py"],
        mech=[("ordering of candidate cliques", "pybbn/pptc/triangulator.py"), ("ordering of separators", "pybbn/pptc/transformer.py"),
              ("edge keys and clique identifiers from members", "pybbn/graph/node.py")],
        entries=["triangulator:Triangulator.*", "transformer:Transformer.*", "moralizer:*", "initializer:Initializer.get_clique", "node:Clique.__init__",
                 "node:Clique.get_sid", "node:Clique.intersects", "node:SepSet.*", "util:*", "edge:*", "propagator:Propagator.propagate",
                 "potential:PotentialUtil.merge", "potential:PotentialUtil.get_cartesian_product", "jointree:JoinTree.get_sep_sets",
                 "jointree:JoinTree.get_posteriors", "jointree:JoinTree.get_bbn_*", "jointree:JoinTree.find_cliques_with_node_and_parents", IC + "apply"],
        cut=["*__str__", "dag:PathDetector*", "pdag:*", "potential:PotentialUtil.multiply", "potential:PotentialUtil.divide"]),
    "C08": dict(
        title="Queries never change the model, the evidence or the potentials",
        statement="Asking for posteriors, potentials, evidence, nodes, edges, serialised or textual forms leaves the network, the join tree, its evidence and its tables as they "
        "were, so repeating or interleaving queries returns the same answers.",
        over=["histories"], qtext="all interleavings of queries with updates on any object",
        why="Tests query once; side effects of a query show only in later queries of longer histories.",
        files=["pybbn/graph/*.py", "pybbn/gaussian/inference.py", "pybbn/causality/do.py"],
        mech=[("marginalising into fresh tables", "pybbn/graph/potential.py"), ("results built from fresh containers", "pybbn/graph/jointree.py")],
        entries=["jointree:JoinTree.get_*", "jointree:JoinTree.to_dict", "jointree:JoinTree.find_cliques_with_node_and_parents", "dag:Bbn.to_*", "dag:Dag.get_*",
                 "dag:Dag.to_nx_graph", "dag:Bbn.get_parents_ordered", "graph:Graph.get_*", "graph:Graph.edge_exists", "dag:Dag.edge_exists", "pdag:Pdag.get_*", "pdag:Pdag.*edge_exists",
                 "node:BbnNode.to_dict", "node:BbnNode.get_weight", "node:Clique.get_*", "node:Clique.is_*", "node:Clique.contains", "node:Clique.intersects", "node:SepSet.*", "variable:Variable.to_dict",
                 "potential:Potential.get_*", "potential:Potential.to_dict", "potential:PotentialEntry.get_*", "potential:PotentialEntry.matches",
                 "potential:PotentialUtil.marginalize_for", "potential:PotentialUtil.is_zero", "potential:PotentialUtil.merge", "potential:PotentialUtil.get_*",
                 "jointree:Evidence.compare", "jointree:JoinTree.get_bbn_*", "*__str__", "*__repr__", "inference:GaussianInference.P",
                 "inference:GaussianInference.marginals", "do:*", "ace:Ace.get_ace"],
        cut=["node:SepSet.__init__", "*.__init__", "jointree:JoinTree.update_evidences", "jointree:JoinTree.unobserve*", IC + "*", "initializer:*", "propagator:*",
             "evidence*", "jointree:JoinTree.__notify*", "jointree:Evidence.validate", "jointree:EvidenceBuilder*"], parts=["effect"], effects_only=True),
    "C09": dict(
        title='Reapplying inference equals building anew, isolated from the network',
        statement="Replacing conditional probability tables and reapplying inference gives the posteriors of a join tree built from scratch with those tables, whatever was observed before. Building or running inference leaves the network's structure and tables unchanged, and later edits of the network's structure do not reach a join tree already built.",
        over=["histories"], qtext="all sequences of table updates, evidence and reapplication on any network",
        why="Tests reapply once without prior evidence; stale caches on nodes show only after longer histories.",
        files=["pybbn/pptc/inferencecontroller.py", "pybbn/pptc/potentialinitializer.py", "pybbn/pptc/initializer.py", "pybbn/graph/jointree.py"],
        mech=[("reset of clique potentials", "pybbn/pptc/potentialinitializer.py"), ("assignment of nodes to cliques", "pybbn/pptc/initializer.py"),
              ("copy of the parent lists", "pybbn/pptc/inferencecontroller.py")],
        entries=[IC + "reapply", IC + "apply", IC + "apply_from_serde", "jointree:JoinTree.update_bbn_cpts", "potentialinitializer:*", "initializer:*", "moralizer:*", "jointree:JoinTree.__deepcopy__", "node:Node.__deepcopy__",
                 "variable:Variable.__deepcopy__", "edge:Edge.__deepcopy__"],
        cut=["pdag:*", "dag:PathDetector*", "*__str__", "propagator:*", "evidencecollector:*", "evidencedistributor:*", "transformer:*", "triangulator:*", "node:SepSet*"]),
    "C10": dict(
        title='A directed network never contains a cycle, a loop or a duplicate edge',
        statement='Whatever edges are offered, in whatever order, a directed acyclic graph and a belief network accept exactly the directed edges that join two different nodes, are not present in either direction, and close no directed cycle. A rejected edge adds no edge, neighbour, parent or child (only its end nodes become known).',
        over=["histories", "inputs"], qtext="all sequences of node and edge insertions",
        why="Tests try a few edges on small graphs; cycles can be long and arise in any insertion order.",
        files=["pybbn/graph/dag.py", "pybbn/graph/graph.py", "pybbn/graph/pdag.py"],
        mech=[("path search before insertion", "pybbn/graph/dag.py"), ("edge admission", "pybbn/graph/dag.py")],
        entries=["dag:Dag.__shouldadd__", "dag:Bbn.__shouldadd__", "dag:PathDetector.*", "dag:Dag.edge_exists", "graph:Graph.add_edge", "dag:Dag.get_children",
                 "pdag:Pdag.__shouldadd__", "pdag:PathDetector.*", "graph:Graph.__shouldadd__", "graph:Graph.edge_exists", "dag:Bbn.__edge_added__",
                 "graph:Graph.__init__", "graph:Graph.add_node", "graph:Graph.remove_node", "dag:Dag.__init__", "dag:Bbn.__init__", "dag:Bbn.remove_node", "pdag:Pdag.*", "dag:Dag.get_parents", "edge:Edge.__init__"],
        cut=["jointree:*"]),
    "C11": dict(
        title='Nodes, edges, neighbours, parents and children stay mutually consistent',
        statement='After any sequence of additions and removals, the nodes, edges, neighbours, parents and children an undirected, directed or partially directed graph reports describe one and the same graph: every edge joins two present nodes, neighbours and parents follow from the edges, and removing a node removes all trace of it. A join tree, as edges are added, relates cliques and separators in the same way: each separator is the neighbour of exactly the two cliques it joins.',
        over=["histories"], qtext="all sequences of graph mutations",
        why="Tests check counts after short sequences; inconsistencies between the redundant maps need particular orders of additions and removals.",
        files=["pybbn/graph/graph.py", "pybbn/graph/dag.py", "pybbn/graph/pdag.py", "pybbn/graph/jointree.py", "pybbn/graph/edge.py"],
        mech=[("redundant maps of nodes, edges and neighbours", "pybbn/graph/graph.py"), ("parent lists", "pybbn/graph/dag.py"),
              ("separator edges split into two halves", "pybbn/graph/jointree.py")],
        entries=["graph:*", "dag:Dag.*", "dag:Bbn.__init__", "dag:Bbn.remove_node", "dag:Bbn.__edge_added__", "dag:Bbn.get_parents_ordered", "pdag:*", "edge:*", "jointree:JoinTree.add_edge",
                 "jointree:JoinTree.__shouldadd__", "jointree:PathDetector.*", "jointree:JoinTree.get_flattened_edges", "jointree:JoinTree.get_cliques", "jointree:JoinTree.get_sep_sets",
                 "dag:BbnUtil.*", "node:SepSet.__init__"],
        cut=["*__str__"]),
    "C12": dict(
        title="A network survives the dictionary and JSON round trip",
        statement="Writing any belief network to a dictionary or JSON and reading it back yields the same nodes (identifiers, names, ordered values, tables) and the same directed edges in an "
        "order that keeps the meaning of every table.",
        over=["inputs"], qtext="all networks, including isolated nodes and nodes with several parents",
        why="Tests round-trip one example; field or order losses depend on shape and content.",
        files=["pybbn/graph/dag.py", "pybbn/graph/node.py", "pybbn/graph/variable.py"],
        mech=[("writers", "pybbn/graph/dag.py"), ("readers", "pybbn/graph/dag.py")],
        entries=["dag:Bbn.to_dict", "dag:Bbn.from_dict", "dag:Bbn.to_json", "dag:Bbn.from_json", "node:BbnNode.to_dict", "variable:Variable.to_dict", "node:BbnNode.__init__",
                 "variable:Variable.__init__", "dag:Bbn.__edge_added__", "dag:Bbn.remove_node", "graph:Graph.get_*"],
        cut=["jointree:*", "pdag:*", "dag:PathDetector*", "dag:*__shouldadd__"]),
    "C13": dict(
        title='A network survives the CSV round trip',
        statement='Writing any belief network to the text format and reading it back yields the same nodes, ordered values, tables and directed edges (parents of a node in the same order), with enough digits to restore every probability exactly. Space around the items does not matter, and a file written earlier is overwritten.',
        over=["inputs"], qtext="all networks whose names and values do not contain the format's separators",
        why="Tests round-trip one example with simple values.",
        files=["pybbn/graph/dag.py", "pybbn/graph/variable.py"],
        mech=[("line format", "pybbn/graph/dag.py")],
        entries=["dag:Bbn.to_csv", "dag:Bbn.from_csv", "bbngenerator:generate_bbn_to_file", "dag:Bbn.__edge_added__", "dag:Bbn.remove_node", "graph:Graph.get_*"],
        cut=["jointree:*", "pdag:*", "dag:PathDetector*", "dag:*__shouldadd__", "bbngenerator:generate_multi*", "bbngenerator:generate_singly*", "bbngenerator:convert*"]),
    "C14": dict(
        title="A serialised join tree works like the original",
        statement="A join tree written to a dictionary and restored has the same variables, cliques, separators, edges and parents, and after initialisation gives the same posteriors under the same "
        "evidence as the original. Isolated cliques are kept.",
        over=["inputs", "histories"], qtext="all networks, including disconnected ones, serialised at any time",
        why="Tests serialise one connected example.",
        files=["pybbn/graph/jointree.py", "pybbn/pptc/inferencecontroller.py"],
        mech=[("writer and reader", "pybbn/graph/jointree.py"), ("initialisation of a restored tree", "pybbn/pptc/inferencecontroller.py")],
        entries=["jointree:JoinTree.to_dict", "jointree:JoinTree.from_dict", IC + "apply_from_serde", "node:BbnNode.to_dict", "variable:Variable.to_dict",
                 "node:Clique.__init__", "node:SepSet.__init__", "edge:*"] + JPD,
        cut=["*__str__", "dag:PathDetector*", "pdag:*", "propagator:*", "evidence*", "potential:*"]),
    "C15": dict(
        title="Forward sampling draws from the network and honours the evidence",
        statement="The sampler returns exactly the requested number of complete samples, each agreeing with the evidence; values are drawn parents first from the table row of the drawn parent values, with "
        "the table's probabilities. Samples are rejected only for contradicting the evidence, and the same seed gives the same samples.",
        over=["inputs"], qtext="all networks, sample counts (also zero), evidence and seeds",
        why="Tests compare frequencies of two networks within a tolerance.",
        files=["pybbn/sampling/sampling.py"],
        mech=[("topological order", "pybbn/sampling/sampling.py"), ("cumulative rows per parent assignment", "pybbn/sampling/sampling.py"), ("rejection", "pybbn/sampling/sampling.py")],
        entries=["sampling:*", "dag:Bbn.__edge_added__", "dag:Bbn.remove_node"], cut=["*__str__"]),
    "C16": dict(
        title="All components read a conditional probability table in the same layout",
        statement="A table lists, for each combination of parent values (parents in the order their edges were added, the last one varying fastest), the probabilities of the node's values in order. Inference, "
        "sampling, learning, import, generation and export agree on this layout for every number of parents and every domain size.",
        over=["inputs", "programs"], qtext="all nodes with any number of parents, any identifiers and edge insertion order",
        why="Tests rarely have two parents whose insertion order differs from the order of their identifiers, where layouts diverge.",
        files=["pybbn/graph/potential.py", "pybbn/sampling/sampling.py", "pybbn/graph/factory.py", "pybbn/graph/dag.py", "pybbn/generator/bbngenerator.py"],
        mech=[("table to potential", "pybbn/graph/potential.py"), ("ordered parents", "pybbn/graph/dag.py"), ("sampler rows", "pybbn/sampling/sampling.py"),
              ("learned rows", "pybbn/graph/factory.py"), ("exported rows", "pybbn/graph/dag.py")],
        entries=["potential:PotentialUtil.get_potential", "potential:PotentialUtil.get_potential_from_nodes", "potential:PotentialUtil.get_cartesian_product", "dag:Bbn.get_parents_ordered", "dag:Bbn.__edge_added__",
                 "dag:Bbn.to_dne", "potentialinitializer:*", "sampling:Table.*", "sampling:LogicSampler.__get_tables__", "factory:*", "bbngenerator:to_json",
                 "bbngenerator:convert_for_exact_inference", "dag:Bbn.remove_node", "jointree:JoinTree.update_bbn_cpts", "jointree:JoinTree.get_bbn_node_and_parents",
                 "initializer:Initializer.initialize", IC + "reapply", "dag:Bbn.to_dict", "dag:Bbn.to_csv", "dag:Bbn.from_*", "bbngenerator:__generate_parameters__", "bbngenerator:__generate_dirichlet*", "bbngenerator:__get_num*"],
        cut=["jointree:JoinTree.add_edge", "jointree:JoinTree.__shouldadd__", "jointree:PathDetector*", "pdag:*", "dag:PathDetector*", "*__shouldadd__", "propagator:*", "evidence*",
             "jointree:JoinTree.get_sep*"]),
    "C17": dict(
        title='A network learned from data has the observed relative frequencies',
        statement='For every data frame and acyclic structure, the learned network has one node per variable with its values sorted, the given edges, and tables holding for each parent combination the relative frequencies in the data (equal ones for a combination that never occurs). Learning leaves the data and the structure as they were.',
        over=["inputs"], qtext="all data frames of discrete columns and acyclic structures, including columns not in the structure's order",
        why="Tests learn one chain from one data set.",
        files=["pybbn/graph/factory.py"],
        mech=[("counting by parent values", "pybbn/graph/factory.py")],
        entries=["factory:Factory.from_data"], cut=["jointree:*", "pdag:*", "dag:PathDetector*", "*__shouldadd__"]),
    "C18": dict(
        title="A libpgm network is imported without loss",
        statement="Importing a libpgm network from an object, dictionary or JSON gives a network with the same variables, value order, edges and conditional probabilities, with table rows in the order of the node's parents.",
        over=["inputs"], qtext="all discrete libpgm networks",
        why="Tests import three sample files.",
        files=["pybbn/graph/factory.py"],
        mech=[("reading of the conditional tables", "pybbn/graph/factory.py")],
        entries=["factory:Factory.from_libpgm_discrete_*"], cut=["jointree:*", "pdag:*", "dag:PathDetector*", "*__shouldadd__"]),
    "C19": dict(
        title='The average causal effect is computed by back-door adjustment',
        statement="For every value of the treatment the interventional probability of the outcome is obtained by adjusting over the treatment's parents, weighted by their joint prior probability. The result depends on the network only: no evidence of an earlier query or of another term of the sum enters, so the computation can be repeated in any order.",
        over=["inputs"], qtext="all networks, treatment and outcome variables and values",
        why="Tests compute one network with one confounder.",
        files=["pybbn/causality/ace.py"],
        mech=[("adjustment sum", "pybbn/causality/ace.py")],
        entries=["ace:*", "dag:Dag.get_*"], cut=["propagator:*", "evidencecollector:*", "evidencedistributor:*", "potential:*", "initializer:*", "graph:*", "node:*", IC + "*"]),
    "C20": dict(
        title="Paths are open or blocked exactly as d-separation prescribes",
        statement="A path between two variables is reported active exactly when every chain and fork on it is outside the conditioning set and every collider is in it or has a descendant in it. All simple paths are considered, each "
        "classified as front-door or back-door by its first edge.",
        over=["inputs"], qtext="all DAGs, pairs of variables and conditioning sets",
        why="Tests check a few triples.",
        files=["pybbn/causality/do.py"],
        mech=[("triple classification", "pybbn/causality/do.py"), ("path enumeration", "pybbn/causality/do.py")],
        entries=["do:get_paths", "do:get_all_paths", "do:is_active_path", "do:is_active_triplet", "do:get_triplet_type", "do:get_path_triplets", "do:get_colliders", "do:get_graph", "do:get_undirected_graph"],
        cut=[]),
    "C21": dict(
        title='Confounders and mediators found for a pair block its paths',
        statement='Every confounder found lies inside an open back-door path between the two variables and is neither one of them, nor a collider of that path, nor a descendant of the treatment; every open back-door path with a variable between its ends is closed by one of them. Every mediator found lies strictly inside a directed path from treatment to outcome and is a collider of no path between them.',
        over=["inputs"], qtext="all DAGs and pairs of variables",
        why="Tests check a few small DAGs.",
        files=["pybbn/causality/do.py"],
        mech=[("greedy minimisation per path", "pybbn/causality/do.py")],
        entries=["do:get_all_confounders", "do:find_minimal_confounders", "do:get_minimal_confounders", "do:find_minimal_mediator", "do:get_minimal_mediators"], cut=[]),
    "C22": dict(
        title="Gaussian inference conditions means and covariances on the observations",
        statement="Given observed values of some variables of a multivariate Gaussian, inference returns the conditional mean vector and covariance matrix of the remaining ones, keeping the observed variables at their values. The answer does not depend on the order "
        "in which variables or observations are listed.",
        over=["inputs"], qtext="all mean vectors, covariance matrices and sets of observations",
        why="Tests check one 4-variable example with zero mean.",
        files=["pybbn/gaussian/inference.py"],
        mech=[("Schur complement", "pybbn/gaussian/inference.py"), ("pairwise reporting", "pybbn/gaussian/inference.py")],
        entries=["inference:*"], cut=["inference:*__repr__"]),
    "C23": dict(
        title="Gaussian inference objects are immutable",
        statement="Conditioning returns a new inference object and leaves the original, its means, covariances and the caller's arrays and observations unchanged, so several queries can start from one object in any order.",
        over=["histories"], qtext="all sequences of conditioning and queries on shared objects",
        why="Tests use each object once.",
        files=["pybbn/gaussian/inference.py"],
        mech=[("copying of arrays and observations", "pybbn/gaussian/inference.py")],
        entries=["inference:*"], cut=[], parts=["effect"], effects_only=True),
    "C24": dict(
        title='Generated structures are connected acyclic graphs of the requested kind',
        statement='For every number of nodes from two on and every limit, a generated singly connected structure is a directed graph whose underlying graph is a tree, and a generated multiply connected one a connected directed acyclic graph, both over exactly the requested nodes. Random choices come only from the seeded numpy generator.',
        over=["inputs"], qtext="all node counts, iteration limits and seeds",
        why="Tests generate one small network.",
        files=["pybbn/generator/bbngenerator.py"],
        mech=[("edge flips that keep the graph connected and acyclic", "pybbn/generator/bbngenerator.py")],
        entries=["bbngenerator:__get_simple_ordered_tree__", "bbngenerator:__convert_to_undirected_graph__", "bbngenerator:__is_connected__", "bbngenerator:__get_random_node_pair__", "bbngenerator:__edge_exists__",
                 "bbngenerator:__del_edge__", "bbngenerator:__add_edge__", "bbngenerator:__find_predecessor__", "bbngenerator:__generate_multi_connected_structure__", "bbngenerator:__generate_singly_structure__",
                 "bbngenerator:generate_multi_bbn", "bbngenerator:generate_singly_bbn", "bbngenerator:generate_bbn_to_file"],
        cut=["dag:*", "graph:*", "node:*", "variable:*", "edge:*", "bbngenerator:convert*", "bbngenerator:__generate_dirichlet*", "bbngenerator:__sample*", "bbngenerator:__generate_alphas*", "bbngenerator:__get_num*"]),
    "C25": dict(
        title="Generated tables have one probability row per parent combination",
        statement="Every generated node has at least two and at most the allowed number of values, and a table with one normalised positive row for each combination of its parents' values. Conversions to a network for inference, for drawing and to files keep nodes, edges and tables.",
        over=["inputs"], qtext="all structures, limits, alphas and seeds",
        why="Tests generate one small network and check counts.",
        files=["pybbn/generator/bbngenerator.py"],
        mech=[("Dirichlet rows per parent instantiation", "pybbn/generator/bbngenerator.py"), ("conversions", "pybbn/generator/bbngenerator.py")],
        entries=["bbngenerator:__generate_num_values__", "bbngenerator:__generate_alphas__", "bbngenerator:__sample_dirichlet__", "bbngenerator:__get_num_parent_instantiations__", "bbngenerator:__generate_dirichlet_parameters__",
                 "bbngenerator:__generate_parameters__", "bbngenerator:to_json", "bbngenerator:convert_for_exact_inference", "bbngenerator:convert_for_drawing", "bbngenerator:generate_bbn_to_file",
                 "bbngenerator:generate_multi_bbn", "bbngenerator:generate_singly_bbn"],
        cut=["jointree:*", "pdag:*", "dag:PathDetector*", "*__shouldadd__"]),
    "C26": dict(
        title='Copies are equal and independent of their originals',
        statement='A deep copy of a variable, node, edge, graph or join tree has the same content as its original and shares no mutable part with it: changing either leaves the other as it was, and evidence set on a copied join tree is propagated in the copy. A shallow copy is a new object of the same class with the same attributes.',
        over=["histories"], qtext="all objects and all later mutations of copy or original",
        why="Tests mutate one attribute of one copy.",
        files=["pybbn/graph/variable.py", "pybbn/graph/node.py", "pybbn/graph/edge.py", "pybbn/graph/graph.py", "pybbn/graph/jointree.py"],
        mech=[("copy protocol methods", "pybbn/graph/graph.py"), ("listener re-registration", "pybbn/graph/jointree.py")],
        entries=["*.__copy__", "*.__deepcopy__", "jointree:JoinTree.set_listener", "jointree:JoinTree.__notify_listener__", IC + "evidence_*", "jointree:JoinTree.update_evidences"],
        cut=["initializer:*", "propagator:*", "graph:Graph.add*", "jointree:JoinTree.add*", "*__should*", "*PathDetector*", "dag:Dag.get*", "graph:Graph.get*"]),
    "C27": dict(
        title='The DNE export states every node, state, parent and table of the network',
        statement="The exported text contains for every node of the network exactly one entry with its name, states in order, parents in table order and the complete table in the order of the node's probabilities, each with all its digits.",
        over=["inputs"], qtext="all networks", why="Tests export one network without comparing the content.",
        files=["pybbn/graph/dag.py"], mech=[("writer", "pybbn/graph/dag.py")],
        entries=["dag:Bbn.to_dne", "dag:Bbn.__edge_added__", "dag:Bbn.remove_node"], cut=["*__str__"]),
    "C28": dict(
        title="Potential operations obey the algebra of tables",
        statement="Multiplying, dividing, marginalising and normalising tables acts entry by entry on exactly the entries agreeing on the shared variables, for tables over any variables and domains. A marginal sums each entry once, and tables for clique members list every combination of values once.",
        over=["inputs"], qtext="all tables over any sets of variables",
        why="Tests use tables over one or two binary variables.",
        files=["pybbn/graph/potential.py"],
        mech=[("entry matching", "pybbn/graph/potential.py"), ("pointwise operations", "pybbn/graph/potential.py")],
        entries=["potential:*"], cut=["*__str__", "*__repr__"]),
    "C29": dict(
        title='Operations do not change the objects passed to them',
        statement="Building a network, a table, evidence, a sampler or an inference object from the caller's lists, dictionaries, arrays or data frames leaves these unchanged, and so do later operations on the object built. Results computed by a query (posteriors and their tables, lists of nodes or edges, samples) are the caller's own: changing them does not corrupt later answers.",
        over=["histories"], qtext="all calls with shared or reused arguments, and all later changes to results",
        why="Tests pass fresh literals; aliasing shows only when arguments or results are reused.",
        files=["pybbn/graph/*.py", "pybbn/sampling/sampling.py", "pybbn/gaussian/inference.py", "pybbn/generator/bbngenerator.py", "pybbn/causality/*.py"],
        mech=[("fresh containers in constructors and queries", "pybbn/graph/jointree.py")],
        entries=["*.__init__", "dag:Bbn.from_*", "dag:Bbn.to_dict", "jointree:JoinTree.from_dict", "jointree:JoinTree.to_dict", "factory:*", "sampling:LogicSampler.*", "do:*", "jointree:EvidenceBuilder.*",
                 "jointree:JoinTree.update_bbn_cpts", "bbngenerator:*", "inference:*", "graph:Graph.get_neighbors", "dag:Dag.get_parents", "dag:Dag.get_children", "dag:Bbn.get_parents_ordered",
                 "jointree:JoinTree.get_*", "graph:Graph.get_*", "dag:Dag.get_n2i", "dag:Dag.get_i2n", "node:BbnNode.to_dict", "variable:Variable.to_dict", IC + "apply", IC + "reapply"],
        cut=["graph:Graph.add*", "jointree:JoinTree.add*", "*__should*", "*PathDetector*", "dag:Bbn.__edge*"], parts=["effect"], effects_only=True, ctor=True),
    "C30": dict(
        title='Look-ups by identifier and name find exactly the node asked for',
        statement="Every node can be found again by its identifier and by its variable's name, name and identifier maps are inverse to each other, and updating tables by identifier reaches exactly the named nodes. Looking up something unknown finds nothing and changes no node, edge or table.",
        over=["inputs"], qtext="all networks with distinct identifiers and names",
        why="Tests look up a few nodes of one network.",
        files=["pybbn/graph/jointree.py", "pybbn/graph/dag.py", "pybbn/graph/graph.py"],
        mech=[("identifier and name maps", "pybbn/graph/dag.py"), ("node search in a join tree", "pybbn/graph/jointree.py")],
        entries=["dag:Dag.get_n2i", "dag:Dag.get_i2n", "jointree:JoinTree.get_bbn_node", "jointree:JoinTree.get_bbn_node_by_name", "jointree:JoinTree.get_bbn_nodes", "jointree:JoinTree.__get_bbn_nodes__",
                 "graph:Graph.get_node", "graph:Graph.get_nodes", "jointree:JoinTree.update_bbn_cpts", "jointree:JoinTree.get_bbn_node_and_parents", "jointree:JoinTree.get_cliques",
                 "jointree:JoinTree.get_posteriors", "graph:Graph.get_*", "graph:Graph.add_node", "graph:Graph.edge_exists", "dag:Dag.get_*", "dag:Dag.edge_exists", "dag:Bbn.get_parents_ordered", "pdag:Pdag.get_*", "node:Clique.contains",
                 "jointree:JoinTree.find_cliques_with_node_and_parents", "jointree:JoinTree.get_evidence"],
        cut=["potential:*", "jointree:JoinTree.get_bbn_potential"]),
    "C31": dict(
        title='Networks convert to networkx and textual forms completely',
        statement='Conversions to a networkx graph carry every node, its name where names are given, every edge with its direction, and nothing else; textual forms of nodes, edges, variables, tables and graphs state their identifiers, values and direction in a fixed order.',
        over=["inputs"], qtext="all networks and graphs", why="Tests convert one or two graphs and never compare most textual forms.",
        files=["pybbn/graph/dag.py", "pybbn/causality/do.py", "pybbn/graph/*.py"],
        mech=[("conversion", "pybbn/graph/dag.py"), ("string forms", "pybbn/graph/node.py")],
        entries=["dag:Dag.to_nx_graph", "do:get_graph", "do:get_undirected_graph", "bbngenerator:convert_for_drawing", "*.__str__", "*.__repr__", "potential:Potential.to_dict"],
        cut=[]),
}

NOT_APPLICABLE = {
    "C40": dict(
        title="Floating-point error of posteriors stays within a small bound",
        statement="For networks with well-conditioned tables the reported posteriors differ from exact real arithmetic by no more than a few units in the last place per operation.",
        over=["inputs"], qtext="all networks and evidence", why="Tests compare a few posteriors with loose tolerances.",
        files=["pybbn/graph/potential.py"], mech=[("table arithmetic", "pybbn/graph/potential.py")],
        reason="the bound depends on the magnitudes of the run-time probabilities and on clique sizes; no static argument over this untyped Python code bounds them"),
    "C41": dict(
        title="Sample frequencies converge to the posterior",
        statement="As the number of samples grows, the frequencies of the sampled values converge to the probabilities given by exact inference under the same evidence.",
        over=["inputs"], qtext="all networks, evidence and seeds", why="Tests compare two networks with loose tolerances.",
        files=["pybbn/sampling/sampling.py"], mech=[("rejection sampling", "pybbn/sampling/sampling.py")],
        reason="a statement about limits of random draws of numpy's generator; the structural part (row choice, order, rejection rule) is claimed as C15"),
    "C42": dict(
        title="Inference and sampling finish in bounded time",
        statement="Every inference, structure generation or sampling request finishes within time bounded by the size of its input.",
        over=["inputs"], qtext="all networks, evidence, sizes and seeds", why="Tests are small; time grows with treewidth and with the rarity of the evidence.",
        files=["pybbn/sampling/sampling.py", "pybbn/pptc/triangulator.py"], mech=[("rejection loop", "pybbn/sampling/sampling.py")],
        reason="false as a universal statement for rejection sampling (evidence may be impossible) and dependent on run-time treewidth for inference; no static bound exists"),
}
