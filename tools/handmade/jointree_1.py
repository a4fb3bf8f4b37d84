# target: pybbn/graph/jointree.py
class JoinTree:
    def __deepcopy__(self, memodict={}):
        jt = JoinTree()
        for name in ("nodes", "edges", "edge_map", "neighbors", "potentials", "evidences", "parent_info"):
            setattr(jt, name, deepcopy(getattr(self, name), memodict))
        jt.listener = self.listener
        return jt

    def get_posteriors(self):
        posteriors = {}
        for node in self.get_bbn_nodes():
            posteriors[node.variable.name] = self._distribution(self.get_bbn_potential(node))
        return posteriors

    def _distribution(self, potential):
        return {"".join(str(y) for y in e.entries.values()): e.value for e in potential.entries}

    def get_bbn_potential(self, node):
        clique = node.metadata["parent.clique"]
        marginal = PotentialUtil.marginalize_for(self, clique, [node])
        return PotentialUtil.normalize(marginal)

    def unmark_cliques(self):
        for node in self.get_nodes():
            if isinstance(node, SepSet):
                continue
            node.unmark()

    def update_bbn_cpts(self, cpts):
        bbn_nodes = self.__get_bbn_nodes__()
        for node_id in cpts:
            node = bbn_nodes.get(node_id)
            if node is None:
                continue
            node.probs = cpts[node_id]
            node.potential = None

    def get_bbn_node_and_parents(self):
        bbn_nodes = self.__get_bbn_nodes__()
        result = {}
        for node_id, node in bbn_nodes.items():
            parents = []
            if node_id in self.parent_info:
                for pa_id in self.parent_info[node_id]:
                    parents.append(bbn_nodes[pa_id])
            result[node] = parents
        return result

    def __get_bbn_nodes__(self):
        result = {}
        for clique in self.get_cliques():
            for node in clique.nodes:
                result[node.id] = node
        return result

    def get_bbn_nodes(self):
        return [node for node in self.__get_bbn_nodes__().values()]

    def get_bbn_node(self, id):
        return self.__get_bbn_nodes__().get(id)

    def get_bbn_node_by_name(self, name):
        by_name = {}
        for clique in self.get_cliques():
            by_name.update({node.variable.name: node for node in clique.nodes})
        return by_name.get(name, None)

    def find_cliques_with_node_and_parents(self, id):
        required = set(self.__get_parent_ids__(id)) | {id}
        found = []
        for clique in self.get_cliques():
            if required.issubset(clique.get_node_ids()):
                found.append(clique)
        return found

    def get_cliques(self):
        return list(filter(lambda n: not isinstance(n, SepSet), self.get_nodes()))

    def get_sep_sets(self):
        sep_sets = []
        for node in self.get_nodes():
            if isinstance(node, SepSet):
                sep_sets.append(node)
        return sep_sets

    def add_edge(self, edge):
        if not isinstance(edge, JtEdge) or not self.__shouldadd__(edge):
            return self
        sep_set, lhs, rhs = edge.sep_set, edge.i, edge.j
        for node in (sep_set, lhs, rhs):
            self.add_node(node)
        for clique in (lhs, rhs):
            self.__connect(clique.id, sep_set.id)
            self.__connect(sep_set.id, clique.id)
        self.edges[edge.key] = edge
        return self

    def __connect(self, a, b):
        self.edge_map[a].add(b)
        self.neighbors[a].add(b)

    def get_flattened_edges(self):
        return [half for edge in self.edges.values() for half in (edge.get_lhs_edge(), edge.get_rhs_edge())]

    def get_evidence(self, node, value):
        potentials = self.evidences.setdefault(node.id, {})
        if value not in potentials:
            potentials[value] = self._make_evidence_potential(node, value)
        return self.evidences[node.id][value]

    def _make_evidence_potential(self, node, value):
        entry = PotentialEntry().add(node.id, value)
        entry.value = 1.0
        return Potential().add_entry(entry)

    def get_change_type(self, evidences):
        changes = [e.compare(self.evidences[e.node.id]) for e in evidences]
        if ChangeType.RETRACTION in changes:
            return ChangeType.RETRACTION
        if ChangeType.UPDATE in changes:
            return ChangeType.UPDATE
        return ChangeType.NONE

    def get_unobserved_evidence(self, node):
        evidence = Evidence(node, EvidenceType.UNOBSERVE)
        evidence.values = {value: 1.0 for value in node.variable.values}
        return evidence

    def unobserve(self, nodes):
        return self.update_evidences([self.get_unobserved_evidence(n) for n in nodes])

    def unobserve_all(self):
        return self.unobserve(self.get_bbn_nodes())

    def update_evidences(self, evidences):
        for evidence in evidences:
            evidence.validate()
        change = self.get_change_type(evidences)
        for evidence in evidences:
            self._store(evidence)
        self.__notify_listener__(change)
        return self

    def _store(self, evidence):
        potentials = self.evidences[evidence.node.id]
        for value in evidence.values:
            potentials[value].entries[0].value = evidence.values[value]

    def set_observation(self, evidence):
        evidence.validate()
        previous = Evidence.__convert__(self.evidences[evidence.node.id])
        current = evidence.values
        both = Evidence.__is_observed__(previous) and Evidence.__is_observed__(current)
        if both and Evidence.__get_observed_value__(previous) == Evidence.__get_observed_value__(current):
            self.unobserve([evidence.node])
        else:
            self.update_evidences([evidence])
        return self

    def __shouldadd__(self, edge):
        lhs, rhs = edge.i.id, edge.j.id
        return lhs != rhs and not PathDetector(self, lhs, rhs).exists()

    def __get_parent_ids__(self, id):
        parents = self.get_bbn_node(id).metadata.get("parents", [])
        return [n.id for n in parents]

    def __notify_listener__(self, change):
        listener = self.listener
        if listener is None:
            return
        if change == ChangeType.RETRACTION:
            listener.evidence_retracted(self)
        if change == ChangeType.UPDATE:
            listener.evidence_updated(self)

    @staticmethod
    def to_dict(jt, bbn):
        jt_nodes = {}
        for n in jt.get_nodes():
            if isinstance(n, SepSet):
                jt_nodes[n.id] = {"left": n.left.id, "right": n.right.id, "type": "sepset"}
            elif isinstance(n, Clique):
                jt_nodes[n.id] = {"node_ids": list(n.node_ids), "type": "clique"}
        bbn_nodes = {}
        for n in jt.get_bbn_nodes():
            bbn_nodes[n.id] = n.to_dict()
        parent_info = {}
        for k in bbn.parents:
            parent_info[str(k)] = bbn.parents[k]
        return {
            "bbn_nodes": bbn_nodes,
            "jt": {"nodes": jt_nodes, "edges": [e.sep_set.id for e in jt.get_edges()], "parent_info": parent_info},
        }

    @staticmethod
    def from_dict(d):
        bbn_nodes = {}
        for k, n in d["bbn_nodes"].items():
            v = n["variable"]
            bbn_nodes[k] = BbnNode(Variable(v["id"], v["name"], v["values"]), n["probs"])

        def lookup(idx):
            return bbn_nodes[idx] if idx in bbn_nodes else bbn_nodes[str(idx)]

        cliques, sepsets = {}, {}
        specs = list(d["jt"]["nodes"].values())
        for spec in specs:
            if spec["type"] == "clique":
                c = Clique([lookup(idx) for idx in spec["node_ids"]])
                cliques[c.id] = c
        for spec in specs:
            if spec["type"] == "sepset":
                left, right = cliques[spec["left"]], cliques[spec["right"]]
                _, lhs, rhs, intersection = left.intersects(right)
                s = SepSet(left, right, lhs, rhs, intersection)
                sepsets[s.id] = s
        jt = JoinTree()
        for c in cliques.values():
            jt.add_node(c)
        for sepset_id in d["jt"]["edges"]:
            jt.add_edge(JtEdge(sepsets[sepset_id]))
        jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
        return jt


class PathDetector:
    def exists(self):
        if self.start == self.stop:
            return True
        return self.__find__(self.start)

    def __find__(self, i):
        try:
            neighbors = self.graph.get_neighbors(i)
        except KeyError:
            neighbors = set()
        if self.stop in neighbors:
            return True
        self.seen.add(i)
        return any(n not in self.seen and self.__find__(n) for n in neighbors)


class EvidenceBuilder:
    def build(self):
        evidence = Evidence(self.node, self.type)
        for val in self.values:
            evidence.add_value(val, self.values[val])
        return evidence


class Evidence:
    def compare(self, potentials):
        previous, current = Evidence.__convert__(potentials), self.values
        if Evidence.__is_unobserved__(previous) and Evidence.__is_unobserved__(current):
            return ChangeType.NONE
        if Evidence.__is_observed__(previous) and Evidence.__is_observed__(current):
            if Evidence.__get_observed_value__(previous) == Evidence.__get_observed_value__(current):
                return ChangeType.NONE
        return ChangeType.RETRACTION

    @staticmethod
    def __convert__(potentials):
        return {k: p.entries[0].value for k, p in potentials.items()}

    @staticmethod
    def __is_unobserved__(values):
        return sum(values.values()) == len(values)

    @staticmethod
    def __is_observed__(values):
        ones = sum(1 for v in values.values() if v == 1.0)
        zeros = sum(1 for v in values.values() if v == 0.0)
        return ones == 1 and zeros == len(values) - 1

    @staticmethod
    def __get_observed_value__(values):
        for k, v in values.items():
            if v == 1.0:
                return k
        raise IndexError("not observed")

    @staticmethod
    def __normalize_value_between_zero_one__(val):
        return min(1.0, max(0.0, val))

    @staticmethod
    def __normalize_value_zero_or_one__(val):
        return 1.0 if val > 0.0 else 0.0

    def validate(self):
        values = self.node.variable.values
        for value in values:
            self.values.setdefault(value, 0.0)
        if self.type == EvidenceType.VIRTUAL:
            self._apply(lambda value: Evidence.__normalize_value_between_zero_one__(self.values[value]))
        elif self.type == EvidenceType.FINDING:
            self._apply(lambda value: Evidence.__normalize_value_zero_or_one__(self.values[value]))
            if sum(self.values.values()) == 0.0:
                self._apply(lambda value: 1.0)
        elif self.type == EvidenceType.OBSERVATION:
            ranked = sorted(self.values.items(), key=lambda kv: kv[1], reverse=True)
            best = ranked[0][0]
            self._apply(lambda value: 1.0 if value == best else 0.0)
        elif self.type == EvidenceType.UNOBSERVE:
            self._apply(lambda value: 1.0)

    def _apply(self, f):
        for value in self.node.variable.values:
            self.values[value] = f(value)
