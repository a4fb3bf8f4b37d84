# target: pybbn/graph/jointree.py
class JoinTree:
    def __deepcopy__(self, memodict={}):
        def dup(x):
            return deepcopy(x, memodict)

        jt = JoinTree()
        jt.nodes = dup(self.nodes)
        jt.edges = dup(self.edges)
        jt.edge_map = dup(self.edge_map)
        jt.neighbors = dup(self.neighbors)
        jt.potentials = dup(self.potentials)
        jt.evidences = dup(self.evidences)
        jt.parent_info = dup(self.parent_info)
        jt.listener = self.listener
        return jt

    def get_posteriors(self):
        def to_map(node):
            m = {}
            for entry in self.get_bbn_potential(node).entries:
                key = ""
                for value in entry.entries.values():
                    key += f"{value}"
                m[key] = entry.value
            return m

        return {node.variable.name: to_map(node) for node in self.get_bbn_nodes()}

    def update_bbn_cpts(self, cpts):
        bbn_nodes = {node.id: node for clique in self.get_cliques() for node in clique.nodes}
        for idx in filter(lambda i: i in bbn_nodes, cpts):
            node = bbn_nodes[idx]
            node.potential = None
            node.probs = cpts[idx]

    def get_bbn_node_and_parents(self):
        lookup = self.__get_bbn_nodes__()
        return {
            node: [lookup[pa] for pa in self.parent_info[i]] if i in self.parent_info else []
            for i, node in lookup.items()
        }

    def get_bbn_node(self, id):
        bbn_nodes = self.__get_bbn_nodes__()
        return bbn_nodes[id] if id in bbn_nodes else None

    def get_bbn_node_by_name(self, name):
        bbn_nodes = {}
        for clique in self.get_cliques():
            for node in clique.nodes:
                bbn_nodes[node.variable.name] = node
        try:
            return bbn_nodes[name]
        except KeyError:
            return None

    def find_cliques_with_node_and_parents(self, id):
        ids = set(self.__get_parent_ids__(id))
        ids.add(id)
        return [c for c in self.get_cliques() if all(i in c.get_node_ids() for i in ids)]

    def get_cliques(self):
        cliques = []
        for n in self.nodes.values():
            if not isinstance(n, SepSet):
                cliques.append(n)
        return cliques

    def add_edge(self, edge):
        if isinstance(edge, JtEdge) and self.__shouldadd__(edge):
            sep_set = edge.sep_set
            self.add_node(sep_set)
            self.add_node(edge.i)
            self.add_node(edge.j)
            for adjacency in (self.edge_map, self.neighbors):
                for end in (edge.i.id, edge.j.id):
                    adjacency[end].add(sep_set.id)
                    adjacency[sep_set.id].add(end)
            self.edges[edge.key] = edge
        return self

    def get_flattened_edges(self):
        edges = []
        for edge in self.edges.values():
            edges.extend([edge.get_lhs_edge(), edge.get_rhs_edge()])
        return edges

    def get_evidence(self, node, value):
        if node.id not in self.evidences:
            self.evidences[node.id] = {}
        stored = self.evidences[node.id]
        if value in stored:
            return stored[value]
        entry = PotentialEntry()
        entry.add(node.id, value)
        entry.value = 1.0
        potential = Potential()
        potential.add_entry(entry)
        stored[value] = potential
        return potential

    def get_change_type(self, evidences):
        changes = set()
        for evidence in evidences:
            changes.add(evidence.compare(self.evidences[evidence.node.id]))
        for candidate in (ChangeType.RETRACTION, ChangeType.UPDATE):
            if candidate in changes:
                return candidate
        return ChangeType.NONE

    def get_unobserved_evidence(self, node):
        builder = Evidence(node, EvidenceType.UNOBSERVE)
        for v in node.variable.values:
            builder.values[v] = 1.0
        return builder

    def unobserve(self, nodes):
        evidences = []
        for node in nodes:
            evidences.append(self.get_unobserved_evidence(node))
        self.update_evidences(evidences)
        return self

    def update_evidences(self, evidences):
        self.__validate_all(evidences)
        change = self.get_change_type(evidences)
        for evidence in evidences:
            for value, likelihood in evidence.values.items():
                self.evidences[evidence.node.id][value].entries[0].value = likelihood
        self.__notify_listener__(change)
        return self

    def __validate_all(self, evidences):
        for e in evidences:
            e.validate()

    def set_observation(self, evidence):
        evidence.validate()
        if self.__same_observation(evidence):
            return self.unobserve([evidence.node])
        return self.update_evidences([evidence])

    def __same_observation(self, evidence):
        before = Evidence.__convert__(self.evidences[evidence.node.id])
        now = evidence.values
        if not Evidence.__is_observed__(before):
            return False
        if not Evidence.__is_observed__(now):
            return False
        return Evidence.__get_observed_value__(before) == Evidence.__get_observed_value__(now)

    def __get_parent_ids__(self, id):
        metadata = self.get_bbn_node(id).metadata
        if "parents" not in metadata:
            return []
        ids = []
        for parent in metadata["parents"]:
            ids.append(parent.id)
        return ids

    def __notify_listener__(self, change):
        if self.listener is not None:
            if change == ChangeType.RETRACTION:
                self.listener.evidence_retracted(self)
            elif change == ChangeType.UPDATE:
                self.listener.evidence_updated(self)


class PathDetector:
    def __find__(self, i):
        neighbors = self._neighbors(i)
        if self.stop in neighbors:
            return True
        self.seen.add(i)
        for n in neighbors:
            if n in self.seen:
                continue
            if self.__find__(n):
                return True
        return False

    def _neighbors(self, i):
        try:
            return self.graph.get_neighbors(i)
        except KeyError:
            return set()


class Evidence:
    def compare(self, potentials):
        that = self.__convert__(potentials)
        if self.__is_unobserved__(that) and self.__is_unobserved__(self.values):
            return ChangeType.NONE
        both_observed = self.__is_observed__(that) and self.__is_observed__(self.values)
        same = both_observed and self.__get_observed_value__(that) == self.__get_observed_value__(self.values)
        return ChangeType.NONE if same else ChangeType.RETRACTION

    @staticmethod
    def __convert__(potentials):
        m = {}
        for k in potentials:
            m[k] = potentials[k].entries[0].value
        return m

    @staticmethod
    def __is_unobserved__(values):
        total = 0
        for v in values.values():
            total = total + v
        return len(values) == total

    @staticmethod
    def __is_observed__(values):
        vals = list(values.values())
        one = len([v for v in vals if v == 1.0])
        zero = len([v for v in vals if v == 0.0])
        return one == 1 and zero == len(vals) - 1

    @staticmethod
    def __get_observed_value__(values):
        return next(k for k, v in values.items() if v == 1.0)

    @staticmethod
    def __normalize_value_between_zero_one__(val):
        if val < 0.0:
            return 0.0
        if val > 1.0:
            return 1.0
        return val

    def validate(self):
        names = self.node.variable.values
        for name in names:
            if name not in self.values:
                self.values[name] = 0.0
        if self.type == EvidenceType.VIRTUAL:
            for name in names:
                self.values[name] = Evidence.__normalize_value_between_zero_one__(self.values[name])
            return
        if self.type == EvidenceType.FINDING:
            for name in names:
                self.values[name] = Evidence.__normalize_value_zero_or_one__(self.values[name])
            if not any(self.values.values()):
                for name in names:
                    self.values[name] = 1.0
            return
        if self.type == EvidenceType.OBSERVATION:
            winner = max(self.values, key=lambda k: self.values[k])
            for name in names:
                self.values[name] = 1.0 if name == winner else 0.0
            return
        if self.type == EvidenceType.UNOBSERVE:
            for name in names:
                self.values[name] = 1.0
