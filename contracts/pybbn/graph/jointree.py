from collections import defaultdict
from copy import deepcopy
from enum import Enum
from pybbn.graph.edge import JtEdge
from pybbn.graph.graph import Ug
from pybbn.graph.node import BbnNode, Clique, SepSet
from pybbn.graph.potential import Potential, PotentialEntry, PotentialUtil
from pybbn.graph.variable import Variable

class JoinTree(Ug):

    def __init__(self):
        Ug.__init__(self)
        self.potentials = dict()
        self.evidences = dict()
        self.listener = None
        self.parent_info = defaultdict(set)

    def __deepcopy__(self, memodict={}):
        nodes = deepcopy(self.nodes, memodict)
        edges = deepcopy(self.edges, memodict)
        edge_map = deepcopy(self.edge_map, memodict)
        neighbors = deepcopy(self.neighbors, memodict)
        potentials = deepcopy(self.potentials, memodict)
        evidences = deepcopy(self.evidences, memodict)
        parent_info = deepcopy(self.parent_info, memodict)
        jt = JoinTree()
        jt.nodes = nodes
        jt.edges = edges
        jt.edge_map = edge_map
        jt.neighbors = neighbors
        jt.potentials = potentials
        jt.evidences = evidences
        jt.parent_info = parent_info
        jt.listener = self.listener
        return jt

    def get_posteriors(self):
        bbn_nodes = self.get_bbn_nodes()
        posteriors = {}
        for bbn_node in bbn_nodes:
            potential = self.get_bbn_potential(bbn_node)
            m = {}
            for potential_entry in potential.entries:
                k = ''.join([f'{y}' for _, y in potential_entry.entries.items()])
                m[k] = potential_entry.value
            name = bbn_node.variable.name
            posteriors[name] = m
        return posteriors

    def get_bbn_potential(self, node):
        clique = node.metadata['parent.clique']
        potential = PotentialUtil.normalize(PotentialUtil.marginalize_for(self, clique, [node]))
        return potential

    def unmark_cliques(self):
        for clique in self.get_cliques():
            clique.unmark()

    def update_bbn_cpts(self, cpts):
        bbn_nodes = {node.id: node for clique in self.get_cliques() for node in clique.nodes}
        for idx, cpt in cpts.items():
            if idx in bbn_nodes:
                bbn_nodes[idx].probs = cpt
                bbn_nodes[idx].potential = None

    def get_bbn_node_and_parents(self):

        def get_parents(node_id):
            if node_id in self.parent_info:
                return [bbn_nodes[pa_id] for pa_id in self.parent_info[node_id]]
            else:
                return []
        bbn_nodes = {node.id: node for clique in self.get_cliques() for node in clique.nodes}
        result = {node: get_parents(node_id) for node_id, node in bbn_nodes.items()}
        return result

    def __get_bbn_nodes__(self):
        result = {node.id: node for clique in self.get_cliques() for node in clique.nodes}
        return result

    def get_bbn_nodes(self):
        return list(self.__get_bbn_nodes__().values())

    def get_bbn_node(self, id):
        bbn_nodes = self.__get_bbn_nodes__()
        if id in bbn_nodes:
            return bbn_nodes[id]
        return None

    def get_bbn_node_by_name(self, name):
        bbn_nodes = {node.variable.name: node for clique in self.get_cliques() for node in clique.nodes}
        if name in bbn_nodes:
            return bbn_nodes[name]
        return None

    def find_cliques_with_node_and_parents(self, id):
        ids = self.__get_parent_ids__(id)
        ids.append(id)
        set1 = set(ids)
        result = [clique for clique in self.get_cliques() if clique.get_node_ids().issuperset(set1)]
        return result

    def add_potential(self, clique, potential):
        self.potentials[clique.id] = potential
        return self

    def get_cliques(self):
        return [clique for clique in self.get_nodes() if not isinstance(clique, SepSet)]

    def get_sep_sets(self):
        return [sep_set for sep_set in self.get_nodes() if isinstance(sep_set, SepSet)]

    def add_edge(self, edge):
        if not isinstance(edge, JtEdge):
            return self
        sep_set = edge.sep_set
        lhs = edge.i
        rhs = edge.j
        if self.__shouldadd__(edge):
            self.add_node(sep_set)
            self.add_node(lhs)
            self.add_node(rhs)
            self.edge_map[lhs.id].add(sep_set.id)
            self.edge_map[rhs.id].add(sep_set.id)
            self.neighbors[lhs.id].add(sep_set.id)
            self.neighbors[rhs.id].add(sep_set.id)
            self.edge_map[sep_set.id].add(lhs.id)
            self.edge_map[sep_set.id].add(rhs.id)
            self.neighbors[sep_set.id].add(lhs.id)
            self.neighbors[sep_set.id].add(rhs.id)
            self.edges[edge.key] = edge
        return self

    def get_flattened_edges(self):
        edges = []
        for edge in self.edges.values():
            edges.append(edge.get_lhs_edge())
            edges.append(edge.get_rhs_edge())
        return edges

    def set_listener(self, listener):
        self.listener = listener

    def get_evidence(self, node, value):
        if node.id not in self.evidences:
            self.evidences[node.id] = dict()
        if value not in self.evidences[node.id]:
            entry = PotentialEntry()
            entry.add(node.id, value)
            entry.value = 1.0
            potential = Potential()
            potential.add_entry(entry)
            self.evidences[node.id][value] = potential
        result = self.evidences[node.id][value]
        return result

    def get_change_type(self, evidences):
        changes = []
        for evidence in evidences:
            node = evidence.node
            potentials = self.evidences[node.id]
            change = evidence.compare(potentials)
            changes.append(change)
        count = len([change_type for change_type in changes if ChangeType.RETRACTION == change_type])
        if count > 0:
            return ChangeType.RETRACTION
        count = len([change_type for change_type in changes if ChangeType.UPDATE == change_type])
        if count > 0:
            return ChangeType.UPDATE
        return ChangeType.NONE

    def get_unobserved_evidence(self, node):
        evidence = Evidence(node, EvidenceType.UNOBSERVE)
        for value in node.variable.values:
            evidence.add_value(value, 1.0)
        return evidence

    def unobserve(self, nodes):
        evidences = [self.get_unobserved_evidence(node) for node in nodes]
        self.update_evidences(evidences)
        return self

    def unobserve_all(self):
        self.unobserve(self.get_bbn_nodes())
        return self

    def update_evidences(self, evidences):
        for evidence in evidences:
            evidence.validate()
        change = self.get_change_type(evidences)
        for evidence in evidences:
            node = evidence.node
            potentials = self.evidences[node.id]
            for k, v in evidence.values.items():
                potential = potentials[k]
                potential.entries[0].value = v
        self.__notify_listener__(change)
        return self

    def set_observation(self, evidence):
        potentials = self.evidences[evidence.node.id]
        evidence.validate()
        pvalues = Evidence.__convert__(potentials)
        cvalues = evidence.values
        if Evidence.__is_observed__(pvalues) and Evidence.__is_observed__(cvalues):
            last_value = Evidence.__get_observed_value__(pvalues)
            curr_value = Evidence.__get_observed_value__(cvalues)
            if last_value == curr_value:
                self.unobserve([evidence.node])
            else:
                self.update_evidences([evidence])
        else:
            self.update_evidences([evidence])
        return self

    @staticmethod
    def to_dict(jt, bbn):

        def nodes_to_dict(nodes):
            d = {}
            for n in nodes:
                if isinstance(n, SepSet):
                    d[n.id] = {'left': n.left.id, 'right': n.right.id, 'type': 'sepset'}
                elif isinstance(n, Clique):
                    d[n.id] = {'node_ids': list(n.node_ids), 'type': 'clique'}
            return d

        def edges_to_dict(edges):
            return [e.sep_set.id for e in edges]
        bbn_nodes = {n.id: n.to_dict() for n in jt.get_bbn_nodes()}
        jt_nodes = nodes_to_dict(jt.get_nodes())
        jt_edges = edges_to_dict(jt.get_edges())
        return {'bbn_nodes': bbn_nodes, 'jt': {'nodes': jt_nodes, 'edges': jt_edges, 'parent_info': {str(k): v for k, v in bbn.parents.items()}}}

    @staticmethod
    def from_dict(d):

        def get_variable(d):
            return Variable(d['id'], d['name'], d['values'])

        def get_bbn_node(d):
            return BbnNode(get_variable(d['variable']), d['probs'])

        def get_clique(d, bbn_nodes):
            return Clique([bbn_nodes[idx] if idx in bbn_nodes else bbn_nodes[str(idx)] for idx in d['node_ids']])

        def get_sep_set(lhs_clique, rhs_clique):
            _, lhs, rhs, intersection = lhs_clique.intersects(rhs_clique)
            return SepSet(lhs_clique, rhs_clique, lhs, rhs, intersection)
        bbn_nodes = {k: get_bbn_node(n) for k, n in d['bbn_nodes'].items()}
        cliques = [get_clique(clique, bbn_nodes) for k, clique in d['jt']['nodes'].items() if clique['type'] == 'clique']
        cliques = {c.id: c for c in cliques}
        sepsets = [get_sep_set(cliques[s['left']], cliques[s['right']]) for k, s in d['jt']['nodes'].items() if s['type'] == 'sepset']
        sepsets = {s.id: s for s in sepsets}
        edges = [JtEdge(sepsets[e]) for e in d['jt']['edges']]
        jt = JoinTree()
        for c in cliques.values():
            jt.add_node(c)
        for e in edges:
            jt.add_edge(e)
        jt.parent_info = {int(k): v for k, v in d['jt']['parent_info'].items()}
        return jt

    def __shouldadd__(self, edge):
        lhs = edge.i
        rhs = edge.j
        if lhs.id == rhs.id:
            return False
        if not PathDetector(self, lhs.id, rhs.id).exists():
            return True
        return False

    def __get_parent_ids__(self, id):
        node = self.get_bbn_node(id)
        if 'parents' in node.metadata:
            return [n.id for n in node.metadata['parents']]
        return []

    def __notify_listener__(self, change):
        if self.listener is None:
            return
        if ChangeType.RETRACTION == change:
            self.listener.evidence_retracted(self)
        elif ChangeType.UPDATE == change:
            self.listener.evidence_updated(self)

class PathDetector(object):

    def __init__(self, graph, start, stop):
        self.graph = graph
        self.start = start
        self.stop = stop
        self.seen = set()

    def exists(self):
        if self.start == self.stop:
            return True
        else:
            return self.__find__(self.start)

    def __find__(self, i):
        neighbors = set()
        try:
            neighbors = self.graph.get_neighbors(i)
        except KeyError:
            pass
        if self.stop in neighbors:
            return True
        self.seen.add(i)
        for neighbor in neighbors:
            if neighbor not in self.seen and self.__find__(neighbor):
                return True
        return False

class JoinTreeListener(object):

    def evidence_retracted(self, join_tree):
        pass

    def evidence_updated(self, join_tree):
        pass

class EvidenceType(Enum):
    VIRTUAL = 1
    FINDING = 2
    OBSERVATION = 3
    UNOBSERVE = 4

class ChangeType(Enum):
    NONE = 1
    UPDATE = 2
    RETRACTION = 3

class EvidenceBuilder(object):

    def __init__(self):
        self.values = dict()
        self.node = None
        self.type = EvidenceType.OBSERVATION

    def with_node(self, node):
        self.node = node
        return self

    def with_type(self, type):
        self.type = type
        return self

    def with_evidence(self, val, likelihood):
        self.values[val] = likelihood
        return self

    def build(self):
        evidence = Evidence(self.node, self.type)
        for k, v in self.values.items():
            evidence.add_value(k, v)
        return evidence

class Evidence(object):

    def __init__(self, node, type):
        self.node = node
        self.type = type
        self.values = dict()

    def add_value(self, value, likelihood):
        self.values[value] = likelihood
        return self

    def compare(self, potentials):
        that = self.__convert__(potentials)
        that_unobserve = self.__is_unobserved__(that)
        this_unobserve = self.__is_unobserved__(self.values)
        if that_unobserve and this_unobserve:
            return ChangeType.NONE
        that_observe = self.__is_observed__(that)
        this_observe = self.__is_observed__(self.values)
        if that_observe and this_observe:
            s1 = self.__get_observed_value__(that)
            s2 = self.__get_observed_value__(self.values)
            if s1 == s2:
                return ChangeType.NONE
            else:
                return ChangeType.RETRACTION
        return ChangeType.RETRACTION

    @staticmethod
    def __convert__(potentials):
        m = dict()
        for k, v in potentials.items():
            m[k] = v.entries[0].value
        return m

    @staticmethod
    def __is_unobserved__(values):
        count = 0
        for k, v in values.items():
            count += v
        return count == len(values)

    @staticmethod
    def __is_observed__(values):
        one = 0
        zero = 0
        for k, v in values.items():
            if 1.0 == v:
                one += 1
            elif 0.0 == v:
                zero += 1
        return 1 == one and len(values) - 1 == zero

    @staticmethod
    def __get_observed_value__(values):
        strs = [k for k in values if 1.0 == values[k]]
        return strs[0]

    @staticmethod
    def __normalize_value_between_zero_one__(val):
        if 0.0 <= val <= 1.0:
            return val
        elif val < 0.0:
            return 0.0
        else:
            return 1.0

    @staticmethod
    def __normalize_value_zero_or_one__(val):
        if val > 0.0:
            return 1.0
        else:
            return 0.0

    def validate(self):
        for value in self.node.variable.values:
            if value not in self.values:
                self.values[value] = 0.0
        if EvidenceType.VIRTUAL == self.type:
            for value in self.node.variable.values:
                self.values[value] = Evidence.__normalize_value_between_zero_one__(self.values[value])
        elif EvidenceType.FINDING == self.type:
            for value in self.node.variable.values:
                self.values[value] = Evidence.__normalize_value_zero_or_one__(self.values[value])
            count = sum([x for x in self.values.values()])
            if 0.0 == count:
                for value in self.node.variable.values:
                    self.values[value] = 1.0
        elif EvidenceType.OBSERVATION == self.type:
            tuples = []
            for k, v in self.values.items():
                pair = (k, v)
                tuples.append(pair)
            tuples = sorted(tuples, key=lambda x: x[1], reverse=True)
            key = tuples[0][0]
            for value in self.node.variable.values:
                if key == value:
                    self.values[value] = 1.0
                else:
                    self.values[value] = 0.0
        elif EvidenceType.UNOBSERVE == self.type:
            for value in self.node.variable.values:
                self.values[value] = 1.0
