# target: pybbn/sampling/sampling.py
class Table(object):
    def __init__(self, node, parents=[], sort_parents=True):
        self.node = node
        if sort_parents:
            parents = sorted(parents, key=lambda n: n.id)
        self.parents = parents
        self.parent_ids = [p.id for p in self.parents]
        if len(parents) == 0:
            self.probs = np.array([node.probs]).cumsum()
        else:
            self.probs = self._get_conditional_probs()

    def _get_conditional_probs(self):
        n = len(self.node.variable.values)
        rows = [self.node.probs[i : i + n] for i in range(0, len(self.node.probs), n)]
        probs = {}
        cartesian = itertools.product(*[p.variable.values for p in self.parents])
        for values, row in zip(cartesian, rows):
            key = ",".join(f"{p.id}={v}" for p, v in zip(self.parents, values))
            probs[key] = np.array(row).cumsum()
        return probs

    def get_value(self, prob, sample=None):
        probs = self.probs
        if self.has_parents():
            key = ",".join(f"{i}={sample[i]}" for i in self.parent_ids)
            probs = probs[key]
        return self.node.variable.values[bisect.bisect(probs, prob)]

    def has_parents(self):
        return self.parents is not None and len(self.parents) != 0


class LogicSampler(object):
    def _get_parent_nodes(self, node):
        return [self.bbn.get_node(pa_id) for pa_id in self.bbn.parents.get(node.id, [])]

    def __get_tables__(self):
        tables = {}
        for node in self.bbn.get_nodes():
            tables[node.id] = Table(node, self._get_parent_nodes(node), False)
        return tables

    def __topological_sort__(self):
        pending = [
            SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
            for node in self.bbn.get_nodes()
        ]
        pending.sort(key=lambda n: n.node_id)
        ordered = []
        while pending:
            for node in pending:
                if node.parent_ids.issubset(ordered):
                    break
            pending.remove(node)
            ordered.append(node.node_id)
        return ordered

    def _draw(self, evidence):
        sample = copy.deepcopy(evidence)
        probs = np.random.uniform(0.0, 1.0, size=len(self.nodes))
        for p, node_id in zip(probs, self.nodes):
            val = self.tables[node_id].get_value(p, sample=sample)
            if node_id in evidence and val != evidence[node_id]:
                return None
            sample[node_id] = val
        return sample

    def get_samples(self, evidence={}, n_samples=100, seed=37):
        np.random.seed(seed)
        samples = []
        while len(samples) < n_samples:
            sample = self._draw(evidence)
            if sample is not None:
                samples.append(sample)
        return samples
