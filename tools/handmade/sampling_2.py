# target: pybbn/sampling/sampling.py
class Table(object):
    def __init__(self, node, parents=[], sort_parents=True):
        self.node = node
        self.parents = sorted(parents, key=lambda n: n.id) if sort_parents else parents
        self.parent_ids = [p.id for p in self.parents]
        if not parents:
            self.probs = np.array([node.probs]).cumsum()
            return
        n = len(node.variable.values)
        keys = []
        for values in itertools.product(*[p.variable.values for p in self.parents]):
            keys.append(",".join([f"{pa_id}={val}" for pa_id, val in zip(self.parent_ids, values)]))
        self.probs = {}
        for i, key in enumerate(keys):
            self.probs[key] = np.cumsum(np.array(node.probs[i * n : (i + 1) * n]))

    @staticmethod
    def _make_key(ids, sample):
        return ",".join([f"{i}={sample[i]}" for i in ids])

    def get_value(self, prob, sample=None):
        if self.has_parents():
            probs = self.probs[Table._make_key(self.parent_ids, sample)]
        else:
            probs = self.probs
        index = bisect.bisect(probs, prob)
        return self.node.variable.values[index]

    def has_parents(self):
        if self.parents is None:
            return False
        return len(self.parents) > 0


class LogicSampler(object):
    def __get_tables__(self):
        def parents_of(node):
            return [self.bbn.get_node(pa_id) for pa_id in self.bbn.parents.get(node.id, [])]

        return {node.id: Table(node, parents_of(node), sort_parents=False) for node in self.bbn.get_nodes()}

    def get_samples(self, evidence={}, n_samples=100, seed=37):
        np.random.seed(seed)
        n = len(self.nodes)
        samples = []
        while len(samples) < n_samples:
            sample = copy.deepcopy(evidence)
            rejected = False
            for p, node_id in zip(np.random.uniform(0.0, 1.0, size=n), self.nodes):
                val = self.tables[node_id].get_value(p, sample=sample)
                if node_id in evidence and evidence[node_id] != val:
                    rejected = True
                    break
                sample[node_id] = val
            if not rejected:
                samples.append(sample)
        return samples
