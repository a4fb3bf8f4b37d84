import bisect
import copy
import itertools
import numpy as np

class SortableNode(object):

    def __init__(self, node_id, parent_ids):
        self.node_id = node_id
        self.parent_ids = parent_ids

class Table(object):

    def __init__(self, node, parents=[], sort_parents=True):
        self.node = node
        self.parents = sorted(parents, key=lambda n: n.id) if sort_parents else parents
        self.parent_ids = [p.id for p in self.parents]
        if len(parents) == 0:
            self.probs = np.array([node.probs]).cumsum()
        else:
            cartesian = list(itertools.product(*[node.variable.values for node in self.parents]))
            get_kv = lambda i, v: f'{i}={v}'
            keys = [','.join([get_kv(node.id, val) for node, val in zip(self.parents, values)]) for values in cartesian]
            n = len(node.variable.values)
            probs = [node.probs[i:i + n] for i in range(0, len(node.probs), n)]
            probs = [np.array(p).cumsum() for p in probs]
            self.probs = {k: p for k, p in zip(keys, probs)}

    def get_value(self, prob, sample=None):
        if not self.has_parents():
            index = bisect.bisect(self.probs, prob)
        else:
            k = ','.join([f'{i}={sample[i]}' for i in self.parent_ids])
            probs = self.probs[k]
            index = bisect.bisect(probs, prob)
        return self.node.variable.values[index]

    def has_parents(self):
        return self.parents is not None and len(self.parents) > 0

class LogicSampler(object):

    def __init__(self, bbn):
        self.bbn = bbn
        self.nodes = self.__topological_sort__()
        self.tables = self.__get_tables__()

    def __get_tables__(self):
        tables = [node for node in self.bbn.get_nodes()]
        tables = [(node, self.bbn.parents.get(node.id, [])) for node in tables]
        tables = [(node, [self.bbn.get_node(pa_id) for pa_id in parents]) for node, parents in tables]
        tables = {node.id: Table(node, parents, False) for node, parents in tables}
        return tables

    def __topological_sort__(self):
        pending = [SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id))) for node in self.bbn.get_nodes()]
        pending = sorted(pending, key=lambda n: n.node_id)
        nodes = []
        while len(pending) > 0:
            node = next((n for n in pending if n.parent_ids.issubset(nodes)))
            pending.remove(node)
            nodes.append(node.node_id)
        return nodes

    def get_samples(self, evidence={}, n_samples=100, seed=37):
        np.random.seed(seed)
        n = len(self.nodes)
        samples = []
        while len(samples) < n_samples:
            sample = copy.deepcopy(evidence)
            probs = np.random.uniform(0.0, 1.0, size=n)
            for p, node_id in zip(probs, self.nodes):
                table = self.tables[node_id]
                val = table.get_value(p, sample=sample)
                if node_id in evidence and val != evidence[node_id]:
                    break
                sample[node_id] = val
            else:
                samples.append(sample)
        return samples
