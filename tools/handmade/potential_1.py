# target: pybbn/graph/potential.py
class Potential(object):
    def get_matching_entries(self, entry):
        matches = []
        for candidate in self.entries:
            if candidate.matches(entry):
                matches.append(candidate)
        return matches

    @staticmethod
    def to_dict(potentials):
        result = {}
        for potential in potentials:
            for entry in potential.entries:
                key, value = entry.get_kv()
                result[key] = value
        return result

    def __str__(self):
        return "\n".join(str(entry) for entry in self.entries)


class PotentialEntry(object):
    def matches(self, that):
        return all(k in self.entries and self.entries[k] == v for k, v in that.entries.items())

    def duplicate(self):
        clone = PotentialEntry()
        clone.value = self.value
        for key in self.entries:
            clone.add(key, self.entries[key])
        return clone

    def get_entry_keys(self):
        return sorted(self.entries.items(), key=lambda kv: kv[0])

    def get_kv(self):
        parts = ["{}={}".format(k, v) for k, v in self.get_entry_keys()]
        key = "|".join(parts)
        return key, self.value

    def __str__(self):
        parts = ["{}={}".format(k, v) for k, v in self.get_entry_keys()]
        return "{}|{:.5f}".format(",".join(parts), self.value)


class PotentialUtil(object):
    @staticmethod
    def pass_single_message(join_tree, x, s, y):
        potentials = join_tree.potentials
        previous = potentials[s.id]
        target = potentials[y.id]
        current = PotentialUtil.marginalize_for(join_tree, x, s.nodes)
        potentials[s.id] = current
        PotentialUtil.multiply(target, PotentialUtil.divide(current, previous))

    @staticmethod
    def marginalize_for(join_tree, clique, nodes):
        source = join_tree.potentials.get(clique.id)
        marginal = PotentialUtil.get_potential_from_nodes(nodes)
        for entry in marginal.entries:
            entry.value = sum(match.value for match in source.get_matching_entries(entry))
        return marginal

    @staticmethod
    def normalize(potential):
        total = sum(entry.value for entry in potential.entries)
        if total == 0.0:
            return potential
        for entry in potential.entries:
            entry.value = entry.value / total
        return potential

    @staticmethod
    def _ratio(a, b):
        if PotentialUtil.is_zero(a) or PotentialUtil.is_zero(b):
            return 0.0
        return a / b

    @staticmethod
    def divide(numerator, denominator):
        result = Potential()
        for top, bottom in zip(numerator.entries, denominator.entries):
            quotient = top.duplicate()
            quotient.value = PotentialUtil._ratio(top.value, bottom.value)
            result.add_entry(quotient)
        return result

    @staticmethod
    def multiply(bigger, smaller):
        for small in smaller.entries:
            for big in bigger.get_matching_entries(small):
                big.value *= small.value

    @staticmethod
    def get_potential(node, parents):
        nodes = PotentialUtil.merge(node, parents)
        potential = PotentialUtil.get_potential_from_nodes(nodes)
        for i, entry in enumerate(potential.entries):
            entry.value = node.probs[i]
        return potential

    @staticmethod
    def _make_entry(nodes, values):
        entry = PotentialEntry()
        for node, value in zip(nodes, values):
            entry.add(node.id, value)
        return entry

    @staticmethod
    def get_potential_from_nodes(nodes):
        potential = Potential()
        domains = [node.variable.values for node in nodes]
        for values in PotentialUtil.get_cartesian_product(domains):
            potential.add_entry(PotentialUtil._make_entry(nodes, values))
        return potential

    @staticmethod
    def get_cartesian_product(lists):
        return list(itertools.product(*lists))

    @staticmethod
    def merge(node, parents):
        return list(parents) + [node]
