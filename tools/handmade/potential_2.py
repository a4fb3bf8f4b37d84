# target: pybbn/graph/potential.py
class Potential(object):
    def get_matching_entries(self, entry):
        return list(filter(lambda e: e.matches(entry), self.entries))

    @staticmethod
    def to_dict(potentials):
        pairs = (entry.get_kv() for potential in potentials for entry in potential.entries)
        return dict(pairs)


class PotentialEntry(object):
    def matches(self, that):
        mine = self.entries
        for k in that.entries:
            if k not in mine:
                return False
            if mine[k] != that.entries[k]:
                return False
        return True

    def duplicate(self):
        entry = PotentialEntry()
        entry.entries.update(self.entries)
        entry.value = self.value
        return entry

    def get_entry_keys(self):
        pairs = list(self.entries.items())
        pairs.sort(key=lambda pair: pair[0])
        return pairs

    def get_kv(self):
        def fmt(pair):
            name, value = pair
            return f"{name}={value}"

        return "|".join(map(fmt, self.get_entry_keys())), self.value


class PotentialUtil(object):
    @staticmethod
    def pass_single_message(join_tree, x, s, y):
        new_sep_set_potential = PotentialUtil.marginalize_for(join_tree, x, s.nodes)
        ratio = PotentialUtil.divide(new_sep_set_potential, join_tree.potentials[s.id])
        join_tree.potentials[s.id] = new_sep_set_potential
        PotentialUtil.multiply(join_tree.potentials[y.id], ratio)

    @staticmethod
    def _sum_values(entries):
        total = 0
        for entry in entries:
            total += entry.value
        return total

    @staticmethod
    def marginalize_for(join_tree, clique, nodes):
        potential = PotentialUtil.get_potential_from_nodes(nodes)
        clique_potential = join_tree.potentials.get(clique.id)
        for entry in potential.entries:
            entry.value = PotentialUtil._sum_values(clique_potential.get_matching_entries(entry))
        return potential

    @staticmethod
    def normalize(potential):
        total = PotentialUtil._sum_values(potential.entries)
        if total != 0.0:
            for entry in potential.entries:
                entry.value /= total
        return potential

    @staticmethod
    def divide(numerator, denominator):
        potential = Potential()
        for i in range(len(numerator.entries)):
            entry = numerator.entries[i]
            e = denominator.entries[i]
            new_entry = entry.duplicate()
            if PotentialUtil.is_zero(entry.value) or PotentialUtil.is_zero(e.value):
                new_entry.value = 0.0
            else:
                new_entry.value = entry.value / e.value
            potential.add_entry(new_entry)
        return potential

    @staticmethod
    def is_zero(d):
        return d == 0.0

    @staticmethod
    def get_potential(node, parents):
        potential = PotentialUtil.get_potential_from_nodes(PotentialUtil.merge(node, parents))
        for entry, prob in zip(potential.entries, node.probs):
            entry.value = prob
        return potential

    @staticmethod
    def get_potential_from_nodes(nodes):
        cartesian = PotentialUtil.get_cartesian_product([n.variable.values for n in nodes])
        ids = [n.id for n in nodes]
        potential = Potential()
        for values in cartesian:
            entry = PotentialEntry()
            for node_id, value in zip(ids, values):
                entry.add(node_id, value)
            potential.add_entry(entry)
        return potential

    @staticmethod
    def merge(node, parents):
        nodes = list(parents)
        nodes.append(node)
        return nodes
