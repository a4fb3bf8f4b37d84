# target: pybbn/causality/ace.py
class Ace(object):
    def _make_evidence(self, name, value):
        node = self.jt.get_bbn_node_by_name(name)
        return EvidenceBuilder().with_node(node).with_evidence(value, 1.0).build()

    def _conditional(self, evidences, y, y_val):
        self.jt.unobserve_all()
        self.jt.update_evidences(evidences)
        return self.jt.get_posteriors()[y][y_val]

    def _joint(self, assignments):
        self.jt.unobserve_all()
        prob = 1.0
        for name, value in assignments:
            prob *= self.jt.get_posteriors()[name][value]
            self.jt.update_evidences([self._make_evidence(name, value)])
        return prob

    def get_ace(self, x, y, y_val):
        n2i = self.bbn.get_n2i()
        i2n = self.bbn.get_i2n()
        Z = self.bbn.get_parents(n2i[x])
        names = [i2n[z] for z in Z]
        domains = [self.bbn.get_node(z).variable.values for z in Z]
        assignments = [list(zip(names, values)) for values in itertools.product(*domains)]

        results = {}
        for x_val in self.bbn.get_node(n2i[x]).variable.values:
            x_ev = self._make_evidence(x, x_val)
            total = 0.0
            for z in assignments:
                z_ev = [self._make_evidence(n, v) for n, v in z]
                total += self._conditional([x_ev] + z_ev, y, y_val) * self._joint(z)
            results[x_val] = total
        return results
