# target: pybbn/pptc/transformer.py
class Transformer(object):
    @staticmethod
    def _make_sep_set(a, b):
        is_intersection, lhs, rhs, intersection = a.intersects(b)
        if is_intersection:
            return SepSet(a, b, lhs, rhs, intersection)
        return None

    @staticmethod
    def get_sep_sets(cliques):
        sep_sets = []
        for i, a in enumerate(cliques):
            for b in cliques[i + 1:]:
                sep_set = Transformer._make_sep_set(a, b)
                if sep_set is not None:
                    sep_sets.append(sep_set)
        return sorted(sep_sets, key=lambda s: (-1 * s.mass, s.cost, s.id))
