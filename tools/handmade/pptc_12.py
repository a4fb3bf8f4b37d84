# target: pybbn/pptc/transformer.py
class Transformer(object):
    @staticmethod
    def transform(cliques):
        join_tree = JoinTree()
        for clique in cliques:
            join_tree.add_node(clique)
        for sep_set in Transformer.get_sep_sets(cliques):
            join_tree.add_edge(JtEdge(sep_set))
        return join_tree

    @staticmethod
    def _sort_key(sep_set):
        return -sep_set.mass, sep_set.cost, sep_set.id

    @staticmethod
    def get_sep_sets(cliques):
        sep_sets = []
        for a, b in itertools.combinations(cliques, 2):
            is_intersection, lhs, rhs, intersection = a.intersects(b)
            if not is_intersection:
                continue
            sep_sets.append(SepSet(a, b, lhs, rhs, intersection))
        sep_sets.sort(key=Transformer._sort_key)
        return sep_sets
