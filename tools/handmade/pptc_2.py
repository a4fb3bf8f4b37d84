# target: pybbn/pptc/evidencedistributor.py
class EvidenceDistributor(object):
    @staticmethod
    def __get_neighboring_cliques__(join_tree, clique):
        sepsets, cliques = [], []
        for sep_set_id in join_tree.get_neighbors(clique.id):
            for clique_id in join_tree.get_neighbors(sep_set_id):
                if clique_id == clique.id:
                    continue
                sepsets.append((sep_set_id, join_tree.get_node(sep_set_id)))
                cliques.append((clique_id, join_tree.get_node(clique_id)))
        return sepsets, cliques

    def start(self):
        start = self.start_clique
        start.mark()
        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, start)
        for _, clique in cliques:
            clique.mark()
        for (_, s), (_, c) in zip(sepsets, cliques):
            PotentialUtil.pass_single_message(self.join_tree, start, s, c)
            self.__walk__(start, s, c)

    def _mark_unvisited(self, y):
        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
        pairs = []
        for sep, cli in zip(sepsets, cliques):
            if not cli[1].is_marked():
                cli[1].mark()
                pairs.append((sep[1], cli[1]))
        return pairs

    def __walk__(self, x, s, y):
        for sep_set, clique in self._mark_unvisited(y):
            PotentialUtil.pass_single_message(self.join_tree, y, sep_set, clique)
            self.__walk__(y, sep_set, clique)
