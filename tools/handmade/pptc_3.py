# target: pybbn/pptc/evidencecollector.py
class EvidenceCollector(object):
    @staticmethod
    def __get_neighboring_cliques__(join_tree, clique):
        pairs = [
            ((sid, join_tree.get_node(sid)), (cid, join_tree.get_node(cid)))
            for sid in join_tree.get_neighbors(clique.id)
            for cid in join_tree.get_neighbors(sid)
            if cid != clique.id
        ]
        return [p[0] for p in pairs], [p[1] for p in pairs]

    def start(self):
        self.start_clique.mark()
        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, self.start_clique)
        for clique_id, clique in cliques:
            clique.mark()
        for i in range(len(cliques)):
            self.__walk__(self.start_clique, sepsets[i][1], cliques[i][1])

    def __walk__(self, x, s, y):
        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
        pending = [(sep, cli) for sep, cli in zip(sepsets, cliques) if not cli[1].is_marked()]
        for _, cli in pending:
            cli[1].mark()
        for sep, cli in pending:
            self.__walk__(y, sep[1], cli[1])
        PotentialUtil.pass_single_message(self.join_tree, y, s, x)
