# target: pybbn/graph/dag.py
class Dag:
    def get_n2i(self):
        return dict([(node.variable.name, k) for k, node in self.nodes.items()])

    def get_i2n(self):
        mapping = {}
        for k in self.nodes:
            mapping[k] = self.nodes[k].variable.name
        return mapping

    def get_parents(self, id):
        parents = []
        for candidate in self.edge_map:
            if id in self.edge_map[candidate]:
                parents.append(candidate)
        return parents

    def get_children(self, node_id):
        children = []
        for child in self.edge_map[node_id]:
            children.append(child)
        return children

    def __shouldadd__(self, edge):
        parent, child = edge.i, edge.j
        if edge.type != EdgeType.DIRECTED or parent.id == child.id:
            return False
        if child.id in self.edge_map[parent.id] or parent.id in self.edge_map[child.id]:
            return False
        detector = PathDetector(self, child.id, parent.id)
        return not detector.exists()

    def edge_exists(self, id1, id2):
        if id2 not in self.edge_map[id1]:
            return False
        return id1 not in self.edge_map[id2]

    def to_nx_graph(self):
        g = nx.DiGraph()
        for node in self.nodes.values():
            g.add_node(node.id)
        labels = {node.id: node.variable.name for node in self.nodes.values()}
        g.add_edges_from([(edge.i.id, edge.j.id) for edge in self.edges.values()])
        return g, labels


class Bbn:
    def get_parents_ordered(self, id):
        parents = self.parents.get(id, [])
        return sorted(parents)

    def __edge_added__(self, edge):
        child, parent = edge.j.id, edge.i.id
        if child in self.parents:
            if parent not in self.parents[child]:
                self.parents[child].append(parent)
        else:
            self.parents[child] = [parent]

    @staticmethod
    def to_csv(bbn, path):
        rows = []
        for node in bbn.get_nodes():
            v = node.variable
            rows.append(f"{v.id},{v.name},{','.join(v.values)},|,{','.join([str(p) for p in node.probs])}")
        for edge in bbn.edges.values():
            t = "undirected"
            if edge.type == EdgeType.DIRECTED:
                t = "directed"
            rows.append(f"{edge.i.id},{edge.j.id},{t}")
        with open(path, "w") as f:
            for row in rows:
                f.write(row)
                f.write("\n")

    @staticmethod
    def from_csv(path):
        with open(path, "r") as f:
            lines = [line for line in f]
        nodes = {}
        edges = []
        for line in lines:
            tokens = line.split(",")
            if 3 == len(tokens):
                edges.append((int(tokens[0]), int(tokens[1])))
            else:
                node = Bbn._parse_node(line)
                nodes[node.id] = node
        bbn = Bbn()
        for node in nodes.values():
            bbn.add_node(node)
        for pa_id, ch_id in edges:
            edge = Edge(nodes[pa_id], nodes[ch_id], EdgeType.DIRECTED)
            bbn.add_edge(edge)
        return bbn

    @staticmethod
    def _parse_node(line):
        tokens = line.split("|")
        v_part = [item.strip() for item in tokens[0].split(",") if len(item.strip()) > 0]
        p_part = [item.strip() for item in tokens[1].split(",") if len(item.strip()) > 0]
        v = Variable(int(v_part[0]), v_part[1], v_part[2:])
        return BbnNode(v, [float(p) for p in p_part])

    @staticmethod
    def to_dict(bbn):
        return {
            "nodes": {n.id: n.to_dict() for n in bbn.get_nodes()},
            "edges": [{"pa": pa, "ch": ch} for ch, parents in bbn.parents.items() for pa in parents],
        }

    @staticmethod
    def from_dict(d):
        bbn = Bbn()
        nodes = {}
        for k, n in d["nodes"].items():
            v = n["variable"]
            node = BbnNode(Variable(v["id"], v["name"], v["values"]), n["probs"])
            nodes[k] = node
            bbn.add_node(node)
        for e in d["edges"]:
            pa, ch = [nodes[i] if i in nodes else nodes[str(i)] for i in (e["pa"], e["ch"])]
            bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
        return bbn


class PathDetector:
    def exists(self):
        if self.start != self.stop:
            return self.__find__(self.start)
        return True

    def __find__(self, i):
        children = self.graph.get_children(i)
        if self.stop in children:
            return True
        for child in children:
            if child not in self.seen:
                self.seen.add(child)
                if self.__find__(child):
                    return True
        return False
