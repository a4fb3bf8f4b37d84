# target: pybbn/graph/dag.py
class Dag:
    def get_n2i(self):
        n2i = {}
        for k, node in self.nodes.items():
            n2i[node.variable.name] = k
        return n2i

    def get_i2n(self):
        return dict((k, self.nodes[k].variable.name) for k in self.nodes)

    def get_parents(self, id):
        return [parent for parent, children in self.edge_map.items() if id in children]

    def get_children(self, node_id):
        return list(self.edge_map[node_id])

    def __shouldadd__(self, edge):
        if edge.type != EdgeType.DIRECTED:
            return False
        pa, ch = edge.i.id, edge.j.id
        if pa == ch:
            return False
        if ch in self.edge_map[pa]:
            return False
        if pa in self.edge_map[ch]:
            return False
        return not PathDetector(self, ch, pa).exists()

    def edge_exists(self, id1, id2):
        return id2 in self.edge_map[id1] and id1 not in self.edge_map[id2]

    def to_nx_graph(self):
        graph = nx.DiGraph()
        labels = {}
        for node in self.nodes.values():
            graph.add_node(node.id)
            labels[node.id] = node.variable.name
        for edge in self.edges.values():
            graph.add_edge(edge.i.id, edge.j.id)
        return graph, labels


class Bbn:
    def get_parents_ordered(self, id):
        if id not in self.parents:
            return []
        return sorted(self.parents[id])

    def __edge_added__(self, edge):
        parents = self.parents.setdefault(edge.j.id, [])
        if edge.i.id not in parents:
            parents.append(edge.i.id)

    def remove_node(self, id):
        super().remove_node(id)
        if id in self.parents:
            del self.parents[id]
        for child in self.parents:
            if id in self.parents[child]:
                self.parents[child].remove(id)

    @staticmethod
    def to_csv(bbn, path):
        with open(path, "w") as f:
            for node in bbn.get_nodes():
                f.write(Bbn._node_line(node) + "\n")
            for edge in bbn.edges.values():
                kind = "directed" if EdgeType.DIRECTED == edge.type else "undirected"
                f.write(f"{edge.i.id},{edge.j.id},{kind}\n")

    @staticmethod
    def _node_line(node):
        v = node.variable
        vals = ",".join(v.values)
        probs = ",".join(map(str, node.probs))
        return f"{v.id},{v.name},{vals},|,{probs}"

    @staticmethod
    def from_csv(path):
        def split(part):
            return [item.strip() for item in part.split(",") if item.strip()]

        nodes, edges = {}, []
        with open(path, "r") as f:
            for line in f:
                tokens = line.split(",")
                if len(tokens) == 3:
                    edges.append((int(tokens[0]), int(tokens[1])))
                    continue
                left, right = line.split("|")[0], line.split("|")[1]
                v_part = split(left)
                p_part = split(right)
                i = int(v_part[0])
                nodes[i] = BbnNode(Variable(i, v_part[1], v_part[2:]), [float(p) for p in p_part])
        bbn = Bbn()
        for node in nodes.values():
            bbn.add_node(node)
        for pa_id, ch_id in edges:
            bbn.add_edge(Edge(nodes[pa_id], nodes[ch_id], EdgeType.DIRECTED))
        return bbn

    @staticmethod
    def to_dict(bbn):
        nodes = {}
        for n in bbn.get_nodes():
            nodes[n.id] = n.to_dict()
        edges = []
        for ch, parents in bbn.parents.items():
            for pa in parents:
                edges.append({"pa": pa, "ch": ch})
        return {"nodes": nodes, "edges": edges}

    @staticmethod
    def from_dict(d):
        def build(n):
            v = n["variable"]
            return BbnNode(Variable(v["id"], v["name"], v["values"]), n["probs"])

        nodes = {k: build(n) for k, n in d["nodes"].items()}

        def find(i):
            if i in nodes:
                return nodes[i]
            return nodes[str(i)]

        bbn = Bbn()
        for n in nodes.values():
            bbn.add_node(n)
        for e in d["edges"]:
            bbn.add_edge(Edge(find(e["pa"]), find(e["ch"]), EdgeType.DIRECTED))
        return bbn

    @staticmethod
    def to_json(bbn, path):
        with open(path, "w") as f:
            f.write(json.dumps(Bbn.to_dict(bbn), indent=2))

    @staticmethod
    def from_json(path):
        with open(path, "r") as f:
            return Bbn.from_dict(json.loads(f.read()))

    @staticmethod
    def to_dne(bbn, bnet_name="network"):
        d = Bbn.to_dict(bbn)
        nodes, edges = d["nodes"], d["edges"]

        def parenthesize(items):
            return "(" + ",".join(items) + ")"

        def get_dne_node(id):
            node = nodes[id]
            name = node["variable"]["name"]
            states = parenthesize(node["variable"]["values"])
            probs = parenthesize([f"{p}" for p in node["probs"]])
            parents = parenthesize([nodes[e["pa"]]["variable"]["name"] for e in edges if e["ch"] == id])
            return f'node {name} {{\n                discrete = TRUE;\n                states = {states};\n                kind = NATURE;\n                chance = CHANCE;\n                parents = {parents};\n                probs = {probs};\n            }};\n            '

        dnet_nodes = "\n".join(get_dne_node(i) for i in nodes)
        return f'// ~->[DNET-1]->~\n        bnet {bnet_name} {{\n        AutoCompile = TRUE;\n        autoupdate = TRUE;\n\n        {dnet_nodes}\n        }};\n        '


class PathDetector:
    def exists(self):
        return self.start == self.stop or self.__find__(self.start)

    def __find__(self, i):
        pending = [i]
        while pending:
            current = pending.pop()
            children = self.graph.get_children(current)
            if self.stop in children:
                return True
            fresh = [c for c in children if c not in self.seen]
            self.seen.update(fresh)
            pending.extend(fresh)
        return False
