import itertools
import json
import networkx as nx
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Graph
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable

class Dag(Graph):

    def __init__(self):
        Graph.__init__(self)

    def get_n2i(self):
        n2i = {node.variable.name: k for k, node in self.nodes.items()}
        return n2i

    def get_i2n(self):
        i2n = {k: node.variable.name for k, node in self.nodes.items()}
        return i2n

    def get_parents(self, id):
        return [x for x in self.edge_map if id in self.edge_map[x]]

    def get_children(self, node_id):
        return [x for x in self.edge_map[node_id]]

    def __shouldadd__(self, edge):
        if EdgeType.DIRECTED != edge.type:
            return False
        parent = edge.i
        child = edge.j
        if parent.id == child.id:
            return False
        if child.id not in self.edge_map[parent.id] and parent.id not in self.edge_map[child.id]:
            if not PathDetector(self, child.id, parent.id).exists():
                return True
        return False

    def edge_exists(self, id1, id2):
        if id2 in self.edge_map[id1] and id1 not in self.edge_map[id2]:
            return True
        return False

    def to_nx_graph(self):
        g = nx.DiGraph()
        labels = []
        for k, node in self.nodes.items():
            g.add_node(node.id)
            t = (node.id, node.variable.name)
            labels.append(t)
        for k, edge in self.edges.items():
            pa = edge.i.id
            ch = edge.j.id
            g.add_edges_from([(pa, ch, {})])
        return (g, dict(labels))

class Bbn(Dag):

    def __init__(self):
        Dag.__init__(self)
        self.parents = {}

    def get_parents_ordered(self, id):
        return sorted(self.parents[id]) if id in self.parents else []

    def __edge_added__(self, edge):
        if edge.j.id not in self.parents:
            self.parents[edge.j.id] = []
        if edge.i.id not in self.parents[edge.j.id]:
            self.parents[edge.j.id].append(edge.i.id)

    def remove_node(self, id):
        Dag.remove_node(self, id)
        self.parents.pop(id, None)
        for parents in self.parents.values():
            if id in parents:
                parents.remove(id)

    def __shouldadd__(self, edge):
        return Dag.__shouldadd__(self, edge)

    @staticmethod
    def to_csv(bbn, path):
        with open(path, 'w') as f:
            for node in bbn.get_nodes():
                v = node.variable
                vals = ','.join(v.values)
                probs = ','.join([str(p) for p in node.probs])
                s_node = f'{v.id},{v.name},{vals},|,{probs}'
                f.write(s_node)
                f.write('\n')
            for _, edge in bbn.edges.items():
                t = 'directed' if edge.type == EdgeType.DIRECTED else 'undirected'
                s_edge = f'{edge.i.id},{edge.j.id},{t}'
                f.write(s_edge)
                f.write('\n')

    @staticmethod
    def from_csv(path):
        with open(path, 'r') as f:
            nodes = {}
            edges = []
            for line in f:
                tokens = line.split(',')
                if 3 == len(tokens):
                    edge = (int(tokens[0]), int(tokens[1]))
                    edges.append(edge)
                else:
                    tokens = line.split('|')
                    v_part = [item.strip() for item in tokens[0].split(',') if len(item.strip()) > 0]
                    p_part = [item.strip() for item in tokens[1].split(',') if len(item.strip()) > 0]
                    i = int(v_part[0])
                    v = Variable(i, v_part[1], v_part[2:])
                    p = [float(p) for p in p_part]
                    node = BbnNode(v, p)
                    nodes[i] = node
            bbn = Bbn()
            for _, node in nodes.items():
                bbn.add_node(node)
            for edge in edges:
                pa_id, ch_id = edge
                pa = nodes[pa_id]
                ch = nodes[ch_id]
                bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
            return bbn

    @staticmethod
    def to_dict(bbn):
        return {'nodes': {n.id: n.to_dict() for n in bbn.get_nodes()}, 'edges': list(itertools.chain(*[[{'pa': pa, 'ch': ch} for pa in parents] for ch, parents in bbn.parents.items()]))}

    @staticmethod
    def from_dict(d):

        def get_variable(d):
            return Variable(d['id'], d['name'], d['values'])

        def get_bbn_node(d):
            return BbnNode(get_variable(d['variable']), d['probs'])
        nodes = {k: get_bbn_node(n) for k, n in d['nodes'].items()}
        edges = d['edges']
        bbn = Bbn()
        for k, n in nodes.items():
            bbn.add_node(n)
        for e in edges:
            pa_id = e['pa']
            ch_id = e['ch']
            pa = nodes[pa_id] if pa_id in nodes else nodes[str(pa_id)]
            ch = nodes[ch_id] if ch_id in nodes else nodes[str(ch_id)]
            bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
        return bbn

    @staticmethod
    def to_json(bbn, path):
        s = json.dumps(Bbn.to_dict(bbn), indent=2)
        with open(path, 'w') as f:
            f.write(s)

    @staticmethod
    def from_json(path):
        with open(path, 'r') as f:
            d = json.loads(f.read())
            bbn = Bbn.from_dict(d)
            return bbn

    @staticmethod
    def to_dne(bbn, bnet_name='network'):
        d = Bbn.to_dict(bbn)

        def get_dne_node(id):
            node = d['nodes'][id]
            name = node['variable']['name']
            states = f'({','.join(node['variable']['values'])})'
            probs = f'({','.join([f'{p}' for p in node['probs']])})'
            parents = [d['nodes'][e['pa']]['variable']['name'] for e in d['edges'] if e['ch'] == id]
            if len(parents) == 0:
                parents = '()'
            else:
                parents = f'({','.join(parents)})'
            return f'node {name} {{\n                discrete = TRUE;\n                states = {states};\n                kind = NATURE;\n                chance = CHANCE;\n                parents = {parents};\n                probs = {probs};\n            }};\n            '
        dnet_nodes = [get_dne_node(i) for i in d['nodes']]
        dnet_nodes = '\n'.join(dnet_nodes)
        dnet = f'// ~->[DNET-1]->~\n        bnet {bnet_name} {{\n        AutoCompile = TRUE;\n        autoupdate = TRUE;\n\n        {dnet_nodes}\n        }};\n        '
        return dnet

class PathDetector(object):

    def __init__(self, graph, start, stop):
        self.graph = graph
        self.start = start
        self.stop = stop
        self.seen = set()

    def exists(self):
        if self.start == self.stop:
            return True
        else:
            return self.__find__(self.start)

    def __find__(self, i):
        pending = [i]
        while len(pending) > 0:
            children = self.graph.get_children(pending.pop())
            if self.stop in children:
                return True
            for child in children:
                if child not in self.seen:
                    self.seen.add(child)
                    pending.append(child)
        return False

class BbnUtil(object):

    @staticmethod
    def get_huang_graph():
        a = BbnNode(Variable(0, 'a', ['on', 'off']), [0.5, 0.5])
        b = BbnNode(Variable(1, 'b', ['on', 'off']), [0.5, 0.5, 0.4, 0.6])
        c = BbnNode(Variable(2, 'c', ['on', 'off']), [0.7, 0.3, 0.2, 0.8])
        d = BbnNode(Variable(3, 'd', ['on', 'off']), [0.9, 0.1, 0.5, 0.5])
        e = BbnNode(Variable(4, 'e', ['on', 'off']), [0.3, 0.7, 0.6, 0.4])
        f = BbnNode(Variable(5, 'f', ['on', 'off']), [0.01, 0.99, 0.01, 0.99, 0.01, 0.99, 0.99, 0.01])
        g = BbnNode(Variable(6, 'g', ['on', 'off']), [0.8, 0.2, 0.1, 0.9])
        h = BbnNode(Variable(7, 'h', ['on', 'off']), [0.05, 0.95, 0.95, 0.05, 0.95, 0.05, 0.95, 0.05])
        bbn = Bbn().add_node(a).add_node(b).add_node(c).add_node(d).add_node(e).add_node(f).add_node(g).add_node(h).add_edge(Edge(a, b, EdgeType.DIRECTED)).add_edge(Edge(a, c, EdgeType.DIRECTED)).add_edge(Edge(b, d, EdgeType.DIRECTED)).add_edge(Edge(c, e, EdgeType.DIRECTED)).add_edge(Edge(d, f, EdgeType.DIRECTED)).add_edge(Edge(e, f, EdgeType.DIRECTED)).add_edge(Edge(c, g, EdgeType.DIRECTED)).add_edge(Edge(e, h, EdgeType.DIRECTED)).add_edge(Edge(g, h, EdgeType.DIRECTED))
        return bbn

    @staticmethod
    def get_simple():
        a = BbnNode(Variable(0, 'a', ['on', 'off']), [0.5, 0.5])
        b = BbnNode(Variable(1, 'b', ['on', 'off']), [0.5, 0.5, 0.4, 0.6])
        c = BbnNode(Variable(2, 'c', ['on', 'off']), [0.7, 0.3, 0.2, 0.8])
        d = BbnNode(Variable(3, 'd', ['on', 'off']), [0.9, 0.1, 0.5, 0.5])
        e = BbnNode(Variable(4, 'e', ['on', 'off']), [0.3, 0.7, 0.6, 0.4])
        f = BbnNode(Variable(5, 'f', ['on', 'off']), [0.01, 0.99, 0.01, 0.99, 0.01, 0.99, 0.99, 0.01])
        bbn = Bbn().add_node(a).add_node(b).add_node(c).add_node(d).add_node(e).add_node(f).add_edge(Edge(a, b, EdgeType.DIRECTED)).add_edge(Edge(a, c, EdgeType.DIRECTED)).add_edge(Edge(b, d, EdgeType.DIRECTED)).add_edge(Edge(c, e, EdgeType.DIRECTED)).add_edge(Edge(d, f, EdgeType.DIRECTED)).add_edge(Edge(e, f, EdgeType.DIRECTED))
        return bbn
