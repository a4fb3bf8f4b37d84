import json
import networkx as nx
import numpy as np
from networkx.algorithms.dag import is_directed_acyclic_graph
from networkx.algorithms.shortest_paths.generic import shortest_path
from scipy.stats import dirichlet
from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable

def __get_simple_ordered_tree__(n):
    g = nx.DiGraph()
    for i in range(n):
        g.add_node(i)
    for i in range(n - 1):
        g.add_edges_from([(i, i + 1, {})])
    return g

def __convert_to_undirected_graph__(g):
    u = nx.Graph()
    for n in g.nodes:
        u.add_node(n)
    for e in g.edges:
        u.add_edges_from([(e[0], e[1], {})])
    return u

def __is_connected__(g):
    u = __convert_to_undirected_graph__(g)
    return nx.is_connected(u)

def __get_random_node_pair__(n):
    i = np.random.randint(0, n)
    j = i
    while j == i:
        j = np.random.randint(0, n)
    return (i, j)

def __edge_exists__(i, j, g):
    return j in list(g.successors(i))

def __del_edge__(i, j, g):
    if g.has_edge(i, j) is True:
        g.remove_edge(i, j)
        if __is_connected__(g) is False:
            g.add_edges_from([(i, j, {})])

def __add_edge__(i, j, g):
    g.add_edges_from([(i, j, {})])
    if is_directed_acyclic_graph(g) is False:
        g.remove_edge(i, j)

def __find_predecessor__(i, j, g):
    parents = list(g.predecessors(j))
    u = __convert_to_undirected_graph__(g)
    for pa in parents:
        try:
            shortest_path(u, pa, i)
            return pa
        except nx.NetworkXNoPath:
            pass
    return None

def __generate_multi_connected_structure__(n, max_iter=10):
    g = __get_simple_ordered_tree__(n)
    for it in range(max_iter):
        i, j = __get_random_node_pair__(n)
        if g.has_edge(i, j) is True:
            __del_edge__(i, j, g)
        else:
            __add_edge__(i, j, g)
    return g

def __generate_singly_structure__(n, max_iter=10):
    g = __get_simple_ordered_tree__(n)
    for it in range(max_iter):
        i, j = __get_random_node_pair__(n)
        if g.has_edge(i, j) is True or g.has_edge(j, i) is True:
            pass
        else:
            p = np.random.random()
            k = __find_predecessor__(i, j, g)
            if k is not None:
                g.remove_edge(k, j)
                if p < 0.5:
                    g.add_edges_from([(j, i, {})])
                else:
                    g.add_edges_from([(i, j, {})])
                if __is_connected__(g) is False:
                    g.add_edges_from([(k, j, {})])
                    if p < 0.5:
                        g.remove_edge(j, i)
                    else:
                        g.remove_edge(i, j)
    return g

def __generate_num_values__(n, max_values=2):
    return np.array([max(np.random.randint(0, max_values) + 1, 2) for _ in range(n)])

def __generate_alphas__(n, max_alpha=10):
    return [np.random.randint(1, max_alpha + 1) for i in range(n)]

def __sample_dirichlet__(n, max_alpha=10):
    return np.array(dirichlet.rvs(__generate_alphas__(n, max_alpha))[0])

def __get_num_parent_instantiations__(parents, num_values):
    num_pa_instantiations = 1
    for pa in parents:
        num_pa_values = num_values[pa]
        num_pa_instantiations *= num_pa_values
    return num_pa_instantiations

def __generate_dirichlet_parameters__(i, parents, num_values, max_alpha=10):
    num_pa_instantiations = __get_num_parent_instantiations__(parents, num_values)
    n = num_values[i]
    cpt = []
    for pa_instantiation in range(num_pa_instantiations):
        probs = __sample_dirichlet__(n, max_alpha)
        cpt.append(probs)
    return np.array(cpt)

def __generate_parameters__(g, max_values=2, max_alpha=10):
    num_nodes = len(list(g.nodes))
    num_values = __generate_num_values__(num_nodes, max_values)
    g_params = {}
    for i in g.nodes:
        parents = sorted(g.predecessors(i))
        params = __generate_dirichlet_parameters__(i, parents, num_values, max_alpha)
        g_params[i] = {'parents': parents, 'params': params, 'shape': [__get_num_parent_instantiations__(parents, num_values), num_values[i]]}
    return g_params

def to_json(g, params, pretty=False):
    j = {'nodes': list(g.nodes), 'edges': [{'pa': e[0], 'ch': e[1]} for e in g.edges], 'parameters': [{'node': k, 'params': list(v['params'].flatten()), 'shape': [int(s) for s in v['shape']]} for k, v in params.items()]}
    return json.dumps(j, indent=2, sort_keys=False) if pretty is True else json.dumps(j)

def generate_multi_bbn(n, max_iter=10, max_values=2, max_alpha=10):
    g = __generate_multi_connected_structure__(n, max_iter)
    p = __generate_parameters__(g, max_values, max_alpha)
    return (g, p)

def generate_singly_bbn(n, max_iter=10, max_values=2, max_alpha=10):
    g = __generate_singly_structure__(n, max_iter)
    p = __generate_parameters__(g, max_values, max_alpha)
    return (g, p)

def convert_for_exact_inference(g, p):
    bbn = Bbn()
    bbn_nodes = {}
    for node in g.nodes:
        id = node
        params = p[id]['params'].flatten()
        states = ['state{}'.format(state) for state in range(p[id]['shape'][1])]
        v = Variable(id, str(id), states)
        n = BbnNode(v, params)
        bbn.add_node(n)
        bbn_nodes[id] = n
    for e in g.edges:
        pa = bbn_nodes[e[0]]
        ch = bbn_nodes[e[1]]
        bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
    return bbn

def convert_for_drawing(bbn):
    g = nx.DiGraph()
    for k, v in bbn.nodes.items():
        g.add_node(v.id)
    for k, e in bbn.edges.items():
        pa = e.i.id
        ch = e.j.id
        g.add_edges_from([(pa, ch, {})])
    return g

def generate_bbn_to_file(n, file_path, bbn_type='singly', max_iter=10, max_values=2, max_alpha=10):
    if bbn_type == 'singly':
        g, p = generate_singly_bbn(n, max_iter, max_values, max_alpha)
    else:
        g, p = generate_multi_bbn(n, max_iter, max_values, max_alpha)
    bbn = convert_for_exact_inference(g, p)
    if file_path.endswith('csv'):
        Bbn.to_csv(bbn, file_path)
    else:
        Bbn.to_json(bbn, file_path)
