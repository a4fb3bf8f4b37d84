# target: pybbn/generator/bbngenerator.py
def __get_simple_ordered_tree__(n):
    g = nx.DiGraph()
    for i in range(n):
        g.add_node(i)
    for i in range(1, n):
        g.add_edge(i - 1, i)
    return g


def __convert_to_undirected_graph__(g):
    u = nx.Graph()
    for n in g.nodes:
        u.add_node(n)
    for pa, ch in g.edges:
        u.add_edge(pa, ch)
    return u


def __is_connected__(g):
    return nx.is_connected(__convert_to_undirected_graph__(g))


def __get_random_node_pair__(n):
    i = np.random.randint(0, n)
    j = i
    while i == j:
        j = np.random.randint(0, n)
    return i, j


def __edge_exists__(i, j, g):
    return j in g.successors(i)


def __del_edge__(i, j, g):
    if not g.has_edge(i, j):
        return
    g.remove_edge(i, j)
    if not __is_connected__(g):
        g.add_edge(i, j)


def __add_edge__(i, j, g):
    g.add_edge(i, j)
    if not is_directed_acyclic_graph(g):
        g.remove_edge(i, j)


def __find_predecessor__(i, j, g):
    u = __convert_to_undirected_graph__(g)
    for pa in list(g.predecessors(j)):
        try:
            shortest_path(u, pa, i)
        except nx.NetworkXNoPath:
            continue
        return pa
    return None


def __generate_multi_connected_structure__(n, max_iter=10):
    g = __get_simple_ordered_tree__(n)
    for _ in range(max_iter):
        i, j = __get_random_node_pair__(n)
        change = __del_edge__ if g.has_edge(i, j) else __add_edge__
        change(i, j, g)
    return g


def __flip_edge__(i, j, k, g):
    p = np.random.random()
    new_edge = (j, i) if p < 0.5 else (i, j)
    g.remove_edge(k, j)
    g.add_edges_from([(new_edge[0], new_edge[1], {})])
    if __is_connected__(g) is False:
        g.add_edges_from([(k, j, {})])
        g.remove_edge(new_edge[0], new_edge[1])


def __generate_singly_structure__(n, max_iter=10):
    g = __get_simple_ordered_tree__(n)
    for it in range(max_iter):
        i, j = __get_random_node_pair__(n)
        if g.has_edge(i, j) or g.has_edge(j, i):
            continue
        p = np.random.random()
        k = __find_predecessor__(i, j, g)
        if k is None:
            continue
        g.remove_edge(k, j)
        a, b = (j, i) if p < 0.5 else (i, j)
        g.add_edges_from([(a, b, {})])
        if __is_connected__(g) is False:
            g.add_edges_from([(k, j, {})])
            g.remove_edge(a, b)
    return g


def __generate_num_values__(n, max_values=2):
    values = []
    for _ in range(n):
        values.append(max(np.random.randint(0, max_values) + 1, 2))
    return np.array(values)


def __generate_alphas__(n, max_alpha=10):
    alphas = []
    for _ in range(n):
        alphas.append(np.random.randint(1, max_alpha + 1))
    return alphas


def __sample_dirichlet__(n, max_alpha=10):
    alphas = __generate_alphas__(n, max_alpha)
    samples = dirichlet.rvs(alphas)
    return np.array(samples[0])


def __get_num_parent_instantiations__(parents, num_values):
    total = 1
    for pa in parents:
        total *= num_values[pa]
    return total


def __generate_dirichlet_parameters__(i, parents, num_values, max_alpha=10):
    rows = __get_num_parent_instantiations__(parents, num_values)
    return np.array([__sample_dirichlet__(num_values[i], max_alpha) for _ in range(rows)])


def __generate_parameters__(g, max_values=2, max_alpha=10):
    num_values = __generate_num_values__(len(g.nodes), max_values)
    g_params = {}
    for node in g.nodes:
        parents = sorted(g.predecessors(node))
        shape = [__get_num_parent_instantiations__(parents, num_values), num_values[node]]
        g_params[node] = {
            "parents": parents,
            "params": __generate_dirichlet_parameters__(node, parents, num_values, max_alpha),
            "shape": shape,
        }
    return g_params


def __parameter_to_dict__(node, v):
    return {"node": node, "params": list(v["params"].flatten()), "shape": [int(s) for s in v["shape"]]}


def to_json(g, params, pretty=False):
    parameters = []
    for k, v in params.items():
        parameters.append(__parameter_to_dict__(k, v))
    edges = [{"pa": pa, "ch": ch} for pa, ch in g.edges]
    j = {"nodes": list(g.nodes), "edges": edges, "parameters": parameters}
    if pretty is True:
        return json.dumps(j, indent=2, sort_keys=False)
    return json.dumps(j)


def convert_for_exact_inference(g, p):
    bbn = Bbn()
    nodes = {}
    for node_id in g.nodes:
        params = p[node_id]["params"].flatten()
        states = [f"state{s}" for s in range(p[node_id]["shape"][1])]
        node = BbnNode(Variable(node_id, str(node_id), states), params)
        nodes[node_id] = node
        bbn.add_node(node)
    for pa, ch in g.edges:
        bbn.add_edge(Edge(nodes[pa], nodes[ch], EdgeType.DIRECTED))
    return bbn


def convert_for_drawing(bbn):
    g = nx.DiGraph()
    for node in bbn.nodes.values():
        g.add_node(node.id)
    for edge in bbn.edges.values():
        g.add_edge(edge.i.id, edge.j.id)
    return g


def generate_bbn_to_file(n, file_path, bbn_type="singly", max_iter=10, max_values=2, max_alpha=10):
    generate = generate_singly_bbn if bbn_type == "singly" else generate_multi_bbn
    g, p = generate(n, max_iter, max_values, max_alpha)
    bbn = convert_for_exact_inference(g, p)
    if not file_path.endswith("csv"):
        Bbn.to_json(bbn, file_path)
    else:
        Bbn.to_csv(bbn, file_path)
