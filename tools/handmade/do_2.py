# target: pybbn/causality/do.py
def get_undirected_graph(d):
    u = nx.Graph()
    for node in list(d.nodes()):
        u.add_node(node)
    for edge in d.edges():
        u.add_edge(edge[0], edge[1])
    return u


def get_triplet_type(g, x, z, y):
    x_children = set(g.d.successors(x))
    y_children = set(g.d.successors(y))
    z_children = set(g.d.successors(z))
    forward = z in x_children and y in z_children
    backward = z in y_children and x in z_children
    if forward or backward:
        return "serial"
    if x in z_children and y in z_children:
        return "diverging"
    if z in x_children and z in y_children:
        return "converging"
    raise Exception(f"cannot determine triplet configuration: x={x}, z={z}, y={y}")


def is_active_triplet(g, x, z, y, evidence=set()):
    triplet_type = get_triplet_type(g, x, z, y)
    if triplet_type == "converging":
        observed = nx.descendants(g.d, z)
        observed.add(z)
        return bool(observed & evidence)
    return not z in evidence


def is_active_path(g, path, evidence=set()):
    if len(path) < 3:
        return not (path[0] in evidence or path[-1] in evidence)
    for triplet in get_path_triplets(path):
        x, z, y = triplet
        if not is_active_triplet(g, x, z, y, evidence):
            return False
    return True


def _flatten(lists):
    return set(itertools.chain(*lists))


def _is_open_backdoor(p):
    return p["is_active"] is True and p["backdoor"] is True


def get_all_confounders(g, x, y):
    paths = get_paths(g, x, y)
    colliders = _flatten(p["colliders"] for p in paths if p["is_active"] is False and p["backdoor"] is True)
    exclude = colliders | nx.descendants(g.d, x) | {x, y}
    return _flatten([n for n in p["path"] if n not in exclude] for p in paths if _is_open_backdoor(p))


def get_minimal_confounders(g, x, y):
    descendants = nx.descendants(g.d, x)
    confounders = []
    for p in get_paths(g, x, y):
        if not _is_open_backdoor(p):
            continue
        z = [n for n in p["z"] if n not in descendants]
        confounders.append(find_minimal_confounders(g, p["path"], x, y, z))
    return list(_flatten(confounders))


def get_minimal_mediators(g, x, y):
    all_paths = get_paths(g, x, y)
    frontdoor = [p for p in all_paths if p["is_active"] is True and p["frontdoor"] is True]
    mediators = _flatten(find_minimal_mediator(g, p["path"], x, y, p["z"]) for p in frontdoor)
    colliders = _flatten(p["colliders"] for p in all_paths)
    return list(mediators - colliders)
