# target: pybbn/causality/do.py
def get_undirected_graph(d):
    u = nx.Graph()
    u.add_nodes_from(d.nodes())
    u.add_edges_from(d.edges())
    return u


def get_graph(d):
    return Graph(u=get_undirected_graph(d), d=d)


def get_path_triplets(path):
    if len(path) < 3:
        return [path]
    return [path[i : i + 3] for i in range(len(path) - 2)]


def get_triplet_type(g, x, z, y):
    def points(a, b):
        return g.d.has_edge(a, b)

    if points(x, z) and points(z, y):
        return "serial"
    if points(y, z) and points(z, x):
        return "serial"
    if points(z, x) and points(z, y):
        return "diverging"
    if points(x, z) and points(y, z):
        return "converging"
    raise Exception(f"cannot determine triplet configuration: x={x}, z={z}, y={y}")


def is_active_triplet(g, x, z, y, evidence=set()):
    if get_triplet_type(g, x, z, y) in {"serial", "diverging"}:
        return z not in evidence
    z_set = nx.descendants(g.d, z) | {z}
    return len(z_set & evidence) > 0


def is_active_path(g, path, evidence=set()):
    if len(path) < 3:
        return path[0] not in evidence and path[-1] not in evidence
    return all(is_active_triplet(g, x, z, y, evidence) for x, z, y in get_path_triplets(path))


def get_colliders(g, path):
    if len(path) < 3:
        return []
    colliders = []
    for x, z, y in get_path_triplets(path):
        if get_triplet_type(g, x, z, y) == "converging":
            colliders.append(z)
    return colliders


def _get_path_metadata(g, x, y, p):
    colliders = get_colliders(g, p)
    return {
        "x": x,
        "y": y,
        "z": list(set(p) - {x, y} - set(colliders)),
        "path": p,
        "is_active": is_active_path(g, p),
        "colliders": colliders,
        "backdoor": g.d.has_edge(p[1], p[0]),
        "frontdoor": g.d.has_edge(p[0], p[1]),
    }


def get_paths(g, x, y):
    return [_get_path_metadata(g, x, y, p) for p in get_all_paths(g, x, y)]


def get_all_confounders(g, x, y):
    paths = get_paths(g, x, y)
    exclude = {x, y} | nx.descendants(g.d, x)
    for p in paths:
        if p["is_active"] is False and p["backdoor"] is True:
            exclude.update(p["colliders"])
    candidates = set()
    for p in paths:
        if p["is_active"] is True and p["backdoor"] is True:
            candidates.update(n for n in p["path"] if n not in exclude)
    return candidates


def find_minimal_confounders(g, path, x, y, z):
    for c in z:
        if not is_active_path(g, path, [c]):
            return [c]
    return []


def get_minimal_confounders(g, x, y):
    descendants = nx.descendants(g.d, x)
    confounders = set()
    for p in get_paths(g, x, y):
        if p["is_active"] is True and p["backdoor"] is True:
            candidates = [z for z in p["z"] if z not in descendants]
            confounders.update(find_minimal_confounders(g, p["path"], x, y, candidates))
    return list(confounders)


def find_minimal_mediator(g, path, x, y, z):
    candidates = set(path) - ({x, y} | set(get_colliders(g, path)))
    for candidate in candidates:
        if not is_active_path(g, path, [candidate]):
            return [candidate]
    return []


def get_minimal_mediators(g, x, y):
    all_paths = get_paths(g, x, y)
    mediators = set()
    colliders = set()
    for p in all_paths:
        colliders.update(p["colliders"])
        if p["is_active"] is True and p["frontdoor"] is True:
            mediators.update(find_minimal_mediator(g, p["path"], x, y, p["z"]))
    return list(mediators - colliders)
