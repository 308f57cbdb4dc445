"""C25: mesh queries interleaved over many meshes, against brute force."""
import gc
import numpy as np
import gen

RULE = "distinct (query, mesh kind and cells, shape of the argument, size of the answer) answers judged"
TIME = {"quick": 240, "thorough": 660}
SHARDS = {"quick": 8, "thorough": 8}
REQUIRE = {"elements-of-nodes": 1000, "node-neighbours": 100, "face-neighbours": 60, "points-in-range": 300, "mesh-in-range": 200,
           "same-answer-again": 1000, "arguments-unchanged": 1000}


def brute_elements(t, nodes):
    want = set(int(n) for n in np.ravel(nodes))
    return [e for e in range(t.shape[1]) if want & set(int(n) for n in t[:, e])]


def brute_neighbours(t, k):
    """Pairs of different elements that share at least k nodes."""
    sets = [set(map(int, c)) for c in t.T]
    return {(a, b) for a in range(len(sets)) for b in range(len(sets)) if a != b and len(sets[a] & sets[b]) >= k}


def small(rng):
    mesh, info = gen.random_mesh(rng, 60)
    how = int(rng.integers(4))
    p, t = mesh.p, mesh.t
    if how == 1:        # another numbering
        perm = rng.permutation(p.shape[1])
        p, t = p[:, perm], np.argsort(perm)[t]
    if how == 2:        # a body with gaps: some elements left out
        keep = np.sort(rng.choice(t.shape[1], max(2, int(0.6 * t.shape[1])), replace=False))
        t = t[:, keep]
        used = np.unique(t)
        new = -np.ones(p.shape[1], int)
        new[used] = np.arange(len(used))
        p, t = p[:, used], new[t]
    if how == 3:        # two bodies
        p = np.hstack([p, p + np.ptp(p, axis=1)[:, None] * 2])
        t = np.hstack([t, t + mesh.p.shape[1]])
    return type(mesh)(np.ascontiguousarray(p), np.ascontiguousarray(t)), {**info, "layout": how}


def node_sets(rng, n):
    k = int(rng.integers(7))
    a = rng.choice(n, int(rng.integers(1, n + 1)), replace=False)
    if k == 0:
        return a, "array"
    if k == 1:
        return a.astype(np.int32), "int32"
    if k == 2:
        return np.concatenate([a, a[::-1]]), "repeated"
    if k == 3:
        return [a[: len(a) // 2 + 1], rng.choice(n, 2)], "list of arrays"
    if k == 4:
        return np.arange(n, dtype=np.int64), "all"
    if k == 5:
        return np.array([int(rng.integers(n))]), "one"
    return [np.array([int(rng.integers(n))])], "list of one"


def ask_nodes(m, rng, mesh, info):
    from sktopt.mesh import utils
    arg, how = node_sets(rng, mesh.nvertices)
    keep = [x.copy() for x in arg] if isinstance(arg, list) else arg.copy()
    t0 = mesh.t.copy()
    got = utils.get_elements_by_nodes(mesh, arg)
    flat = np.concatenate(arg) if isinstance(arg, list) else arg
    want = brute_elements(t0, flat)
    m.ok(isinstance(got, np.ndarray) and got.dtype.kind == "i" and got.tolist() == want, "elements-of-nodes",
         argument=how, got=got[:8], want=want[:8], n=(len(got), len(want)))
    same = all(np.array_equal(a, b) for a, b in zip(arg, keep)) if isinstance(arg, list) else np.array_equal(arg, keep)
    m.ok(same and np.array_equal(mesh.t, t0), "arguments-unchanged", argument=how)
    first = got.copy()
    got[...] = -1       # a caller may write into the answer
    m.equal(utils.get_elements_by_nodes(mesh, arg), first, "same-answer-again", argument=how)
    m.seen("nodes", info["kind"], info["cells"], info["layout"], how, len(first))
    return lambda: m.equal(utils.get_elements_by_nodes(mesh, arg), first, "same-answer-again", later=True)


def ask_neighbours(m, rng, mesh, info):
    from sktopt.mesh import utils
    want = brute_neighbours(mesh.t, 1)
    A = utils.build_element_adjacency_matrix(mesh)
    B = utils.build_element_adjacency_matrix_fast(mesh)
    n = mesh.nelements
    for M, name in ((A, "matrix"), (B, "fast matrix")):
        r, c = M.nonzero()
        got = {(int(a), int(b)) for a, b in zip(r, c) if a != b}
        m.ok(M.shape == (n, n) and got == want, "node-neighbours", how=name, extra=len(got - want), missing=len(want - got))
    B0 = B.copy()
    for _ in range(3):
        idx = rng.choice(n, int(rng.integers(1, max(2, n // 3))), replace=bool(rng.random() < 0.3))
        exp = sorted({b for a, b in want if a in set(idx.tolist())} - set(idx.tolist()))
        arg = idx if rng.random() < 0.5 else idx.tolist()
        for _ in range(2):
            m.ok([int(e) for e in utils.get_adjacent_elements(mesh, arg)] == exp, "node-neighbours", how="of elements", n=len(exp))
            m.ok([int(e) for e in utils.get_adjacent_elements_fast(B, arg)] == exp, "node-neighbours", how="of elements, fast")
        m.ok(list(arg) == list(idx) and (B != B0).nnz == 0, "arguments-unchanged")
    m.seen("neighbours", info["kind"], info["cells"], info["layout"], len(want))


def ask_faces(m, rng, mesh, info):
    from sktopt.fea import composer
    if mesh.t.shape[0] != 4:
        return
    want = brute_neighbours(mesh.t, 3)
    for _ in range(2):
        adj = composer.adjacency_matrix(mesh)
        got = {(i, int(j)) for i, row in enumerate(adj) for j in row}
        m.ok(len(adj) == mesh.nelements and got == want and sum(len(r) for r in adj) == len(want), "face-neighbours",
             extra=len(got - want), missing=len(want - got))
    m.ok(all((b, a) in got for a, b in got), "face-neighbours", what="symmetric")
    m.seen("faces", info["cells"], info["layout"], len(want))


def interval(rng, c):
    """A range, often ending exactly on coordinates."""
    v = np.sort(rng.choice(c, 2))
    k = int(rng.integers(5))
    if k == 0:
        return float(v[0]), float(v[1])
    if k == 1:
        return float(c.min()) - 1, float(c.max()) + 1
    if k == 2:
        return float(v[0]), float(v[0])
    if k == 3:
        return float(np.nextafter(v[0], np.inf)), float(v[1])
    return tuple(sorted(float(x) for x in rng.uniform(c.min(), c.max(), 2)))


def ask_range(m, rng, mesh, info):
    from sktopt.mesh import utils
    p = mesh.p
    R = [interval(rng, p[k]) for k in range(3)]
    if rng.random() < 0.3:
        R = [list(x) if rng.random() < 0.5 else np.array(x) for x in R]
    inside = utils.get_points_in_range(*R)
    want = np.array([all(R[k][0] <= p[k, n] <= R[k][1] for k in range(3)) for n in range(p.shape[1])])
    p0 = p.copy()
    m.equal(inside(p), want, "points-in-range", n=int(want.sum()))
    shaped = p[:, mesh.t]        # (3, corners, elements)
    m.equal(inside(shaped), want[mesh.t], "points-in-range", shape="3d")
    m.ok(np.array_equal(p, p0), "arguments-unchanged")
    mid = p[:, mesh.facets].mean(axis=1)
    b = set(mesh.boundary_facets().tolist())

    def judge(what, got, centres, allowed=None):
        # centres on the edge of the range may round either way
        s = 1e-12 * (np.abs(centres).max() + 1)
        lo = {i for i in range(centres.shape[1]) if all(R[k][0] + s <= centres[k, i] <= R[k][1] - s for k in range(3))}
        hi = {i for i in range(centres.shape[1]) if all(R[k][0] - s <= centres[k, i] <= R[k][1] + s for k in range(3))}
        if allowed is not None:
            lo, hi = lo & allowed, hi & allowed
        g = {int(x) for x in got}
        m.ok(lo <= g <= hi and len(g) == len(got), "mesh-in-range", what=what, got=len(g), least=len(lo), most=len(hi))
    judge("boundary facets", mesh.facets_satisfying(inside, boundaries_only=True), mid, b)
    judge("facets", mesh.facets_satisfying(inside), mid)
    judge("elements", mesh.elements_satisfying(inside), p[:, mesh.t].mean(axis=1))
    m.equal(np.sort(mesh.nodes_satisfying(inside)), np.nonzero(want)[0], "points-in-range", how="nodes of the mesh")
    m.seen("range", info["kind"], info["layout"], int(want.sum()))


def one(m, i):
    rng = m.rng("session", i)
    alive, again = [], []
    with m.case(f"session-{i}"):
        for step in range(int(rng.integers(6, 16))):
            if not alive or rng.random() < 0.4:
                mesh, info = small(rng)
                alive.append((mesh, info))
            mesh, info = alive[int(rng.integers(len(alive)))]
            for _ in range(int(rng.integers(1, 4))):
                again.append(ask_nodes(m, rng, mesh, info))
            x = rng.random()
            if x < 0.25:
                ask_neighbours(m, rng, mesh, info)
            elif x < 0.5:
                ask_faces(m, rng, mesh, info)
            else:
                ask_range(m, rng, mesh, info)
            if rng.random() < 0.3:
                [f() for f in again]
            if rng.random() < 0.35 and len(alive) > 0:      # meshes go away and others take their place
                again.clear()
                alive.pop(int(rng.integers(len(alive))))
                del mesh
                gc.collect()
                m.tally("meshes collected")
        m.seen("session", len(alive))


def reused_memory(m, i):
    """Meshes created and dropped in quick succession, so that their memory is
    used again, asked the same thing."""
    from sktopt.mesh import utils
    rng = m.rng("reuse", i)
    ids, hits = set(), 0
    with m.case(f"reuse-{i}"):
        for _ in range(30):
            mesh, _ = small(rng)
            nodes = np.array([0, 1])
            hits += (id(mesh), id(mesh.t)) in ids or id(mesh) in {a for a, _b in ids}
            ids.add((id(mesh), id(mesh.t)))
            got = utils.get_elements_by_nodes(mesh, nodes)
            m.ok(got.tolist() == brute_elements(mesh.t, nodes), "elements-of-nodes", what="memory used again")
            del mesh
    m.tally("meshes at a used address", hits)


def run(m):
    for i in range(m.pick(80, 2500)):
        if m.mine(i) and not m.out_of_time():
            one(m, i)
    for i in range(m.pick(16, 200)):
        if m.mine(i) and not m.out_of_time():
            reused_memory(m, i)
