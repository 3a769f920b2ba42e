"""C11 Voronoi cells"""
from common import *
from scipy.spatial import Voronoi, ConvexHull


def cases(seed, tier):
    q = tier == "quick"
    for k in range(22 if q else 110):
        d = [{"kind": "gas", "n": 207}, {"kind": "gas", "n": 60}, {"kind": "bcc", "reps": [5, 5, 5], "noise": .04}, {"kind": "gas", "n": 215},
             {"kind": "gas", "n": 120, "rho": .3}, {"kind": "fcc", "reps": [4, 4, 4], "noise": .03}, {"kind": "gas", "n": 24}][k % 7]
        yield dict(d, what="voro", box=["ortho", "ortho", "tri", "rot", "ortho", "one", "left", "up"][(k * 3 + k // 8) % 8], types=2, shuffle=1,
                   seed=seed * 1000 + k, exp=[1, 2, 3, 1][k % 4], filter=[None, None, "type", "type_r", None][k % 5],
                   labels=[[1, 2], [3, 1]][k % 2], ec=[.05, .1, 0., .2][(k // 2) % 4], ac=[.01, .05, 0., .1][(k // 3) % 4])


def cells(pos, box):
    """oracle: list of (volume, faces) per atom, a face being (displacement of the neighbor, polygon)"""
    n = len(pos)
    sh = np.array(list(itertools.product((0, -1, 1), repeat=3)))
    sh = sh[np.argsort(np.abs(sh).sum(1), kind="stable")]
    pts = (pos[None] + sh.dot(box)[:, None]).reshape(-1, 3)
    f = pts.dot(np.linalg.inv(box))
    m = 1.1 if n < 100 else .5
    keep = np.all((f > -m) & (f < 1 + m), axis=1)
    keep[:n] = True
    pts = pts[keep]
    V = Voronoi(pts)
    out = [[] for _ in range(n)]
    for q in np.where(V.ridge_points.min(1) < n)[0]:
        a, b = V.ridge_points[q]
        rv = V.ridge_vertices[q]
        if True:
            for x, y in ((a, b), (b, a)):
                if x < n:
                    out[x].append((pts[y] - pts[x], V.vertices[rv] - pts[x]))
    res = []
    for i in range(n):
        vol = ConvexHull(V.vertices[V.regions[V.point_region[i]]]).volume
        res.append((vol, out[i]))
    return res


def area_edges(p):
    e = np.roll(p, -1, axis=0) - p
    c = np.cross(p - p[0], e).sum(0)
    return .5 * np.sqrt((c ** 2).sum()), np.sqrt((e ** 2).sum(1))


def run(c, ctx):
    err = []
    s, box, pos, types = build(c)
    n = s.natoms
    if c["seed"] % 3 == 0:
        s.find_neighbors(method="voronoi", voroexp=1)
    s.find_neighbors(method="voronoi", voroexp=c["exp"], filter=c["filter"])
    F = Full(s, box, n)
    A = s.atoms
    C = cells(pos, box)
    tot = sum(a.volume for a in A)
    V0 = abs(np.linalg.det(box))
    if abs(tot - V0) > 1e-8 * V0:
        err.append("volumes add up to %r, the box has %r" % (tot, V0))
    pairs = []
    if c["filter"] is None:
        s.calculate_vorovector(edge_cutoff=c["ec"], area_cutoff=c["ac"])
    B = s.atoms
    for i, a in enumerate(A):
        vol, faces = C[i]
        ctx["count"] += 1
        if abs(a.volume - vol) > 1e-7 * vol:
            err.append("atom %d: volume %r, expected %r" % (i, a.volume, vol))
        av = np.mean([a.volume] + [F.atoms[j].volume for j in a.neighbors])
        if abs(a.avg_volume - av) > 1e-9 * av:
            err.append("atom %d: averaged volume %r, expected %r" % (i, a.avg_volume, av))
        ar = [area_edges(p)[0] for _, p in faces]
        w = np.array(ar) ** c["exp"]
        w = w / w.sum()
        vec = np.array([v for v, _ in faces])
        gv = np.array(a.neighbor_vector).reshape(-1, 3)
        gw = np.array(a.neighbor_weights)
        gn = np.array(a.neighbors, int)
        if c["filter"] is None and abs(gw.sum() - 1) > 1e-9:
            err.append("atom %d: weights add up to %r" % (i, gw.sum()))
        used = np.zeros(len(gv), bool)
        big = np.array(ar) > 1e-4 * sum(ar)
        for k in range(len(faces)):
            m = np.where(np.abs(gv - vec[k]).max(1) < 1e-7)[0] if len(gv) else []
            # the type of the neighbor decides if there is a filter
            if len(m) == 0:
                if big[k] and c["filter"] is None:
                    err.append("atom %d: Voronoi neighbor at %s is missing" % (i, vec[k].tolist()))
                elif big[k]:
                    f = (pos - pos[i] - vec[k]).dot(np.linalg.inv(box))
                    j = int(np.argmin(np.abs(f - np.round(f)).max(1)))
                    if (types[j] == types[i]) == (c["filter"] == "type"):
                        err.append("atom %d: admissible Voronoi neighbor at %s is missing" % (i, vec[k].tolist()))
                continue
            used[m] = True
            if c["filter"] and (F.types[gn[m[0]]] == types[i]) != (c["filter"] == "type"):
                err.append("atom %d: neighbor of a type not admitted by the filter" % i)
            if len(m) > 1:
                err.append("atom %d: Voronoi neighbor listed twice" % i)
            elif abs(gw[m[0]] - w[k]) > 1e-6:
                err.append("atom %d: weight of neighbor at %s is %r, expected %r" % (i, vec[k].tolist(), gw[m[0]], w[k]))
        if (gw[~used] > 1e-5).any():
            err.append("atom %d: %d neighbors are no Voronoi neighbors" % (i, (~used).sum()))
        d = np.sqrt((gv ** 2).sum(1))
        if len(gv) and (np.abs(d - a.neighbor_distance).max() > 1e-9 or np.abs(F.pos[gn] - F.pos[i] - gv).dot(np.linalg.inv(F.box)).size == 0):
            err.append("atom %d: distances and vectors of the neighbors do not agree" % i)
        f = (F.pos[gn] - F.pos[i] - gv).dot(np.linalg.inv(F.box)) if len(gn) else np.zeros((0, 3))
        if len(f) and np.abs(f - np.round(f)).max() > 1e-7:
            err.append("atom %d: neighbor vectors do not lead to the neighbors" % i)
        for j, x in zip(gn, gw):
            pairs.append((i, int(j), x))
        vv = np.array(a.vertex_vectors).reshape(-1, 3)
        vp = np.array(a.vertex_positions).reshape(-1, 3)
        if vv.shape != vp.shape or np.abs(vp - vv - np.array(a.pos)).max() > 1e-9:
            err.append("atom %d: vertex positions are not the vertices of the cell" % i)
        if c["filter"] is None:
            # Voronoi vector from the cells of the oracle
            cnt = [0, 0, 0, 0]
            sure = True
            for k, (_, p) in enumerate(faces):
                _, e = area_edges(p)
                e = e / e.sum()
                if abs(w[k] - c["ac"]) < 1e-7 or (np.abs(e - c["ec"]) < 1e-7).any():
                    sure = False
                if w[k] > c["ac"]:
                    x = int((e > c["ec"]).sum())
                    if 3 <= x <= 6:
                        cnt[x - 3] += 1
            if sure and list(B[i].vorovector) != cnt:
                err.append("atom %d: Voronoi vector %s, expected %s" % (i, B[i].vorovector, cnt))
            pe = sorted(sum(e) for e in B[i].edge_lengths)
            po = sorted(area_edges(p)[1].sum() for _, p in faces)
            if len(pe) == len(po) and np.abs(np.array(pe) - po).max() > 1e-6:
                err.append("atom %d: edge lengths do not belong to the faces of the cell" % i)
            fp = sorted(B[i].face_perimeters)
            if len(fp) == len(po) and np.abs(np.array(fp) - po).max() > 1e-6:
                err.append("atom %d: face perimeters are wrong" % i)
        if len(err) > 3:
            return err
    if F.N == n:
        P = set((i, j) for i, j, _ in pairs)
        for i, j, x in pairs:
            if x > 1e-5 and (j, i) not in P:
                err.append("atom %d is a Voronoi neighbor of %d, but not the other way" % (j, i))
                break
    return err
