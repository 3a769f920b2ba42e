"""C12 common neighbor analysis; helpers for C13"""
from common import *


def ico_system(m, r, a=3.4):
    """m^3 cells with one icosahedron each, random orientation"""
    p = (1 + 5 ** .5) / 2
    v = []
    for s1 in (1, -1):
        for s2 in (1, -1):
            v += [(0, s1, s2 * p), (s1, s2 * p, 0), (s2 * p, 0, s1)]
    v = np.array(v) / np.sqrt(1 + p * p)
    pos = []
    for c in itertools.product(range(m), repeat=3):
        q, _ = np.linalg.qr(r.normal(size=(3, 3)))
        o = (np.array(c) + .5) * a
        pos += [o] + list(o + v.dot(q))
    return np.diag([m * a] * 3), np.array(pos), np.ones(len(pos), int)


def cases(seed, tier):
    q = tier == "quick"
    for k in range(26 if q else 150):
        d = [{"kind": "fcc", "reps": [4, 4, 4], "noise": .02}, {"kind": "bcc", "reps": [5, 5, 5], "noise": .03}, {"kind": "hcp", "reps": [5, 4, 4], "noise": .02},
             {"kind": "ico"}, {"kind": "fcc", "reps": [4, 4, 4], "remove": 9, "noise": .01}, {"kind": "bcc", "reps": [3, 3, 3], "noise": .01},
             {"kind": "gas", "n": 210}, {"kind": "fcc", "reps": [2, 2, 2]}, {"kind": "bcc", "reps": [5, 5, 5]}, {"kind": "hcp", "reps": [3, 2, 3]},
             {"kind": "gas", "n": 50}, {"kind": "fcc", "reps": [4, 4, 4], "box": "one"}, {"kind": "bcc", "reps": [6, 6, 4], "noise": .06}][k % 13]
        yield dict({"box": "ortho"}, **dict(d, what="cna", shuffle=1, seed=seed * 1000 + k, types=2,
                   mode=["adaptive", "lattice"][(k // 13 + k) % 2], a=[1.0, 3.1, .7][k % 3] if d["kind"] not in ("gas", "ico") else 1.0,
                   scale=[1., .97, 1.04][k % 3], pre=["none", "voronoi", "small", "number"][(k // 2) % 4]))


def signature(P, box, cutoff):
    """signatures of all neighbors at the positions P; None if not decidable by rounding"""
    D = distance_matrix(P, box)
    np.fill_diagonal(D, 1e9)
    if (np.abs(D - cutoff) < 1e-9 * cutoff).any():
        return None
    A = D < cutoff
    sig = []
    for k in range(len(P)):
        cm = np.where(A[k])[0]
        if not len(cm):
            sig.append((0, 0, 0, None))
            continue
        S = A[np.ix_(cm, cm)]
        b = S.sum(1)
        sig.append((len(cm), int(S.sum()) // 2, int(b.max()), int(b.min())))
    return sig


def count(sig, *x):
    return sum(s == x for s in sig)


def label12(sig):
    if len(sig) != 12:
        return None
    f, h, i = count(sig, 4, 2, 1, 1), count(sig, 4, 2, 2, 0), count(sig, 5, 5, 2, 2)
    return 1 if f == 12 else 2 if (f == 6 and h == 6) else 4 if i == 12 else 0


def run(c, ctx):
    err = []
    r = rng("c12", c["seed"])
    if c["kind"] == "ico":
        box, pos, types = ico_system(4, r)
        s = pc.System()
        s.box = box.tolist()
        s.atoms = make_atoms(pos, types)
    else:
        s, box, pos, types = build(c)
    n = s.natoms
    if c["pre"] == "voronoi" and c["box"] == "ortho":
        s.find_neighbors(method="voronoi")
    elif c["pre"] == "small":
        s.find_neighbors(method="cutoff", cutoff=.5)
    elif c["pre"] == "number":
        s.find_neighbors(method="number", nmax=5, threshold=3)
        s.calculate_cna()
    lat = float(np.max(c.get("a", 1.0)) * c["scale"]) if c["mode"] == "lattice" else None
    if c["kind"] == "ico" and lat:
        lat = 1.1 / .854
    res = s.calculate_cna(lattice_constant=lat) if lat else s.calculate_cna()
    F = Full(s, box, n)
    rows = list(range(F.N)) if F.N < 700 else sorted(set(range(n)) | set(int(x) for x in r.randint(0, F.N, 60)))
    lab = {}
    tol = 1e-9 * np.abs(F.box).max()
    for i, d, v in all_rows(F, rows):
        d = d.copy()
        d[i] = 1e99
        o = np.argsort(d, kind="stable")[:16]
        ds = d[o]
        a = F.atoms[i]
        ctx["count"] += 1
        e = None
        amb12 = ds[12] - ds[11] < tol
        amb14 = ds[14] - ds[13] < tol or ds[8] - ds[7] < tol and not (ds[8] - ds[7] == 0)
        c12 = 1.207 * ds[:12].sum() / 12 if not lat else .854 * lat
        c14 = 1.207 * (1.1547 * ds[:8].sum() + ds[8:14].sum()) / 14 if not lat else 1.207 * lat
        s12 = None if amb12 else signature(F.pos[i] + v[o[:12]], F.box, c12)
        s14 = None if ds[14] - ds[13] < tol else signature(F.pos[i] + v[o[:14]], F.box, c14)
        l12 = label12(s12) if s12 else None
        l14 = None
        if s14:
            l14 = 3 if (count(s14, 4, 4, 2, 2) == 6 and count(s14, 6, 6, 2, 2) == 8) else 0
        allowed = {0, 1, 2, 3, 4}
        if s12 and l12:
            allowed = {l12}
        elif s12 and s14:
            allowed = {l14}
        elif s12:
            allowed = {0, 3}
        elif s14:
            allowed = {l14, 1, 2, 4}
            if l14 == 3:
                allowed = {3}
        lab[i] = a.structure
        if a.structure not in allowed:
            err.append("atom %d: structure %d, expected %s" % (i, a.structure, sorted(allowed)))
        # stored signatures of the last analysis
        sig = s12 if a.structure in (1, 2, 4) else s14
        order = o[:12] if a.structure in (1, 2, 4) else o[:14]
        if sig:
            g = [tuple(x) for x in a.cna]
            w = [x if x[0] else (0, 0, 0, x and 8) for x in sig]
            if sorted(g) != sorted(w):
                err.append("atom %d: signatures %s, expected %s" % (i, sorted(g), sorted(w)))
        if len(err) > 3:
            return err
    if F.N != n or len(rows) == F.N:
        cnt = [sum(a.structure == k for a in F.atoms[:n]) for k in range(5)]
        got = [res[k] for k in ("others", "fcc", "hcp", "bcc", "ico")]
        if cnt != got or sum(got) != n:
            err.append("counts %s, but labels occur %s times for %d atoms" % (got, cnt, n))
    if len(res) != 5:
        err.append("unexpected result %s" % res)
    if not c.get("noise") and not c.get("remove") and c["box"] == "ortho" and c["kind"] in ("fcc", "bcc", "hcp"):
        want = {"fcc": 1, "bcc": 3, "hcp": 2}[c["kind"]]
        if not (c["kind"] == "hcp" and lat):
            if any(a.structure != want for a in F.atoms[:n]):
                err.append("perfect %s is not identified: %s" % (c["kind"], res))
    return err
