"""C14 centrosymmetry"""
from common import *
from c02 import cut_for


def cases(seed, tier):
    q = tier == "quick"
    for k in range(32 if q else 200):
        d = [{"kind": "fcc", "reps": [4, 4, 4]}, {"kind": "gas", "n": 210}, {"kind": "bcc", "reps": [5, 5, 5]}, {"kind": "gas", "n": 60},
             {"kind": "fcc", "reps": [4, 4, 4], "noise": .05}, {"kind": "bcc", "reps": [2, 2, 2], "noise": .1}, {"kind": "gas", "n": 12}, {"kind": "hcp", "reps": [4, 3, 4]}][k % 8]
        yield dict(d, what="csm", box=["ortho", "tri", "rot", "left"][k % 4 if d["kind"] == "gas" else 0], seed=seed * 1000 + k, types=2, remove=k % 3,
                   nmax=[12, 8, 2, 14, 4, 6, 10, 20][(k // 2) % 8] if d["kind"] == "gas" or d.get("noise") else {"fcc": 12, "bcc": [8, 14][k // 8 % 2], "hcp": 12}[d["kind"]],
                   pre=["none", "voronoi", "cutoff", "csm", "type"][(k // 3) % 5])


def run(c, ctx):
    err = []
    r = rng("c14", c["seed"])
    s, box, pos, types = build(c)
    n = s.natoms
    nmax = c["nmax"]
    if c["pre"] == "voronoi" and c["box"] == "ortho":
        s.find_neighbors(method="voronoi", voroexp=2)
    elif c["pre"] == "cutoff":
        s.find_neighbors(method="cutoff", cutoff=.9)
    elif c["pre"] == "type":
        s.find_neighbors(method="cutoff", cutoff=.9, filter="type")
    elif c["pre"] == "csm":
        s.calculate_centrosymmetry(nmax=nmax + 2)
    v = s.calculate_centrosymmetry(nmax=nmax)
    F = Full(s, box, n)
    if len(v) != n:
        return ["%d values for %d atoms" % (len(v), n)]
    tol = 1e-9 * np.abs(F.box).max()
    rows = list(range(F.N)) if F.N < 300 else sorted(set(range(n)) | set(int(x) for x in r.randint(0, F.N, 50)))
    iu = np.triu_indices(nmax, 1)
    for i, d, vec in all_rows(F, rows):
        d = d.copy()
        d[i] = 1e99
        o = np.argpartition(d, nmax + 1)[:nmax + 1]
        o = o[np.argsort(d[o])]
        ctx["count"] += 1
        g = F.atoms[i].centrosymmetry
        if i < n and g != v[i]:
            err.append("atom %d: returned %r, stored %r" % (i, v[i], g))
        if not g >= 0:
            err.append("atom %d: negative value %r" % (i, g))
        if d[o[nmax]] - d[o[nmax - 1]] < tol:
            continue
        w = vec[o[:nmax]]
        e = np.sort(((w[iu[0]] + w[iu[1]]) ** 2).sum(1))[:nmax // 2].sum()
        if abs(g - e) > 1e-8 * (1 + e):
            err.append("atom %d: centrosymmetry %r, expected %r" % (i, g, e))
        if len(err) > 3:
            return err
    if c["kind"] in ("fcc", "bcc") and not c.get("noise") and not c.get("remove"):
        if max(v) > 1e-10:
            err.append("perfect %s has centrosymmetry %r" % (c["kind"], max(v)))
    return err
