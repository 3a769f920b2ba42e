"""C17 pair distances and RDF"""
from common import *


def cases(seed, tier):
    q = tier == "quick"
    for k in range(36 if q else 160):
        d = [{"kind": "gas", "n": 210}, {"kind": "gas", "n": 30}, {"kind": "bcc", "reps": [5, 5, 5], "noise": .05}, {"kind": "gas", "n": 7},
             {"kind": "gas", "n": 300}, {"kind": "sc", "reps": [2, 3, 2], "a": 1.3}][k % 6]
        yield dict(d, what="rdf", box=["ortho", "tri", "rot", "left"][k // 2 % 4 if d["kind"] == "gas" else 0], seed=seed * 1000 + k, types=2)
    for k in range(2 if q else 6):
        yield {"what": "ideal", "kind": "gas", "n": [1500, 190, 800][k % 3], "box": ["ortho", "tri"][k % 2], "seed": seed * 7 + k, "types": 1, "aniso": False}


def run(c, ctx):
    err = []
    r = rng("c17", c["seed"])
    s, box, pos, types = build(c)
    n = s.natoms
    F = Full(s, box, n)
    D = distance_matrix(F.pos, F.box)
    d = np.sort(D[np.triu_indices(F.N, 1)])
    vol = abs(np.linalg.det(F.box))
    g = np.sort(np.array(s.get_pairdistances()))
    ctx["count"] += len(d)
    if g.shape != d.shape:
        return ["%d pair distances for %d atoms" % (len(g), F.N)]
    if np.abs(g - d).max() > 1e-8 * np.abs(F.box).max():
        k = int(np.argmax(np.abs(g - d)))
        err.append("pair distance #%d is %r, expected %r" % (k, g[k], d[k]))
    L = np.abs(np.linalg.svd(F.box)[1]).min()
    for rep in range(4):
        kw = {}
        if r.rand() < .75:
            kw["histobins"] = int(r.randint(1, 150))
        if r.rand() < .6:
            kw["histomin"] = float(r.uniform(0, .3 * L))
        if r.rand() < .6:
            kw["histomax"] = float(r.uniform(.35 * L, .6 * L))
        v, x = s.calculate_rdf(**kw)
        v, x = np.array(v), np.array(x)
        nb, lo, hi = kw.get("histobins", 100), kw.get("histomin", 0.0), kw.get("histomax", d.max())
        w = (hi - lo) / nb
        ctx["count"] += nb
        if v.shape != (nb,) or x.shape != (nb,) or np.abs(x - (lo + w * np.arange(nb))).max() > 1e-7 * hi:
            err.append("%s: bins are not those requested: %s" % (kw, x[:3]))
            continue
        e0 = lo + w * np.arange(nb + 1)
        tol = 1e-9 * hi
        shell = 4 / 3. * np.pi * (e0[1:] ** 3 - e0[:-1] ** 3)
        pr = F.N * (F.N - 1) / 2. / vol
        h1 = np.searchsorted(d, e0[1:] - tol) - np.searchsorted(d, e0[:-1] + tol)
        h2 = np.searchsorted(d, e0[1:] + tol) - np.searchsorted(d, e0[:-1] - tol)
        z = v * shell * pr
        bad = (z < h1 - 1e-6 * (1 + h1)) | (z > h2 + 1e-6 * (1 + h2))
        if bad.any():
            k = int(np.where(bad)[0][0])
            err.append("%s: bin %d at r=%r has g=%r, expected %r" % (kw, k, x[k], v[k], h2[k] / shell[k] / pr))
    if c["what"] == "ideal":
        v, x = s.calculate_rdf(histobins=20, histomin=.1 * L, histomax=.45 * L)
        if abs(np.mean(v) - 1) > .15:
            err.append("radial distribution function of an ideal gas is %r" % np.mean(v))
    return err[:4]
