"""C19 angular and chi parameters"""
from common import *
from c02 import cut_for
import c06

BINS = [-1.0, -0.945, -0.915, -0.755, -0.705, -0.195, 0.195, 0.245, 0.795, 1.0]


def cases(seed, tier):
    q = tier == "quick"
    for k in range(32 if q else 160):
        d = [{"kind": "gas", "n": 210}, {"kind": "dia", "reps": [3, 3, 3], "noise": .02}, {"kind": "gas", "n": 40}, {"kind": "bcc", "reps": [5, 5, 5]},
             {"kind": "dia", "reps": [2, 2, 2]}, {"kind": "fcc", "reps": [4, 4, 4], "noise": .03}, {"kind": "dia", "reps": [3, 3, 3]}][k % 7]
        yield dict(d, what="angles", box=["ortho", "tri", "rot"][k % 3 if d["kind"] == "gas" else 0], seed=seed * 1000 + k, types=2, shuffle=1,
                   method=["cutoff", "number", "sann", "adaptive", "voronoi"][k % 5], filter=None)


def run(c, ctx):
    err = []
    r = rng("c19", c["seed"])
    s, box, pos, types = build(c)
    n = s.natoms
    F = Full(s, box, n)
    cut = cut_for(F, 14) if c["kind"] == "gas" else {"dia": .75, "bcc": 1.1, "fcc": .85}[c["kind"]]
    if c["method"] == "voronoi" and c["box"] != "ortho":
        c = dict(c, method="number")
    c06.find(s, c, cut)
    s.calculate_q([6])
    F = Full(s, box, n)
    enough = all(a.coordination >= 4 for a in F.atoms[:n])
    before = [(a.pos, a.id, a.type, a.neighbors, a.neighbor_distance, a.neighbor_vector, a.get_q(6), a.cutoff, a.neighbor_weights, a.local_angles) for a in F.atoms]
    if enough:
        s.calculate_angularcriteria()
        for i, a in enumerate(s.atoms):
            ctx["count"] += 1
            d = np.array(a.neighbor_distance)
            o = np.argsort(d, kind="stable")
            if len(d) > 4 and d[o[4]] - d[o[3]] < 1e-9:
                continue
            nb = np.array(a.neighbors)[o[:4]]
            v = minimg(F.pos[nb] - F.pos[i], F.box)
            u = v / np.sqrt((v ** 2).sum(1))[:, None]
            e = sum((u[x].dot(u[y]) + 1 / 3.) ** 2 for x in range(4) for y in range(x))
            if abs(a.angular - e) > 1e-8:
                err.append("atom %d: angular parameter %r, expected %r" % (i, a.angular, e))
    ang = bool(r.rand() < .5)
    s.calculate_chiparams(angles=ang)
    for i, a in enumerate(s.atoms):
        nb = np.array(a.neighbors, int)
        k = len(nb)
        chi = np.array(a.chiparams)
        ctx["count"] += 1
        if chi.shape != (9,):
            err.append("atom %d: chi parameters %s" % (i, chi))
            continue
        if k < 2:
            if chi.any():
                err.append("atom %d: chi parameters %s for %d neighbors" % (i, chi, k))
            continue
        v = minimg(F.pos[nb] - F.pos[i], F.box)
        u = v / np.sqrt((v ** 2).sum(1))[:, None]
        x = u.dot(u.T)[np.triu_indices(k, 1)]
        lost = k * (k - 1) // 2 - chi.sum()
        edge = int((np.abs(x) > 1 - 1e-9).sum())
        if lost < 0 or lost > edge:
            err.append("atom %d: %d chi entries for %d neighbors" % (i, chi.sum(), k))
        elif lost:
            ctx["known"]["chi-rounding"] = "System.calculate_chiparams drops angles whose cosine is rounded beyond +-1"
        lo = [((x > BINS[b] + 1e-9) & (x < BINS[b + 1] - 1e-9)).sum() for b in range(9)]
        hi = [((x > BINS[b] - 1e-9) & (x < BINS[b + 1] + 1e-9)).sum() for b in range(9)]
        if (chi < lo).any() or (chi > hi).any():
            err.append("atom %d: chi parameters %s, expected %s" % (i, chi, hi))
        if ang:
            cs = np.array(a.custom["cosines"])
            if cs.shape != x.shape or np.abs(np.sort(cs) - np.sort(x)).max() > 1e-8:
                err.append("atom %d: stored cosines are wrong" % i)
    after = [(a.pos, a.id, a.type, a.neighbors, a.neighbor_distance, a.neighbor_vector, a.get_q(6), a.cutoff, a.neighbor_weights, a.local_angles) for a in s.get_all_atoms()]
    if repr(before) != repr(after):
        err.append("positions, neighbors or q values were modified")
    return err[:4]
