"""C16 disorder"""
from common import *
from c02 import cut_for
import c06


def cases(seed, tier):
    q = tier == "quick"
    for k in range(26 if q else 150):
        d = [{"kind": "gas", "n": 210}, {"kind": "bcc", "reps": [5, 5, 5], "noise": .05}, {"kind": "gas", "n": 40}, {"kind": "fcc", "reps": [4, 4, 4]},
             {"kind": "bcc", "reps": [3, 3, 3], "noise": .05}][k % 5]
        yield dict(d, what="disorder", box=["ortho", "tri", "rot"][k % 3 if d["kind"] == "gas" else 0], seed=seed * 1000 + k, types=2,
                   method=["cutoff", "adaptive", "number", "cutoff"][(k // 2) % 4], q=[6, 4, 2, 12, 8, 5, 6][k % 7], avg=bool(k // 2 % 2), filter=[None, "type"][k // 3 % 2])


def run(c, ctx):
    err = []
    r = rng("c16", c["seed"])
    s, box, pos, types = build(c)
    n = s.natoms
    F = Full(s, box, n)
    cut = cut_for(F, 12) if c["kind"] == "gas" else {"fcc": .9, "bcc": 1.2}[c["kind"]]
    c06.find(s, c, cut)
    l = c["q"]
    other = [x for x in c06.ALL if x != l]
    s.calculate_q([l, other[r.randint(len(other))]])
    if r.rand() < .4:
        s.find_solids(bonds=6, q=other[r.randint(len(other))])
    for rep in range(2):
        s.calculate_disorder(averaged=c["avg"], q=l)
        F = Full(s, box, n)
        Q = np.array([a.get_qlm(l) for a in F.atoms])
        nrm = np.sqrt((np.abs(Q) ** 2).sum(1))
        dis = np.array([a.disorder for a in F.atoms])
        for i, a in enumerate(F.atoms):
            nb = np.array(a.neighbors, int)
            if not len(nb):
                continue
            ctx["count"] += 1
            e = (2 - 2 * (Q[i].conj() * Q[nb]).sum(1).real / (nrm[i] * nrm[nb])).mean()
            if not abs(dis[i] - e) < 1e-9:
                if not (np.isnan(e) and np.isnan(dis[i])):
                    err.append("atom %d: disorder %r, expected %r" % (i, dis[i], e))
            if not (-1e-9 <= dis[i] <= 4 + 1e-9) and not np.isnan(dis[i]):
                err.append("atom %d: disorder %r outside [0, 4]" % (i, dis[i]))
            if c["avg"]:
                m = dis[[i] + list(nb)].mean()
                if not abs(a.avg_disorder - m) < 1e-9 and not np.isnan(m):
                    err.append("atom %d: averaged disorder %r, expected %r" % (i, a.avg_disorder, m))
            if len(err) > 3:
                return err
        if c["kind"] == "fcc" and c["method"] == "cutoff" and c["filter"] is None and np.abs(dis).max() > 1e-9 and l in (4, 6, 8, 12):
            err.append("perfect crystal has disorder %r" % np.abs(dis).max())
        l = other[r.randint(len(other))]            # now for another l
        s.calculate_q(l)
    return err
