"""C08 solid bonds and solid atoms"""
from common import *
from c02 import cut_for
import c06


def cases(seed, tier):
    q = tier == "quick"
    for k in range(26 if q else 150):
        d = [{"kind": "bcc", "reps": [5, 5, 5], "cut": 1.25}, {"kind": "fcc", "reps": [4, 4, 4], "cut": .87},
             {"kind": "gas", "n": 220}, {"kind": "bcc", "reps": [3, 3, 3], "cut": 1.2}, {"kind": "gas", "n": 40}][k % 5]
        yield dict(d, what="solid", box=["ortho", "tri", "rot"][k % 3 if d["kind"] == "gas" else 0], noise=[.1, .07, .14][k % 3], remove=k % 4,
                   seed=seed * 1000 + k, types=2, method=["cutoff", "adaptive", "number", "cutoff", "sann"][(k // 5) % 5],
                   q=[6, 4, 2, 12, 8, 6, 5, 6, 3][k % 9], cond="none")


def run(c, ctx):
    err = []
    r = rng("c08", c["seed"])
    s, box, pos, types = build(c)
    F = Full(s, box, s.natoms)
    cut = c.get("cut") or cut_for(F, 12)
    c06.find(s, c, cut)
    if r.rand() < .5:           # values of other l, and for another l, are already there
        s.calculate_q([int(x) for x in r.permutation(c06.ALL)[:3]])
    l = c["q"]
    for rep in range(5):
        right = bool(r.rand() < .6)
        th = [.5, float(round(r.uniform(0, 1), 3)), 0, 1, .7][r.randint(5)]
        av = [.6, float(round(r.uniform(0, 1), 3)), 0, 1, .4][r.randint(5)]
        b = [float(r.randint(0, 11) / 10.), int(r.randint(0, 13)), .5, 0, 1.0, 0.0][r.randint(6)]
        kw = dict(bonds=b, threshold=th, avgthreshold=av, q=l, right=right, cluster=bool(r.rand() < .5))
        if rep == 0:
            kw.update(threshold=.5, avgthreshold=.5, bonds=[6, .5][r.randint(2)], right=True)
            th, av, b, right = .5, .5, kw["bonds"], True
        s.find_solids(**kw)
        tag = "%s: " % kw
        F = Full(s, box, s.natoms)
        Q = np.array([a.get_qlm(l) for a in F.atoms])
        if rep == 0:
            rows = sorted(set(int(x) for x in r.randint(0, F.N, 20)))
            O = c06.qlm_all(F, l, np.zeros(F.N), rows)
            for i in rows:
                if O[i] is not None and np.abs(O[i] - Q[i]).max() > 1e-7:
                    err.append(tag + "atom %d: components for l=%d are not up to date" % (i, l))
        nrm = np.sqrt((np.abs(Q) ** 2).sum(1))
        sref = []
        for i in range(F.N):
            a = F.atoms[i]
            nb = np.array(a.neighbors, int)
            if not len(nb):
                sref.append(np.zeros(0))
                continue
            e = (Q[i].conj() * Q[nb]).sum(1).real / (nrm[i] * nrm[nb])
            sref.append(e)
            g = np.array(a.sij)
            ctx["count"] += 1
            if g.shape != e.shape or not np.abs(g - e).max() < 1e-9:
                err.append(tag + "atom %d: sij %s, expected %s" % (i, g.tolist(), e.tolist()))
            elif abs(a.avg_sij - e.mean()) > 1e-9:
                err.append(tag + "atom %d: mean sij %r, expected %r" % (i, a.avg_sij, e.mean()))
            if np.abs(g).max() > 1 + 1e-9:
                err.append(tag + "atom %d: |sij| > 1" % i)
            if c["method"] in ("cutoff",):
                for j, x in zip(nb, g):
                    k = list(F.atoms[j].neighbors).index(i)
                    if abs(F.atoms[j].sij[k] - x) > 1e-9:
                        err.append(tag + "s_ij of atoms %d and %d is not symmetric" % (i, j))
            eps = 1e-9
            nlo = (e > th + eps).sum() if right else (e < th - eps).sum()
            nhi = (e > th - eps).sum() if right else (e < th + eps).sum()
            m = e.mean()
            am = abs(m - av) < eps
            lo, hi = [(n / float(len(nb)) if isinstance(b, float) else n) > b for n in (nlo, nhi)]
            ok = (m > av) if right else (m < av)
            if lo != hi or am:
                continue
            if bool(a.solid) != bool(lo and ok):
                err.append(tag + "atom %d: solid is %r, but %d of %d bonds, mean sij %r" % (i, a.solid, nlo, len(nb), m))
            if len(err) > 3:
                return err
    return err
