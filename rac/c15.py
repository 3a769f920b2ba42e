"""C15 entropy parameters"""
from common import *
from c02 import cut_for


def cases(seed, tier):
    q = tier == "quick"
    for k in range(20 if q else 140):
        d = [{"kind": "gas", "n": 210}, {"kind": "fcc", "reps": [4, 4, 4], "noise": .05}, {"kind": "gas", "n": 40}, {"kind": "bcc", "reps": [3, 3, 3], "noise": .05}][k % 4]
        yield dict(d, what="entropy", box=["ortho", "tri", "rot"][k % 3 if d["kind"] == "gas" else 0], seed=seed * 1000 + k, types=2, a=[1., 2.5][k // 4 % 2], aniso=True,
                   method=["cutoff", "adaptive", "cutoff", "number"][(k // 2) % 4], local=bool(k % 2), filter=[None, "type"][(k // 3) % 2],
                   avg=["none", "plain", "switch", "switch"][(k // 2) % 4])


def terms(dist, sigma, rho, rs, re, h, n):
    r = rs + np.arange(n + 1) * h
    g = np.exp(-(r[:, None] - dist[None]) ** 2 / (2 * sigma ** 2)).sum(1) / (4 * np.pi * rho * r * r) / np.sqrt(2 * np.pi * sigma ** 2)
    with np.errstate(all="ignore"):
        y = np.where(g > 0, g * np.log(g), 0.) - g + 1
    return y * r * r


def run(c, ctx):
    err = []
    r = rng("c15", c["seed"])
    s, box, pos, types = build(c)
    n = s.natoms
    F = Full(s, box, n)
    a = float(c["a"]) if c["kind"] != "gas" else 1.0
    cut = cut_for(F, 14) if c["kind"] == "gas" else {"fcc": .9, "bcc": 1.2}[c["kind"]] * a
    if c["method"] == "cutoff":
        s.find_neighbors(method="cutoff", cutoff=cut, filter=c["filter"])
    elif c["method"] == "adaptive":
        s.find_neighbors(method="cutoff", cutoff="adaptive", threshold=4)
    else:
        s.find_neighbors(method="number", nmax=10, threshold=3)
    rm = float(round(r.uniform(.9, 1.6), 3)) * a
    sigma = float(round(r.uniform(.1, .35), 3)) * a
    rs = [0.001, .2, .05][r.randint(3)]
    h = [.001, .01, .004][r.randint(3)]
    M, N = [(12, 6), (8, 4), (10, 5)][r.randint(3)]
    ra = float(rm * r.uniform(.45, 1.3)) * 1.0003
    kw = dict(sigma=sigma, rstart=rs, h=h, local=c["local"])
    if r.rand() < .5:           # previous calculation with other settings
        s.calculate_entropy(rm * 1.2, sigma=sigma * 1.3, local=not c["local"], averaged=True)
    if c["avg"] != "none":
        kw["averaged"] = True
    if c["avg"] == "switch":
        kw.update(switching_function=True, ra=ra, M=M, N=N)
    s.calculate_entropy(rm, **kw)
    F = Full(s, box, n)
    vol = abs(np.linalg.det(box))
    x = (rm - rs) / h
    ent = np.array([b.entropy for b in F.atoms])
    rows = list(range(F.N)) if F.N < 260 else sorted(set(range(n)) | set(int(y) for y in r.randint(0, F.N, 30)))
    known = 0
    for i in rows:
        b = F.atoms[i]
        d = np.array(b.neighbor_distance)
        if not len(d):
            continue
        ctx["count"] += 1
        rho = len(d) / (4 / 3. * np.pi * b.cutoff ** 3) if c["local"] else n / vol
        exact, alt = [], []
        for k in set([int(x), int(x + 1e-9), int(x - 1e-9)]):
            y = terms(d, sigma, rho, rs, rm, h, k)
            exact.append(-rho * h * (y[0] / 2 + y[1:-1].sum() + y[-1] / 2))
            alt.append(-rho * h * (y[0] / 2 + y[1:-2].sum() + y[-1] / 2))
        if any(abs(e - ent[i]) < 1e-9 * (1 + abs(e)) for e in exact):
            continue
        if any(abs(e - ent[i]) < 1e-9 * (1 + abs(e)) for e in alt):
            known += 1
            continue
        err.append("atom %d: entropy %r, expected %r" % (i, ent[i], exact[0]))
        if len(err) > 3:
            return err
    if known:
        ctx["known"]["trapezoid-last-sample"] = "Atom::trapezoid_integration omits the sample before the last one"
    if c["avg"] != "none":
        for i in rows:
            b = F.atoms[i]
            nb = np.array(b.neighbors, int)
            if not len(nb):
                continue
            if c["avg"] == "plain":
                e = ent[[i] + list(nb)].mean()
            else:
                d = np.array(b.neighbor_distance)
                w = (1 - (d / ra) ** N) / (1 - (d / ra) ** M)
                if np.abs(d / ra - 1).min() < 1e-4:
                    continue
                e = (ent[i] + (w * ent[nb]).sum()) / (1 + w.sum())
            if not abs(b.avg_entropy - e) < 1e-9 * (1 + abs(e)):
                err.append("atom %d: averaged entropy %r, expected %r" % (i, b.avg_entropy, e))
            if len(err) > 3:
                return err
    return err
