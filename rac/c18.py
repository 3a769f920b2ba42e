"""C18 short range order"""
from common import *
from c02 import cut_for


def cases(seed, tier):
    q = tier == "quick"
    for k in range(40 if q else 220):
        d = [{"kind": "gas", "n": 210}, {"kind": "l12", "reps": [4, 4, 4]}, {"kind": "gas", "n": 60}, {"kind": "bcc", "reps": [5, 5, 5], "noise": .02},
             {"kind": "fcc", "reps": [2, 3, 2], "noise": .02}][k % 5]
        yield dict(d, what=["sro", "pmsro"][k // 5 % 2], box=["ortho", "tri", "rot"][k % 3 if d["kind"] == "gas" else 0], seed=seed * 1000 + k,
                   types=2 if (k // 5) % 2 == 0 else 3, labels=[1, 2] if (k // 5) % 2 == 0 else [[1, 2, 3], [4, 2, 9], [1, 3, 7], [1, 2]][k // 3 % 4],
                   shells=[2, 1][k // 2 % 2], method=["cutoff", "number", "cutoff", "adaptive"][k // 4 % 4], delta=bool(k // 3 % 2), shuffle=1)


def value(nb, types, ref, cmp, m, delta):
    c = len(nb)
    x = int((types[nb] == cmp).sum())
    if ref == cmp and delta:
        return (x / c - m) / (1 - m)
    return 1 - x / (c * m)


def run(c, ctx):
    err = []
    r = rng("c18", c["seed"])
    d = dict(c)
    if d["kind"] == "l12":
        d.pop("types"), d.pop("labels")
    s, box, pos, types = build(d)
    n = s.natoms
    F = Full(s, box, n)
    cut = cut_for(F, 16) if c["kind"] == "gas" else {"l12": [1.1, .8][c["seed"] % 2], "bcc": 1.25, "fcc": 1.1}[c["kind"]]
    if c["method"] == "cutoff" or c["kind"] == "l12":
        s.find_neighbors(method="cutoff", cutoff=cut)
    elif c["method"] == "number":
        s.find_neighbors(method="number", nmax=14, threshold=3)
    else:
        s.find_neighbors(method="cutoff", cutoff="adaptive", threshold=4, padding=1.4)
    T = sorted(set(types.tolist()))
    if len(T) < 2:
        return err
    F = Full(s, box, n)
    conc = {t: float((types == t).mean()) for t in T}
    for rep in range(3):
        ref = T[r.randint(len(T))]
        sh = c["shells"]
        avg = bool(sh == 2 and r.rand() < .7)
        if c["what"] == "sro":
            if T != [1, 2]:
                return err
            cmp = 3 - ref
            delta = False
            call = lambda: s.calculate_sro(reference_type=ref, average=avg, shells=sh)
        else:
            cmp = T[r.randint(len(T))]
            delta = c["delta"]
            call = lambda: s.calculate_pmsro(reference_type=ref, compare_type=cmp, average=avg, shells=sh, delta=delta)
        # expected values
        exp = {}
        amb = set()
        for i, a in enumerate(F.atoms):
            if F.types[i] != ref:
                continue
            nb = np.array(a.neighbors, int)
            if not len(nb):
                amb.add(i)
                continue
            dd = np.array(a.neighbor_distance)
            m = dd.mean()
            if sh == 2:
                if (np.abs(dd - m) < 1e-9).any():
                    amb.add(i)
                    continue
                a1, a2 = nb[dd <= m], nb[dd > m]
                if not len(a1) or not len(a2):
                    amb.add(i)
                    continue
                exp[i] = [value(x, F.types, ref, cmp, conc[cmp], delta) for x in (a1, a2)]
            else:
                exp[i] = [value(nb, F.types, ref, cmp, conc[cmp], delta)]
        try:
            out = call()
        except ZeroDivisionError:
            if not amb:
                return ["unexpected division by zero"]
            continue
        if not exp:
            continue
        G = s.get_all_atoms()
        tag = "ref %d, compared %d, shells %d, delta %s: " % (ref, cmp, sh, delta)
        for i in exp:
            ctx["count"] += 1
            g = list(G[i].sro)
            if len(g) != len(exp[i]) or not np.abs(np.array(g) - exp[i]).max() < 1e-9:
                err.append(tag + "atom %d: sro %s, expected %s" % (i, g, exp[i]))
                if len(err) > 3:
                    return err
        if avg and not amb:
            e = np.mean([exp[i] for i in sorted(exp)], axis=0)
            if np.abs(np.array(out) - e).max() > 1e-9:
                err.append(tag + "system value %s, expected %s" % (out, e))
    return err
