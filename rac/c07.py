"""C07 averaged Steinhardt parameters"""
from common import *
from c02 import cut_for
import c06


def cases(seed, tier):
    q = tier == "quick"
    k = 0
    for rep in range(1 if q else 8):
        for b in ["ortho", "tri"]:
            for n in (9, 60, 210):
                for m in ("cutoff", "number", "adaptive", "voronoi"):
                    if m == "voronoi" and b != "ortho":
                        continue
                    k += 1
                    yield {"what": "gas", "kind": "gas", "box": b, "n": n, "seed": seed * 1000 + k, "types": 2, "method": m,
                           "cond": ["none", "func", "attr", "clear"][k % 4], "filter": [None, "type", None, "type_r"][(k // 2) % 4],
                           "voroexp": 1 + k % 3, "how": ["both", "only", "separate"][k % 3]}
    yield {"what": "crystal", "kind": "bcc", "reps": [4, 4, 4], "noise": .03, "seed": seed, "types": 2, "method": "cutoff", "cond": "func",
           "how": "both", "cut": 1.2}


def run(c, ctx):
    err = []
    r = rng("c07", c["seed"])
    s, box, pos, types = build(c)
    F = Full(s, box, s.natoms)
    cut = cut_for(F, [13, 2][c["seed"] % 2]) if c["what"] == "gas" else c["cut"]
    c06.find(s, c, cut)
    kw, cond = c06.set_cond(c, s, r)
    ls = [int(x) for x in r.permutation(c06.ALL)[:(11 if F.N < 300 else 4)]]
    if c["how"] == "both":
        s.calculate_q(ls, averaged=True, **kw)
    elif c["how"] == "only":
        s.calculate_q(ls, **kw)
        before = [s.get_qvals(l) for l in ls]
        s.calculate_q(ls, only_averaged=True)
        if not np.array_equal(before, [s.get_qvals(l) for l in ls], equal_nan=True):
            err.append("only_averaged changes the non-averaged values")
    else:
        s.calculate_q(ls, **kw)
        for l in ls:
            s.calculate_q(l, averaged=True)
    F = Full(s, box, s.natoms)
    cnd = np.array([cond[i % s.natoms] for i in range(F.N)])
    rows = list(range(F.N)) if F.N <= 250 else sorted(set(int(x) for x in r.randint(0, F.N, 100)) | set(range(min(s.natoms, 30))))
    err += c06.check_q(s, F, ls[:2], cnd, rows[:25], ctx, "non-averaged: ")
    for l in ls:
        comp = {}
        gv = s.get_qvals(l, averaged=True)
        for i in rows:
            a = F.atoms[i]
            nb = [j for j in a.neighbors if cnd[j] == cnd[i]]
            for j in [i] + nb:
                if j not in comp:
                    comp[j] = np.array(F.atoms[j].get_qlm(l))
            e = np.mean([comp[j] for j in [i] + nb], axis=0)
            if np.isnan(e).any():
                continue
            ctx["count"] += 1
            g = np.array(a.get_qlm(l, averaged=True))
            v = [a.get_q(l, averaged=True), a.allaq[l - 2]] + ([gv[i]] if i < s.natoms else [])
            if g.shape != e.shape or np.abs(g - e).max() > 1e-9:
                err.append("atom %d l=%d: averaged components %s, expected %s" % (i, l, g.tolist(), e.tolist()))
            x = ql(e, l)
            if any(not abs(y - x) <= 1e-9 for y in v):
                err.append("atom %d: averaged q%d %s, expected %r" % (i, l, v, x))
            if not nb and abs(a.get_q(l) - a.get_q(l, averaged=True)) > 1e-9:
                err.append("atom %d without neighbors: averaged q%d differs from q%d" % (i, l, l))
            if len(err) > 3:
                return err
    return err
