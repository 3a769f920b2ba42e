"""C03 cell lists and direct search agree"""
from common import *
from c02 import cut_for


def cases(seed, tier):
    k = 0
    q = tier == "quick"
    for rep in range(2 if q else 10):
        for b in ["ortho", "tri", "ortho", "left", "rot", "up"]:
            for nn in (12, 40, 3):
                k += 1
                d = {"what": "methods", "kind": "gas", "box": b, "n": 240 + 10 * (k % 5), "seed": seed * 1000 + k, "types": 2, "nn": nn}
                if b == "ortho" and k % 2:
                    # anisotropic: narrow along some directions
                    d["L"] = [[3.1, 9.0, 9.0], [12.0, 4.0, 5.0], [6.0, 6.0, 7.0], [30.0, 3.0, 3.0], [5.0, 5.5, 9.5]][k % 5]
                yield d
    for ncell in ([3, 4, 5], [3, 3, 3], [4, 4, 6], [7, 3, 5], [1, 4, 4], [2, 3, 4], [5, 2, 2], [9, 3, 4]):
        yield {"what": "faces", "ncell": ncell, "seed": seed}
    yield {"what": "crystal", "kind": "fcc", "reps": [5, 6, 4], "seed": seed, "a": 1.0}
    yield {"what": "crystal", "kind": "sc", "reps": [8, 7, 9], "seed": seed, "a": 1.5}
    yield {"what": "crystal", "kind": "bcc", "reps": [6, 6, 6], "seed": seed, "a": 1.1, "noise": .02}
    yield {"what": "auto", "kind": "gas", "box": "ortho", "n": 2400, "seed": seed, "types": 2, "ms": ["cutoff"]}
    yield {"what": "auto", "kind": "gas", "box": "ortho", "n": 4020, "seed": seed, "types": 2, "L": [20, 14, 14.4],
           "ms": ["number", "adaptive", "sann"]}
    if not q:
        yield {"what": "auto", "kind": "gas", "box": "tri", "n": 4020, "seed": seed, "types": 2, "ms": ["cutoff", "number", "adaptive", "sann"]}
        yield {"what": "auto", "kind": "gas", "box": "ortho", "n": 4050, "seed": seed + 1, "types": 2, "L": [60, 8, 9], "ms": ["cutoff", "number", "adaptive", "sann"]}


def snapshot(s):
    out = []
    for a in s.get_all_atoms():
        out.append((a.coordination, dict(zip(a.neighbors, zip(a.neighbor_distance, map(tuple, a.neighbor_vector)))), a.cutoff,
                    [round(x, 9) for x in a.neighbor_distance], len(set(a.neighbors)), list(a.neighbor_weights), a.local_angles))
    return out


def compare(A, B, tag, scale, ordered=False):
    err = []
    for i, (x, y) in enumerate(zip(A, B)):
        if x[0] != y[0] or x[4] != x[0] or y[4] != y[0]:
            err.append(tag + "atom %d: %d neighbors (%d distinct) directly, %d (%d distinct) with cells" % (i, x[0], x[4], y[0], y[4]))
        elif set(x[1]) != set(y[1]):
            err.append(tag + "atom %d: neighbors differ: %s" % (i, sorted(set(x[1]) ^ set(y[1]))))
        else:
            for j in x[1]:
                if abs(x[1][j][0] - y[1][j][0]) > 1e-9 * scale or np.abs(np.array(x[1][j][1]) - np.array(y[1][j][1])).max() > 1e-9 * scale:
                    err.append(tag + "atom %d neighbor %d: %s directly, %s with cells" % (i, j, x[1][j], y[1][j]))
                    break
            if ordered and x[3] != y[3]:
                err.append(tag + "atom %d: different order" % i)
            if x[0] and abs(x[2] - y[2]) > 1e-9 * scale:
                err.append(tag + "atom %d: cutoff %r directly, %r with cells" % (i, x[2], y[2]))
        if len(err) > 4:
            return err
    if len(A) != len(B):
        err.append(tag + "different number of atoms")
    return err


def both(s, call, ctx, tag, scale, ordered=False):
    """call(cells) with and without cells on the same system"""
    res = []
    for cells in (0, 1):
        s.reset_allneighbors()
        s.usecells = cells
        ret = call(cells)
        res.append((ret, snapshot(s)))
    ctx["count"] += len(res[0][1])
    (ra, A), (rb, B) = res
    if bool(ra) != bool(rb) and ra is not None:
        return [tag + "succeeds differently: %r %r" % (ra, rb)]
    if ra is not None and not ra:
        return []
    return compare(A, B, tag, scale, ordered)


def by_cells(s, cut):
    def f(cells):
        s.set_neighbordistance(cut)
        (s.get_all_neighbors_cells if cells else s.get_all_neighbors_normal)()
    return f


def run(c, ctx):
    err = []
    if c["what"] in ("methods", "crystal"):
        s, box, pos, types = build(c)
        F = Full(s, box, s.natoms)
        scale = np.abs(F.box).max()
        if c["what"] == "methods":
            cuts = [cut_for(F, c["nn"]), 0.4 * np.diag(F.box).min() if c["box"] == "ortho" else cut_for(F, 8)]
        else:
            a = c["a"]
            cuts = [a * 1.0000001, a * .9999, a * 1.3]
        for f in (0, 1, 2):
            s.filter = f
            for cut in cuts:
                err += both(s, by_cells(s, cut), ctx, "cutoff %r filter %d: " % (cut, f), scale)
            if c["what"] == "methods":
                err += both(s, lambda k: s.get_all_neighbors_adaptive(2.0, 6, 1.3), ctx, "adaptive filter %d: " % f, scale)
            if err:
                return err
        s.filter = 0
        if c["what"] == "methods":
            err += both(s, lambda k: s.get_all_neighbors_bynumber(2.5, 10, 1), ctx, "number: ", scale, True)
            err += both(s, lambda k: s.get_all_neighbors_bynumber(1.3, 3, 1), ctx, "number: ", scale, True)
            err += both(s, lambda k: s.get_all_neighbors_sann(2.5), ctx, "sann: ", scale, True)
        return err
    if c["what"] == "faces":
        n = np.array(c["ncell"])
        cut = 1.0
        r = rng("c03", c["seed"], c["ncell"])
        L = n * cut + r.uniform(0.0, .02, 3) * (r.rand() < .5)
        box = np.diag(L)
        pts = []
        for _ in range(260):
            p = r.uniform(0, 1, 3) * L
            for k in range(3):
                u = r.rand()
                if u < .25:
                    p[k] = r.randint(0, n[k] + 1) * L[k] / n[k]
                elif u < .35:
                    p[k] = L[k]
                elif u < .4:
                    p[k] = -1e-7
                elif u < .45:
                    p[k] = np.nextafter(L[k], 0)
                elif u < .48:
                    p[k] = -1e-12
            pts.append(p)
        for _ in range(12):
            # pairs just within the cutoff across a face, the upper one just below a cell boundary
            p = r.uniform(0, 1, 3) * L
            q = p.copy()
            k = r.randint(3)
            e = 10 ** -r.uniform(4, 8)
            p[k] = -e
            q[k] = L[k] - cut - 0.6 * e
            pts += [p, q]
        # no two atoms (or images) at the same place
        keep = []
        for p in pts:
            if all(np.sqrt((minimg(p - q, box) ** 2).sum()) > 1e-3 for q in keep):
                keep.append(p)
        pos = np.array(keep)
        s = pc.System()
        s.box = box.tolist()
        s.atoms = make_atoms(pos, r.randint(1, 3, len(pos)))
        for f in (0, 1, 2):
            s.filter = f
            for x in (cut, cut * .999, cut * .7):
                err += both(s, by_cells(s, x), ctx, "cutoff %r filter %d: " % (x, f), L.max())
            if err:
                return err
        s.filter = 0
        err += both(s, lambda k: s.get_all_neighbors_bynumber(2.0, 6, 1), ctx, "number: ", L.max(), True)
        F = Full(s, box, s.natoms)
        s.filter = 0
        s.reset_allneighbors()
        s.set_neighbordistance(cut)
        s.get_all_neighbors_cells()
        F = Full(s, box, s.natoms)
        err += cutoff_sets_errors(F, cut, None, None, "cells: ")
        return err
    if c["what"] == "auto":
        s, box, pos, types = build(c)
        F = Full(s, box, s.natoms)
        scale = np.abs(F.box).max()
        cut = cut_for(F, 14)
        for m in c["ms"]:
            for f in ((None, "type_r") if m in ("cutoff", "adaptive") else (None,)):
                if m == "cutoff":
                    s.find_neighbors(method="cutoff", cutoff=cut, filter=f)
                elif m == "number":
                    s.find_neighbors(method="number", nmax=9, threshold=2.5)
                else:
                    s.find_neighbors(method="cutoff", cutoff=m, threshold=2.5, filter=f)
                B = snapshot(s)
                s.reset_allneighbors()
                s.filter = {None: 0, "type": 1, "type_r": 2}[f]
                s.usecells = 0
                if m == "cutoff":
                    by_cells(s, cut)(0)
                elif m == "number":
                    s.get_all_neighbors_bynumber(2.5, 9, 1)
                elif m == "adaptive":
                    s.get_all_neighbors_adaptive(2.5, 6, 1.2)
                else:
                    s.get_all_neighbors_sann(2.5)
                ctx["count"] += s.natoms
                err += compare(snapshot(s), B, "find_neighbors %s filter %s: " % (m, f), scale, m in ("number", "sann"))
                if err:
                    return err
        return err
