"""C02 cutoff neighbor lists"""
from common import *

FILT = [None, "type", "type_r"]


def cases(seed, tier):
    k = 0
    for rep in range(1 if tier == "quick" else 6):
        for b in ["ortho", "tri", "rot", "left", "up", "one"]:
            for n in (23, 207, 330):
                k += 1
                yield {"what": "gas", "kind": "gas", "box": b, "n": n, "seed": seed * 1000 + k, "types": 3,
                       "labels": [[1, 2, 3], [2, 5, 1], [1, 1, 2]][k % 3], "nn": [[4, 25, 11], [40, 2, 17]][k % 2]}
    yield {"what": "exact", "kind": "sc", "reps": [7, 7, 7], "seed": seed, "types": 2}
    yield {"what": "exact", "kind": "bcc", "reps": [6, 6, 6], "a": 2.0, "seed": seed, "types": 2}
    yield {"what": "large", "kind": "gas", "n": 2350, "box": "ortho", "seed": seed, "types": 2, "nn": [20]}
    yield {"what": "large", "kind": "gas", "n": 2310, "box": "tri", "seed": seed, "types": 2, "nn": [12]}
    if tier != "quick":
        yield {"what": "large", "kind": "gas", "n": 4300, "box": "ortho", "seed": seed, "types": 2, "nn": [20]}
        yield {"what": "large", "kind": "gas", "n": 2301, "box": "rot", "seed": seed, "types": 2, "nn": [12]}
    for rep in range(3 if tier == "quick" else 12):
        yield {"what": "reuse", "kind": "gas", "n": 220, "box": ["ortho", "tri"][rep % 2], "seed": seed * 31 + rep, "types": 2}
    yield {"what": "capacity", "kind": "gas", "n": 420, "box": "ortho", "seed": seed, "types": 2}


def cut_for(F, nn):
    return (nn / (F.N / abs(np.linalg.det(F.box))) * 3 / (4 * np.pi)) ** (1 / 3.)


def check(s, box, cut, filt, ctx, tag="", full=True):
    F = Full(s, box, s.natoms)
    rows = None
    if F.N > 700:
        rows = sorted(set(range(0, F.N, max(1, F.N // 250))) | set(range(min(s.natoms, 60))))
    ctx["count"] += F.N if rows is None else len(rows)
    err = cutoff_sets_errors(F, cut, filt, rows, tag)
    # symmetry of the whole relation and no self neighbors
    S = [set(a.neighbors) for a in F.atoms]
    for i, x in enumerate(S):
        if i in x:
            err.append(tag + "atom %d is its own neighbor" % i)
        for j in x:
            if not (0 <= j < F.N) or i not in S[j]:
                err.append(tag + "neighbors are not symmetric: %d has %d" % (i, j))
                break
        if len(err) > 5:
            break
    if not err:
        for i, a in enumerate(F.atoms):
            if a.coordination and abs(a.cutoff - cut) > 1e-12 * abs(cut):
                err.append(tag + "cutoff of atom %d is %r" % (i, a.cutoff))
                break
    return err


def run(c, ctx):
    s, box, pos, types = build(c)
    err = []
    if c["what"] in ("gas", "large"):
        for nn in c["nn"]:
            for f in FILT if c["what"] == "gas" else FILT[:]:
                F = Full(s, box, s.natoms)
                cut = cut_for(F, nn)
                s.find_neighbors(method="cutoff", cutoff=cut, filter=f)
                err += check(s, box, cut, f, ctx, "cutoff %r filter %s: " % (cut, f))
                if err:
                    return err
        return err
    if c["what"] == "exact":
        a = c.get("a", 1.0)
        exact = {"sc": [(1.0, 0), (1.0 + 1e-6, 6), (1.0 - 1e-6, 0)], "bcc": [(a, 8), (a * 1.001, 14), (a * .999, 8)]}[c["kind"]]
        for cut, cn in exact:
            for meth in (s.get_all_neighbors_normal, s.get_all_neighbors_cells):
                s.reset_allneighbors()
                s.filter = 0
                s.set_neighbordistance(cut)
                meth()
                got = sorted(set(x.coordination for x in s.atoms))
                ctx["count"] += s.natoms
                if got != [cn]:
                    err.append("perfect %s crystal, cutoff %r: coordination %s, expected %d" % (c["kind"], cut, got, cn))
        return err
    if c["what"] == "reuse":
        F = Full(s, box, s.natoms)
        hist = [("cutoff", 30, "type"), ("number", 12, None), ("cutoff", 5, "type_r"), ("adaptive", 0, None), ("cutoff", 18, None),
                ("voronoi", 0, None), ("cutoff", 9, "type"), ("sann", 0, None), ("cutoff", 14, "type_r")]
        r = rng(c["seed"])
        for k in r.permutation(len(hist)):
            m, nn, f = hist[k]
            cut = cut_for(F, nn) if nn else 0
            if m == "cutoff":
                s.find_neighbors(method="cutoff", cutoff=cut, filter=f)
                err += check(s, box, cut, f, ctx, "after other searches, cutoff %r filter %s: " % (cut, f))
            elif m == "number":
                s.find_neighbors(method="number", nmax=12, threshold=3)
            elif m == "voronoi":
                if c["box"] == "ortho":
                    s.find_neighbors(method="voronoi")
            else:
                try:
                    s.find_neighbors(method="cutoff", cutoff=m, threshold=4)
                except RuntimeError:
                    pass
            if err:
                return err
        return err
    if c["what"] == "capacity":
        F = Full(s, box, s.natoms)
        D = distance_matrix(F.pos, F.box)
        for nmax in (299, 300, 301, 380):
            cut = np.sort(D, axis=1)[:, nmax].max()
            # largest cutoff such that the most crowded atom has at most / just above nmax neighbors
            srt = np.sort(D, axis=1)
            lo = srt[:, nmax + 1].min() if nmax + 1 < F.N else srt.max()
            cut = lo - 1e-9
            cnt = ((D < cut).sum(1) - 1).max()
            try:
                s.find_neighbors(method="cutoff", cutoff=cut)
                ok = True
            except Exception:
                ok = False
            ctx["count"] += 1
            if cnt > 300 and ok:
                err.append("%d neighbors accepted, although at most 300 are supported" % cnt)
            if cnt <= 300:
                if not ok:
                    err.append("%d neighbors rejected" % cnt)
                else:
                    err += check(s, box, cut, None, ctx, "%d neighbors: " % cnt)
        return err
