"""C05 data stored with neighbors"""
from common import *
from c02 import cut_for


def cases(seed, tier):
    q = tier == "quick"
    k = 0
    for rep in range(1 if q else 6):
        for b in ["ortho", "tri", "rot", "left", "up"]:
            for n in (5, 44, 215):
                k += 1
                yield {"what": "methods", "kind": "gas", "box": b, "n": n, "seed": seed * 1000 + k, "types": 2}
    yield {"what": "methods", "kind": "fcc", "reps": [4, 4, 4], "seed": seed, "types": 2, "a": 4.05}
    yield {"what": "methods", "kind": "bcc", "reps": [3, 3, 3], "seed": seed, "types": 2, "a": 3.0, "noise": .05}
    yield {"what": "cells", "kind": "gas", "box": "ortho", "n": 2400, "seed": seed, "types": 2}


def run(c, ctx):
    s, box, pos, types = build(c)
    n = s.natoms
    err = []
    F = Full(s, box, n)
    cut = cut_for(F, 16)
    crystal = c["kind"] != "gas"
    if crystal:
        cut = c["a"] * 1.01

    def look(tag, weights=True):
        F = Full(s, box, n)
        rows = range(F.N) if F.N <= 450 else list(range(0, F.N, F.N // 300 + 1))
        ctx["count"] += len(rows)
        return neighbor_data_errors(F, rows, weights, tag)

    r = rng(c["seed"])
    todo = []
    for f in (None, "type", "type_r"):
        todo.append(("cutoff %s" % f, dict(method="cutoff", cutoff=cut, filter=f), True))
        todo.append(("adaptive %s" % f, dict(method="cutoff", cutoff="adaptive", filter=f, threshold=4), True))
    todo.append(("number", dict(method="number", nmax=13, threshold=3), True))
    todo.append(("sann", dict(method="cutoff", cutoff="sann", threshold=4), True))
    vor = c.get("box", "ortho") == "ortho" and not crystal
    if vor:
        for f in (None, "type", "type_r"):
            todo.append(("voronoi %s" % f, dict(method="voronoi", filter=f), False))
    if c["what"] == "cells":
        todo = [todo[0], todo[2], todo[5]]
    for k in r.permutation(len(todo)):
        name, kw, w = todo[k]
        s.find_neighbors(**kw)
        err += look(name + ": ", w)
        if err:
            return err
    # neighbors set by the analysis methods
    if c["what"] == "methods":
        s.calculate_centrosymmetry(nmax=12)
        err += look("centrosymmetry: ")
        if n > 20:
            s.identify_diamond()
            F = Full(s, box, n)
            err += look("diamond: ")
            s.calculate_cna()
            err += look("cna: ")
    # two-argument form: vectors relate to both ends consistently
    s.find_neighbors(method="cutoff", cutoff=cut)
    A = s.get_all_atoms()
    for i in range(0, len(A), max(1, len(A) // 100)):
        for k, j in enumerate(A[i].neighbors):
            if i in A[j].neighbors:
                kk = A[j].neighbors.index(i)
                if abs(A[i].neighbor_distance[k] - A[j].neighbor_distance[kk]) > 1e-12 * np.abs(box).max() * 10:
                    err.append("distances of %d-%d stored with the two atoms differ" % (i, j))
    return err[:5]
