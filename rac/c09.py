"""C09 clusters and C10 largest cluster"""
from common import *
from c02 import cut_for
import c06


def cases(seed, tier):
    q = tier == "quick"
    for k in range(40 if q else 250):
        d = [{"kind": "gas", "n": 230}, {"kind": "gas", "n": 420}, {"kind": "sc", "reps": [7, 7, 7]}, {"kind": "gas", "n": 30},
             {"kind": "bcc", "reps": [6, 6, 4]}][k % 5]
        yield dict(d, what="random", box=["ortho", "tri", "rot", "left"][k % 4 if d["kind"] == "gas" else 0], seed=seed * 1000 + k, types=2,
                   p=[.5, .25, .12, .8, 0, 1, .35][k % 7], nn=[5, 3, 8, 12][k % 4], how=["func", "attr", "custom", "solid"][k % 4],
                   cl=[0, 0, .8, 1.6, 0, .6][k % 6], shuffle=1, labels=[[1, 2], [7, 3]][k % 2])
    yield {"what": "chain", "kind": "gas", "n": 400, "seed": seed, "types": 1}
    yield {"what": "ring", "kind": "gas", "n": 260, "seed": seed, "types": 1}


def components(n, sel, links):
    par = list(range(n))

    def root(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for i, j in links:
        if sel[i] and sel[j]:
            par[root(i)] = root(j)
    return [root(i) if sel[i] else -1 for i in range(n)]


def make(c, r):
    """-> system, box, selected (real atoms), keyword arguments of cluster_atoms"""
    if c["what"] in ("chain", "ring"):
        n = c["n"]
        L = 30.
        box = np.diag([L] * 3)
        pos = []
        if c["what"] == "chain":       # a long path visited in random order
            for i in range(n):
                x, y = i % 20, i // 20
                pos.append([(x if y % 2 == 0 else 19 - x) * 1.0 + .5, y * 1.0 + .5, 5.])
        else:
            for i in range(n):
                pos.append([(i % 30) + .5, 5 + 2 * (i // 30), 5.])
        pos = np.array(pos)[r.permutation(n)]
        types = np.ones(n, int)
        s = pc.System()
        s.box = box.tolist()
        s.atoms = make_atoms(pos, types)
        s.find_neighbors(method="cutoff", cutoff=1.05)
        p = .95
    else:
        s, box, pos, types = build(c)
        F = Full(s, box, s.natoms)
        cut = cut_for(F, c["nn"]) if c["kind"] == "gas" else {"sc": 1.2, "bcc": .9}[c["kind"]]
        s.find_neighbors(method="cutoff", cutoff=cut)
        p = c["p"]
    n = s.natoms
    sel = r.rand(n) < p
    at = s.atoms
    how = c.get("how", "attr")
    if how == "solid":
        for a, x in zip(at, sel):
            a.solid = bool(x)
    elif how == "custom":
        for a, x in zip(at, sel):
            a.custom = {"flag": int(x)}
    else:
        for a, x in zip(at, sel):
            a.mask = bool(x)
    # solid flags are used for the surface
    if how != "solid":
        so = r.rand(n) < .7
        for a, x in zip(at, so):
            a.solid = bool(x)
    # arbitrary ids must not matter
    for a in at:
        a.id = int(r.randint(1, 10 ** 6))
    s._update_atoms(at)
    cond = {"func": lambda a: a.mask, "attr": "mask", "custom": "flag", "solid": "solid"}[how]
    return s, box, sel, cond


def run(c, ctx, which="C09"):
    err = []
    r = rng("c09", c["seed"], c["what"])
    s, box, sel, cond = make(c, r)
    n = s.natoms
    cl = c.get("cl", 0)
    if cl:
        cl = float(cl) * np.median([d for a in s.atoms for d in a.neighbor_distance] or [1.])
    for rep in range(2):
        if rep == 1:                        # again with another selection and cutoff
            if c.get("how") == "solid" or c["what"] != "random":
                break
            sel = np.array([a.type == max(c["labels"]) for a in s.atoms])
            cond = lambda a: a.type == max(c["labels"])
            cl = 0
        lc = s.cluster_atoms(cond, largest=True, cutoff=cl)
        A = s.atoms
        links = [(i, j) for i, a in enumerate(A) for j, d in zip(a.neighbors, a.neighbor_distance)
                 if j < n and d <= (cl if cl else a.cutoff)]
        comp = components(n, sel, links)
        ids = [a.cluster for a in A]
        ctx["count"] += n
        for i in range(n):
            if (ids[i] == -1) != (comp[i] == -1):
                err.append("atom %d: cluster %d, selected %s" % (i, ids[i], bool(sel[i])))
        m = {}
        back = {}
        for i in range(n):
            if comp[i] == -1:
                continue
            if m.setdefault(comp[i], ids[i]) != ids[i]:
                err.append("atom %d: has cluster %d, but is connected to cluster %d" % (i, ids[i], m[comp[i]]))
            if back.setdefault(ids[i], comp[i]) != comp[i]:
                err.append("atom %d: cluster %d contains unconnected atoms" % (i, ids[i]))
        if sorted(back) != list(range(1, len(back) + 1)):
            err.append("cluster ids are not consecutive: %s" % sorted(back)[:20])
        e10 = []
        sizes = {}
        for x in comp:
            if x != -1:
                sizes[x] = sizes.get(x, 0) + 1
        want = max(sizes.values()) if sizes else 0
        for k, v in (("cluster_atoms", lc), ("find_largestcluster", s.find_largestcluster())):
            if v != want:
                e10.append("%s returns %r, expected %r" % (k, v, want))
        A = s.atoms
        fl = [i for i in range(n) if A[i].largest_cluster]
        roots = set(comp[i] for i in fl)
        if want == 0 and fl:
            e10.append("atoms %s are flagged as largest cluster without any cluster" % fl[:5])
        if want and (len(roots) != 1 or -1 in roots or len(fl) != want or sizes[list(roots)[0]] != want):
            e10.append("%d atoms of %d clusters are flagged, largest cluster has %d" % (len(fl), len(roots), want))
        for i, a in enumerate(A):
            e = 1
            if a.solid:
                e = int(any(not A[j].solid for j in a.neighbors if j < n))
            if int(a.surface) != e:
                e10.append("atom %d (solid %s): surface %d, expected %d" % (i, a.solid, a.surface, e))
        if which == "C10":
            err = [x for x in err if False] + e10
        if err:
            return err[:5]
    return err
