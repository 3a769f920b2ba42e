"""C13 diamond identification"""
from common import *
from c12 import signature, label12


def hexdia(reps):
    """hexagonal diamond in an orthorhombic cell"""
    a = 1 / np.sqrt(2)
    c = a * np.sqrt(8 / 3.)
    L = np.array([a, a * np.sqrt(3), c])
    b = []
    for x, y, z in [(0, 0, 0), (.5, .5, 0), (.5, 1 / 6., .5), (0, 2 / 3., .5)]:
        b += [(x, y, z), (x, y, z + 3 / 8.)]
    frac = []
    for cc in itertools.product(*[range(k) for k in reps]):
        for x in b:
            frac.append((np.array(cc) + x) / reps)
    frac = np.array(frac)
    frac -= np.floor(frac)
    box = np.diag(L * reps)
    return box, frac.dot(box), np.ones(len(frac), int)


def mixed(r, kind, seed, noise):
    """half of the box is perturbed strongly, so that all labels occur"""
    if kind == "hex":
        box, pos, types = hexdia([7, 4, 5])
    else:
        box, pos, types = gen({"kind": "dia", "reps": [5, 5, 5], "box": "ortho", "seed": seed})
    f = pos.dot(np.linalg.inv(box))
    w = np.where((f[:, 0] > .45), noise, .004)
    pos = pos + r.normal(size=pos.shape) * w[:, None]
    f = pos.dot(np.linalg.inv(box))
    f -= np.floor(f)
    f[f >= 1] = 0
    o = r.permutation(len(pos))
    return box, f.dot(box)[o], types


def cases(seed, tier):
    q = tier == "quick"
    for k in range(14 if q else 70):
        yield {"what": ["cubic", "hex", "small", "mixed", "gas", "hexmixed", "mixed"][k % 7], "seed": seed * 1000 + k, "noise": [.15, .05, .3][k % 3],
               "mode": ["own", "separate", "after", "own"][k % 4]}


def run(c, ctx):
    err = []
    r = rng("c13", c["seed"])
    w = c["what"]
    if w == "cubic":
        box, pos, types = gen({"kind": "dia", "reps": [4, 4, 4], "box": "ortho", "seed": c["seed"], "shuffle": 1, "noise": .004, "shift": [.1, .2, .3], "types": 2})
    elif w == "small":
        box, pos, types = gen({"kind": "dia", "reps": [2, 2, 2], "box": "ortho", "seed": c["seed"], "shuffle": 1, "noise": .01})
    elif w == "hex":
        box, pos, types = hexdia([6, 4, 4])
    elif w == "gas":
        box, pos, types = gen({"kind": "gas", "n": 230, "box": "tri", "seed": c["seed"]})
    elif w == "mixed":
        box, pos, types = mixed(r, "cub", c["seed"], c["noise"])
    else:
        box, pos, types = mixed(r, "hex", c["seed"], c["noise"])
    s = pc.System()
    s.box = box.tolist()
    s.atoms = make_atoms(pos, types)
    n = s.natoms
    if c["mode"] == "after":
        s.find_neighbors(method="cutoff", cutoff=.7)
        s.calculate_cna()
        s.find_neighbors(method="cutoff", cutoff=.6)
    if c["mode"] == "separate":
        s.find_neighbors(method="number", nmax=4, assign_neighbor=False, threshold=3)
        res = s.identify_diamond(find_neighbors=False)
    else:
        res = s.identify_diamond()
    F = Full(s, box, n)
    tol = 1e-9 * np.abs(F.box).max()
    st = np.array([a.structure for a in F.atoms])
    rows = list(range(F.N))
    near = {}
    for i, d, v in all_rows(F, rows):
        d = d.copy()
        d[i] = 1e99
        o = np.argpartition(d, 5)[:5]
        o = o[np.argsort(d[o])]
        near[i] = (o[:4], d[o[4]] - d[o[3]] > tol)
    second = {}
    for i in rows:
        o, ok = near[i]
        l = [int(k) for j in o for k in near[j][0] if k != i]
        second[i] = (l, ok and all(near[j][1] for j in o))
    sub = rows if F.N < 1500 else list(range(n))
    lab = {}
    for i in sub:
        l, ok = second[i]
        ctx["count"] += 1
        if not ok:
            continue
        if sorted(F.atoms[i].neighbors) != sorted(l):
            err.append("atom %d: analysed atoms %s, expected %s" % (i, sorted(F.atoms[i].neighbors), sorted(l)))
            return err
        if len(set(l)) != 12 or len(l) != 12:
            continue
        v = minimg(F.pos[l] - F.pos[i], F.box)
        cut = 1.207 * np.sqrt((v ** 2).sum(1)).sum() / 12
        sig = signature(F.pos[i] + v, F.box, cut)
        if sig is None:
            continue
        want = {1: 5, 2: 8}.get(label12(sig))
        if (want and st[i] != want) or (want is None and st[i] in (5, 8)) or (label12(sig) == 4 and st[i] not in (4, 6, 7, 9, 10)):
            err.append("atom %d: structure %d, expected %s" % (i, st[i], want))
    for i in sub:
        if st[i] in (5, 8) or not second[i][1]:
            continue
        a1 = set({5: 6, 8: 9}.get(st[j]) for j in near[i][0]) - {None}
        a2 = set({5: 7, 8: 10}.get(st[j]) for j in second[i][0]) - {None}
        allowed = a1 or a2 or {0, 4}
        if st[i] not in allowed:
            err.append("atom %d: structure %d, expected %s" % (i, st[i], sorted(allowed)))
    keys = ["others", "fcc", "hcp", "bcc", "ico", "cubic diamond", "cubic diamond 1NN", "cubic diamond 2NN", "hex diamond", "hex diamond 1NN", "hex diamond 2NN"]
    got = [res[k] for k in keys]
    cnt = [int((st[:n] == k).sum()) for k in range(11)]
    if got != cnt or sum(got) != n or len(res) != 11:
        err.append("counts %s, but labels occur %s times" % (got, cnt))
    if w in ("cubic", "small") and cnt[5] != n:
        err.append("perfect cubic diamond is not identified: %s" % res)
    if w == "hex" and cnt[8] != n:
        err.append("perfect hexagonal diamond is not identified: %s" % res)
    return err[:4]
