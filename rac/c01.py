"""C01 minimum image distances"""
from common import *

BOXES = ["ortho", "tri", "rot", "left", "up", "one"]


def cases(seed, tier):
    r = rng("c01", seed)
    k = 0
    for rep in range(2 if tier == "quick" else 12):
        for b in BOXES:
            for n in (7, 60, 205):
                k += 1
                yield {"what": "pairs", "box": b, "n": n, "kind": "gas", "seed": seed * 1000 + k, "rho": [1.0, .01, 30.][k % 3]}
    for rep in range(8 if tier == "quick" else 60):
        seq = [BOXES[i] for i in r.randint(0, len(BOXES), 4)]
        yield {"what": "boxchange", "seq": seq, "n": int([40, 210][rep % 2]), "seed": seed * 77 + rep, "arr": int(rep % 3)}
    for b in BOXES:
        yield {"what": "faces", "box": b, "seed": seed, "n": 0}


def check_pairs(s, box, ctx, seed, tag=""):
    F = Full(s, box, s.natoms)
    err = []
    scale = np.abs(F.box).max()
    if not np.allclose(np.array(s._box), F.box, atol=1e-9 * scale):
        err.append(tag + "box in use %s, expected %s" % (np.array(s._box).tolist(), F.box.tolist()))
    r = rng("pairs", seed)
    N = F.N
    pairs = [(r.randint(N), r.randint(N)) for _ in range(150)]
    inv = np.linalg.inv(F.box)
    for i, j in pairs:
        ctx["count"] += 1
        d, v = s.get_distance(F.atoms[i], F.atoms[j], vector=True)
        d2, v2 = s.get_distance(F.atoms[j], F.atoms[i], vector=True)
        d3 = s.get_distance(F.atoms[i], F.atoms[j])
        v = np.array(v); v2 = np.array(v2)
        diff = F.pos[i] - F.pos[j]
        e = minimg(diff, F.box)
        # v must be congruent to the difference and in the fractional cube
        f = v.dot(inv)
        df = f - diff.dot(inv)
        if np.abs(df - np.round(df)).max() > 1e-9 or np.abs(f).max() > .5 + 1e-9:
            err.append(tag + "displacement of atoms %d,%d is %s, expected %s" % (i, j, v.tolist(), e.tolist()))
        if abs(d - np.sqrt((v ** 2).sum())) > 1e-10 * scale or abs(d3 - d) > 1e-12 * scale:
            err.append(tag + "distance of %d,%d is %r / %r, length of displacement %r" % (i, j, d, d3, np.sqrt((v ** 2).sum())))
        if abs(d - np.sqrt((e ** 2).sum())) > 1e-9 * scale and np.abs(np.abs(f) - .5).min() > 1e-9:
            err.append(tag + "distance of %d,%d is %r, expected %r" % (i, j, d, np.sqrt((e ** 2).sum())))
        tie = np.abs(np.abs(f) - .5).min() < 1e-9
        if abs(d - d2) > 1e-10 * scale or (not tie and np.abs(v + v2).max() > 1e-10 * scale):
            err.append(tag + "not (anti)symmetric for %d,%d: %r %r %s %s" % (i, j, d, d2, v.tolist(), v2.tolist()))
        if len(err) > 3:
            return err
    return err


def check_lists(s, box, ctx, tag=""):
    """pair distances and distances stored with neighbors agree with the oracle"""
    F = Full(s, box, s.natoms)
    err = []
    if F.N <= 700:
        D = distance_matrix(F.pos, F.box)
        exp = np.sort(D[np.triu_indices(F.N, 1)])
        got = np.sort(np.array(s.get_pairdistances()))
        ctx["count"] += len(got)
        if got.shape != exp.shape or np.abs(got - exp).max() > 1e-8 * np.abs(F.box).max():
            err.append(tag + "list of pair distances differs from the distances of all pairs")
    nn = 14.0
    vol = abs(np.linalg.det(F.box))
    cut = (nn / (F.N / vol) * 3 / (4 * np.pi)) ** (1 / 3.)
    s.find_neighbors(method="cutoff", cutoff=cut)
    F = Full(s, box, s.natoms)
    rows = range(F.N) if F.N < 300 else list(range(0, F.N, 7))
    err += neighbor_data_errors(F, rows, tag=tag)
    ctx["count"] += len(rows)
    return err


def run(c, ctx):
    if c["what"] == "pairs":
        s, box, pos, types = build(c)
        err = check_pairs(s, box, ctx, c["seed"])
        if c["box"] == "ortho":     # otherwise ties of the wrap have different lengths
            err += check_lists(s, box, ctx)
        return err
    if c["what"] == "boxchange":
        s = pc.System()
        err = []
        n = c["n"]
        for k, b in enumerate(c["seq"]):
            box, pos, types = gen({"kind": "gas", "n": n, "box": b, "seed": c["seed"] * 10 + k, "rho": 1.0})
            conv = [lambda x: [[float(y) for y in q] for q in x], lambda x: np.array(x), lambda x: [np.array(q) for q in x]][c["arr"]]
            s.box = conv(box)
            if not np.allclose(np.array(s.box), box) or not np.allclose(np.array(s._box), box):
                err.append("box after assigning %s is %s" % (box.tolist(), np.array(s._box).tolist()))
            if k % 2 == 0 or k == len(c["seq"]) - 1:
                s.atoms = make_atoms(pos, types)
                err += check_pairs(s, box, ctx, c["seed"] + k, "step %d (%s): " % (k, b))
            elif n >= 200:
                # atoms remain, the box changes under them: keep their fractional positions
                at = s.atoms
                for a, p in zip(at, pos):
                    a.pos = list(p)
                s.set_atoms(at)
                err += check_pairs(s, box, ctx, c["seed"] + k, "step %d (%s, same atoms): " % (k, b))
            if err:
                return err
        err += check_lists(s, box, ctx)
        return err
    if c["what"] == "faces":
        r = rng("faces", c["seed"], c["box"])
        box = make_box(c["box"], [7.0, 8.0, 9.0], r)
        vals = [0.0, 0.25, 0.5, 0.75, 1 - 1e-9, 0.5 + 1e-7, 0.5 - 1e-7]
        fr = np.array(list(itertools.product(vals, repeat=3)))
        s = pc.System()
        s.box = box.tolist()
        s.atoms = make_atoms(fr.dot(box), np.ones(len(fr)))
        err = check_pairs(s, box, ctx, c["seed"])
        if c["box"] == "ortho":     # otherwise ties of the wrap have different lengths
            err += check_lists(s, box, ctx)
        return err
