"""C20 created and repeated crystals, images of small systems"""
from common import *
from pyscal.crystal_structures import make_crystal

S3 = math.sqrt(3)
CELL = {
    "sc": ([(0, 0, 0)], [1]),
    "bcc": ([(0, 0, 0), (.5, .5, .5)], [1, 1]),
    "b2": ([(0, 0, 0), (.5, .5, .5)], [1, 2]),
    "fcc": ([(0, 0, 0), (.5, 0, .5), (0, .5, .5), (.5, .5, 0)], [1] * 4),
    "l12": ([(0, 0, 0), (.5, 0, .5), (0, .5, .5), (.5, .5, 0)], [1, 2, 2, 2]),
    "hcp": ([(0, 0, 0), (.5, .5, 0), (.5, 1 / 6., .5), (0, 2 / 3., .5)], [1] * 4),
    "diamond": ([(0, 0, 0), (.25, .25, .25), (.5, .5, 0), (.75, .75, .25), (.5, 0, .5), (0, .5, .5), (.75, .25, .75), (.25, .75, .75)], [1] * 8),
    "a15": ([(0, 0, 0), (.5, .5, .5), (.25, .5, 0), (.75, .5, 0), (0, .25, .5), (0, .75, .5), (.5, 0, .25), (.5, 0, .75)], [1] * 8),
}


def cases(seed, tier):
    q = tier == "quick"
    r = rng("c20", seed)
    for st in CELL:
        for k in range(6 if q else 30):
            yield {"what": "crystal", "structure": st, "reps": [[1, 2, 3], [3, 1, 2], [2, 3, 1], None][k] if k < 4 else r.randint(1, 6, 3).tolist(),
                   "a": float(r.uniform(.5, 6)) if k else 1.0, "ca": float(r.uniform(1.2, 2)) if k % 2 else 1.633}
        yield {"what": "noise", "structure": st, "reps": [5, 4, 6], "a": 3.3, "noise": .01}
    for k in range(30 if q else 200):
        n = int([1, 2, 3, 5, 7, 8, 12, 26, 40, 100, 199, 200, 230][k % 13])
        yield {"what": "images", "kind": "gas", "n": n, "box": ["ortho", "tri", "rot", "left", "up"][k % 5], "seed": seed * 1000 + k, "types": 3}
    for k in range(15 if q else 120):
        yield {"what": "repeat", "kind": "gas", "n": [210, 220, 12, 3, 1][k % 5], "box": ["ortho", "tri", "rot"][k % 3], "seed": seed * 1000 + k, "types": 3,
               "reps": r.randint(0, 3, 3).tolist(), "scale": bool(k % 4), "ghost": k % 5 == 3}


def run(c, ctx):
    err = []
    if c["what"] in ("crystal", "noise"):
        basis, types = CELL[c["structure"]]
        kw = {}
        if c["what"] == "noise":
            np.random.seed(5)
            kw = {"noise": c["noise"]}
        atoms, box = make_crystal(c["structure"], lattice_constant=c["a"], repetitions=c["reps"], ca_ratio=c.get("ca", 1.633), **kw)
        nx, ny, nz = c["reps"] or [1, 1, 1]
        f = np.array([1, S3, c.get("ca", 1.633)] if c["structure"] == "hcp" else [1, 1, 1]) * c["a"]
        ctx["count"] += len(atoms)
        if len(atoms) != nx * ny * nz * len(basis):
            return ["%d atoms in %s cells" % (len(atoms), c["reps"])]
        if np.abs(np.array(box, float) - np.diag(f * [nx, ny, nz])).max() > 1e-9:
            err.append("box %s" % (box,))
        if [x.id for x in atoms] != list(range(1, len(atoms) + 1)):
            err.append("ids %s" % [x.id for x in atoms][:20])
        pos = np.array([x.pos for x in atoms])
        exp, et = [], []
        for cell in itertools.product(range(nx), range(ny), range(nz)):
            for b, t in zip(basis, types):
                exp.append((np.array(cell) + b) * f)
                et.append(t)
        exp = np.array(exp)
        tol = 1e-9 if c["what"] == "crystal" else c["noise"] * 8
        # the order is not part of the contract
        left = list(range(len(exp)))
        for p, x in zip(pos, atoms):
            d = np.abs(exp[left] - p).max(1)
            j = int(np.argmin(d))
            if d[j] > tol or et[left[j]] != x.type:
                err.append("atom %d of type %d at %s" % (x.id, x.type, p))
                break
            left.pop(j)
        if c["what"] == "noise" and not err:
            dd = pos - exp
            if np.abs(dd).max() == 0 or not .7 < dd.std() / c["noise"] < 1.3 or np.abs(dd.mean()) > c["noise"]:
                err.append("noise of standard deviation %r, mean %r" % (dd.std(), dd.mean()))
        return err
    box, pos, types = gen(c)
    s = pc.System()
    s.box = box.tolist()
    n = len(pos)
    atoms = make_atoms(pos, types, ids=[5 + 3 * i for i in range(n)])
    r = rng("c20r", c["seed"])
    for i, a in enumerate(atoms):
        a.custom = {"v": i}
        a.condition = int(i % 2)
    s.atoms = atoms
    vol = abs(np.linalg.det(box))

    def check(tag, s, n, box, pos, ids):
        ctx["count"] += s.ntotal
        if s.natoms != n or len(s.atoms) != n or [a.id for a in s.atoms] != ids:
            err.append("%s: %d atoms instead of %d" % (tag, s.natoms, n))
            return
        if np.abs(np.array(s.box) - box).max() > 1e-12:
            err.append("%s: box %s" % (tag, s.box))
        if [a.custom for a in s.atoms] != [{"v": i} for i in range(n)]:
            err.append("%s: custom values" % tag)
        al = s.get_all_atoms()
        N = len(al)
        m = round((N // n) ** (1 / 3.))
        if N != s.ntotal or N != n * m ** 3 or m % 2 == 0 or (n < 200 and m < 3) or (n >= 200 and m != 1):
            err.append("%s: %d atoms with images for %d atoms" % (tag, N, n))
            return
        if np.abs(np.array(s._box) - m * box).max() > 1e-9:
            err.append("%s: completed box %s" % (tag, s._box))
        P = np.array([a.pos for a in al])
        if np.abs(P[:n] - pos).max() > 1e-12:
            err.append("%s: atoms moved" % tag)
        h = m // 2
        T = np.array(list(itertools.product(range(-h, h + 1), repeat=3)))
        T = T[np.argsort(np.abs(T).sum(1) > 0, kind="stable")]
        E = (pos[None, :, :] + T.dot(box)[:, None, :]).reshape(-1, 3)
        key = lambda X, tt: X
        d = np.abs(E - P).max(1)
        if d.max() > 1e-9:
            from scipy.spatial import cKDTree
            dd, jj = cKDTree(E).query(P)
            if dd.max() > 1e-9 or len(set(jj)) != N or (jj % n != np.arange(N) % n).any():
                err.append("%s: images are not the translations" % tag)
                return
        if [a.type for a in al] != list(types) * (N // n):
            err.append("%s: types of images" % tag)
        if [a.ghost for a in al] != [0] * n + [1] * (N - n):
            err.append("%s: ghost flags" % tag)
        if [a.loc for a in al] != list(range(N)):
            err.append("%s: locations" % tag)
        if len(set(a.id for a in al[n:])) != N - n and n:
            err.append("%s: ids of images not unique" % tag)

    ids = [a.id for a in atoms]
    check("set", s, n, box, pos, ids)
    if c["what"] == "images":
        # assign again
        s.atoms = s.atoms
        check("set twice", s, n, box, pos, ids)
        box2 = box * 1.25
        at2 = s.atoms
        for a in at2:
            a.pos = (np.array(a.pos) * 1.25).tolist()
        s.box = box2.tolist()
        if np.abs(np.array(s.box) - box2).max() > 1e-12:
            err.append("box not replaced")
        s.atoms = at2
        check("new box", s, n, box2, pos * 1.25, ids)
        return err
    a, b, g = c["reps"]
    bb = s._box
    bx = np.array(s.box)
    out = s.repeat((a, b, g), scale_box=c["scale"], ghost=c["ghost"])
    ctx["count"] += len(out)
    T = list(itertools.product(range(-a, a + 1), range(-b, b + 1), range(-g, g + 1)))
    T.sort(key=lambda t: t != (0, 0, 0))
    E = (pos[None] + np.array(T).dot(box)[:, None, :]).reshape(-1, 3)
    if len(out) != len(E):
        return err + ["repeat%s gives %d atoms" % ((a, b, g), len(out))]
    P = np.array([x.pos for x in out])
    if np.abs(P[:n] - pos).max() > 1e-12 or [x.id for x in out[:n]] != ids or [x.custom for x in out[:n]] != [{"v": i} for i in range(n)]:
        err.append("originals are not first")
    from scipy.spatial import cKDTree
    dd, jj = cKDTree(E).query(P)
    if dd.max() > 1e-9 or len(set(jj)) != len(E):
        err.append("repeat%s: copies are not the lattice translations" % ((a, b, g),))
    elif [x.type for x in out] != [types[j % n] for j in jj]:
        err.append("repeat%s: types of copies" % ((a, b, g),))
    if [x.id for x in out[n:]] != list(range(n + 1, len(E) + 1)):
        err.append("ids of copies")
    if [x.ghost for x in out[n:]] != [int(c["ghost"])] * (len(E) - n):
        err.append("ghost flags of copies")
    f = np.array([2 * a + 1, 2 * b + 1, 2 * g + 1])[:, None]
    eb = box * f if c["scale"] else box
    got = np.array(s._box if c["ghost"] else s.box)
    if c["ghost"] and not c["scale"]:
        got = np.array(s.box)
    if np.abs(got - eb).max() > 1e-9:
        err.append("repeat%s: box %s instead of %s" % ((a, b, g), got, eb))
    return err
