"""C21 store of atoms"""
from common import *

SCALAR = {"pos": "pos", "id": "i", "type": "i", "condition": "i", "mask": "b", "ghost": None, "cutoff": "f", "disorder": "f", "avg_disorder": "f", "cluster": "i", "solid": "b",
          "surface": "b", "largest_cluster": "b", "structure": "i", "volume": "f", "avg_volume": "f", "angular": "f", "avg_angular": "f", "centrosymmetry": "f",
          "entropy": "f", "avg_entropy": "f", "energy": "f", "avg_energy": "f", "avg_sij": "f", "custom": "d", "neighbors": "vi", "neighbor_weights": "vf", "next_neighbors": "vvi",
          "next_neighbor_distances": "vvf", "allq": "q", "allaq": "q", "face_vertices": "vi", "face_perimeters": "vf", "vertex_numbers": "vi", "vertex_vectors": "vf",
          "vertex_positions": "vvf", "edge_lengths": "vvf", "vorovector": "4", "chiparams": "vi", "cna": "vvi", "common": "vvi", "bonds": "vvi", "sro": "vf"}
SCALAR = {k: v for k, v in SCALAR.items() if v}
SIZED = ["neighbor_weights", "face_vertices", "face_perimeters"]
READ = sorted(SCALAR) + ["ghost", "coordination", "neighbor_distance", "neighbor_vector", "local_angles", "sij"]


def snap(a):
    d = {k: getattr(a, k) for k in READ}
    d["q"] = [a.get_q(l) for l in range(2, 13)]
    d["aq"] = [a.get_q(l, averaged=True) for l in range(2, 13)]
    d["qlm"] = repr([a.get_qlm(l) for l in (2, 7, 12)])
    return d


def cases(seed, tier):
    q = tier == "quick"
    for k in range(24 if q else 400):
        yield {"what": "atom", "seed": seed * 1000 + k}
    for k in range(20 if q else 300):
        yield {"what": "system", "kind": "gas", "box": ["ortho", "tri", "rot"][k % 3], "n": [3, 210, 12, 205, 70][k % 5], "seed": seed * 1000 + k, "types": 3, "steps": 9}
    for k in range(6 if q else 30):
        yield {"what": "boxes", "seed": seed * 1000 + k, "box": ["ortho", "tri", "rot", "left", "up", "one"][k % 6]}


def value(kind, r, m):
    f = lambda: float(r.normal())
    i = lambda: int(r.randint(-50, 1000))
    return {"pos": lambda: [f(), f(), f()], "i": i, "b": lambda: bool(r.randint(2)), "f": f, "d": lambda: {"x%d" % r.randint(5): f()},
            "vi": lambda: [i() for _ in range(m)], "vf": lambda: [f() for _ in range(m)], "vvi": lambda: [[i() for _ in range(r.randint(4))] for _ in range(m)],
            "vvf": lambda: [[f() for _ in range(r.randint(4))] for _ in range(m)], "q": lambda: [f() for _ in range(11)], "4": lambda: [i() for _ in range(4)]}[kind]()


def compare(a, exp, tag, err, skip=()):
    for k, v in exp.items():
        if k in skip:
            continue
        g = getattr(a, k)
        if not (g == v or repr(g) == repr(v)):
            err.append("%s: %s is %r instead of %r" % (tag, k, g, v))
            return


def rejected(err, a, tag, fn):
    before = snap(a)
    try:
        fn()
    except (ValueError, IndexError, RuntimeError, TypeError, KeyError):
        pass
    else:
        err.append("%s was accepted" % tag)
    if repr(snap(a)) != repr(before):
        err.append("%s modified the atom" % tag)


def run(c, ctx):
    err = []
    r = rng("c21", c["seed"])
    if c["what"] == "atom":
        p, i, t = [float(x) for x in r.normal(size=3)], int(r.randint(1000)), int(r.randint(9))
        a = Atom(pos=p, id=i, type=t)
        if (a.pos, a.id, a.type) != (p, i, t):
            err.append("constructor: %s" % ((a.pos, a.id, a.type),))
        m = [0, 1, 5, 299, 300][r.randint(5)]
        exp = {}
        names = sorted(SCALAR)
        names = [names[j] for j in r.permutation(len(names))]
        names.remove("neighbors")
        for k in ["neighbors"] + names:     # the length of some vectors is that of the neighbors
            mm = m if k in SIZED or k == "neighbors" else int(r.randint(6))
            exp[k] = value(SCALAR[k], r, mm)
            setattr(a, k, exp[k])
            ctx["count"] += 1
            compare(a, exp, "after setting %s" % k, err)
        if a.coordination != m:
            err.append("coordination")
        from copy import copy
        for l in range(2, 13):
            if a.get_q(l) != exp["allq"][l - 2] or a.get_q(l, averaged=True) != exp["allaq"][l - 2]:
                err.append("get_q(%d)" % l)
        ls = [int(x) for x in r.permutation(range(2, 13))[:r.randint(1, 11)]]
        vals = value("vf", r, len(ls))
        av = bool(r.randint(2))
        if r.rand() < .5:
            a.set_q(ls, vals, averaged=av)
        else:
            for l, v in zip(ls, vals):
                a.set_q(l, v, averaged=av)
        key = "allaq" if av else "allq"
        for l, v in zip(ls, vals):
            exp[key][l - 2] = v
        if a.get_q(ls, averaged=av) != vals:
            err.append("get_q of list")
        compare(a, exp, "after set_q", err)
        v = value("vf", r, 11)
        for k in ("pos", "allq", "allaq", "vorovector"):
            right = len(getattr(a, k))
            for n in range(14):
                if n != right:
                    rejected(err, a, "%s with %d values" % (k, n), lambda: setattr(a, k, [1] * n))
        for k in ("neighbors", "neighbor_weights", "face_vertices", "face_perimeters"):
            for n in (301, 302, 1000):
                rejected(err, a, "%s with %d values" % (k, n), lambda: setattr(a, k, [1] * n))
        for l in (-2000000, -3, -1, 0, 1, 13, 14, 100, 2000000):
            for av in (False, True):
                rejected(err, a, "get_q(%d)" % l, lambda: a.get_q(l, averaged=av))
                rejected(err, a, "get_q([4,%d])" % l, lambda: a.get_q([4, l], averaged=av))
                rejected(err, a, "get_qlm(%d)" % l, lambda: a.get_qlm(l, averaged=av))
                rejected(err, a, "set_q(%d)" % l, lambda: a.set_q(l, .5, averaged=av))
                rejected(err, a, "set_q([4,%d])" % l, lambda: a.set_q([4, l], [.5, .25], averaged=av))
                rejected(err, a, "set_q([4,6],[1])", lambda: a.set_q([4, 6], [.5], averaged=av))
                rejected(err, a, "set_q([4],[1,2])", lambda: a.set_q([4], [.5, .3], averaged=av))
        compare(a, exp, "after invalid requests", err)
        return err[:4]
    if c["what"] == "boxes":
        s = pc.System()
        for k in range(4):
            kind = c["box"] if k % 2 == 0 else ["ortho", "tri"][r.randint(2)]
            box = make_box(kind, r.uniform(1, 20, 3), r)
            v = box.tolist() if r.randint(2) else box
            s.box = v
            ctx["count"] += 1
            if np.abs(np.array(s.box) - box).max() > 0 or np.abs(np.array(s._box) - box).max() > 0:
                err.append("box %s instead of %s" % (s.box, box))
            n = np.sqrt((box ** 2).sum(1))
            if np.abs(np.array([s.boxx, s.boxy, s.boxz]) - n).max() > 1e-9:
                err.append("box lengths %s" % ([s.boxx, s.boxy, s.boxz],))
            if bool(s.triclinic) != (kind != "ortho"):
                err.append("triclinic is %s for %s" % (s.triclinic, kind))
            if s.triclinic and np.abs(np.array(s.get_triclinic_params()) - box.T).max() > 1e-9:
                err.append("triclinic parameters")
        return err[:4]
    # system
    box, pos, types = gen(c)
    s = pc.System()
    s.box = box.tolist()
    n = c["n"]

    def fresh(k):
        out = []
        for j in range(k):
            a = Atom(pos=[float(x) for x in r.uniform(0, 1, 3).dot(box)], id=int(r.randint(100000)), type=int(r.randint(1, 5)))
            a.custom = {"tag": int(r.randint(10 ** 6))}
            if r.rand() < .2:
                m = int(r.randint(5))
                a.neighbors = [int(x) for x in r.randint(0, n, m)]
                a.sro = value("vf", r, 2)
                a.allq = value("q", r, 0)
                a.solid = bool(r.randint(2))
                a.vorovector = value("4", r, 0)
            out.append(a)
        return out

    lst = fresh(n)
    s.atoms = lst
    model = [snap(a) for a in lst]

    def check(tag):
        ctx["count"] += 1
        got = s.atoms
        if len(got) != len(model) or s.natoms != len(model) or s.nop != len(model):
            err.append("%s: %d atoms instead of %d" % (tag, len(got), len(model)))
            return
        for i, (a, b) in enumerate(zip(got, model)):
            if repr(snap(a)) != repr(b):
                err.append("%s: atom %d differs: %s" % (tag, i, [(k, v, b[k]) for k, v in snap(a).items() if repr(v) != repr(b[k])][:2]))
                return
        if [a.loc for a in got] != list(range(len(got))):
            err.append("%s: locations" % tag)
        i = int(r.randint(len(model)))
        if repr(snap(s.get_atom(i))) != repr(model[i]) or s.get_atom(i).loc != i:
            err.append("%s: get_atom(%d)" % (tag, i))
        if [repr(a.pos) for a in s.iter_atoms()] != [repr(m["pos"]) for m in model]:
            err.append("%s: iter_atoms" % tag)
        g = [a.ghost for a in s.get_all_atoms()]
        if g != [0] * len(model) + [1] * (s.ntotal - len(model)):
            err.append("%s: images are not last" % tag)
        if [a.loc for a in s.get_all_atoms()] != list(range(s.ntotal)):
            err.append("%s: locations" % tag)
        if [repr(snap(a)) for a in s.get_all_atoms()[len(model):]] != images:
            err.append("%s: images were modified" % tag)

    images = [repr(snap(a)) for a in s.get_all_atoms()[n:]]
    check("assigned")
    log = []
    for step in range(c["steps"]):
        op = ["set", "add", "invalid", "assign", "get", "addghost"][r.choice(6, p=[.45, .15, .2, .1, .08, .02])]
        log.append(op)
        if op == "set":
            i = int(r.randint(len(model)))
            a = s.get_atom(i)
            for k in [sorted(SCALAR)[j] for j in r.randint(0, len(SCALAR), 3)]:
                setattr(a, k, value(SCALAR[k], r, a.coordination if k in SIZED else int(r.randint(5))))
            # the copy is not the stored atom
            if repr(snap(s.get_atom(i))["pos"]) != repr(model[i]["pos"]):
                err.append("get_atom gives a reference")
            model[i] = snap(a)
            s.set_atom(a)
        elif op == "add":
            new = fresh(int(r.randint(0, 5)))
            s.add_atoms(new)
            model += [snap(a) for a in new]
        elif op == "addghost":
            new = fresh(int(r.randint(0, 4)))
            gh = []
            for a in new:
                a.ghost = int(r.randint(2))
            s.add_atoms(new)
            model += [snap(a) for a in new if not a.ghost]
            images += [repr(snap(a)) for a in new if a.ghost]
        elif op == "assign":
            new = s.atoms
            p = r.permutation(len(new))
            new = [new[j] for j in p]
            model = [model[j] for j in p]
            s.atoms = new
            images = [repr(snap(a)) for a in s.get_all_atoms()[len(model):]]
        elif op == "get":
            for a in s.atoms:
                a.pos = [0, 0, 0]
        else:
            bad = [-1, s.ntotal, s.ntotal + 5, -10 ** 6, 10 ** 8][r.randint(5)]
            try:
                s.get_atom(bad)
                err.append("get_atom(%d) was accepted" % bad)
            except (IndexError, ValueError):
                pass
            a = fresh(1)[0]
            a.loc = bad
            try:
                s.set_atom(a)
                err.append("set_atom with loc %d was accepted" % bad)
            except (IndexError, ValueError):
                pass
        check("%s" % log)
        if err:
            break
    return err[:4]
