"""C06 Steinhardt parameters, shared helpers for C07, C08, C16"""
from common import *
from c02 import cut_for

ALL = list(range(2, 13))


def cases(seed, tier):
    q = tier == "quick"
    k = 0
    for rep in range(1 if q else 6):
        for b in ["ortho", "tri", "rot"]:
            for n in (9, 60, 210):
                for m in ("cutoff", "number", "adaptive", "voronoi", "sann"):
                    if m == "voronoi" and b != "ortho":
                        continue
                    k += 1
                    if q and k % 2 == seed % 2 and n == 60:
                        continue
                    yield {"what": "gas", "kind": "gas", "box": b, "n": n, "seed": seed * 1000 + k, "types": 2, "method": m,
                           "cond": ["none", "func", "attr", "clear"][k % 4], "filter": [None, "type", None, "type_r"][(k // 2) % 4],
                           "voroexp": 1 + k % 3}
    for kd, a in (("fcc", 1.01), ("bcc", 1.02), ("hcp", 1.2), ("dia", .6), ("sc", 1.2)):
        yield {"what": "crystal", "kind": kd, "reps": [3, 4, 3], "seed": seed, "types": 2, "cut": a}
    for rep in range(3 if q else 20):
        yield {"what": "single", "seed": seed * 17 + rep}
    for rep in range(2 if q else 8):
        yield {"what": "rotation", "kind": "gas", "n": 210, "box": "ortho", "seed": seed * 19 + rep, "types": 1}


def find(s, c, cut):
    m = c["method"]
    if m == "cutoff":
        s.find_neighbors(method="cutoff", cutoff=cut, filter=c.get("filter"))
    elif m == "number":
        s.find_neighbors(method="number", nmax=11, threshold=3)
    elif m == "voronoi":
        s.find_neighbors(method="voronoi", voroexp=c.get("voroexp", 1), filter=c.get("filter"))
    else:
        s.find_neighbors(method="cutoff", cutoff=m, threshold=4, filter=c.get("filter") if m == "adaptive" else None)


def set_cond(c, s, r):
    """-> keyword arguments and the conditions (of the real atoms)"""
    n = s.natoms
    if c["cond"] == "func":
        return dict(condition=lambda a: a.type == 2), [int(a.type == 2) for a in s.atoms]
    if c["cond"] == "attr":
        at = s.atoms
        v = [int(x) for x in r.randint(0, 2, n)]
        for a, x in zip(at, v):
            a.custom = {"mycond": x}
        s._update_atoms(at) if hasattr(s, "_update_atoms") else s.set_atoms(at)
        return dict(condition="mycond"), v
    if c["cond"] == "clear":
        s.calculate_q(4, condition=lambda a: a.type == 2)
        return dict(clear_condition=True), [0] * n
    return {}, [0] * n


def qlm_all(F, l, cond, rows):
    """oracle of the components for the given rows; None without eligible neighbors"""
    out = {}
    V, W, S = [], [], []
    for i in rows:
        a = F.atoms[i]
        nb = np.array(a.neighbors, int)
        v = np.array(a.neighbor_vector).reshape(-1, 3)
        w = np.array(a.neighbor_weights)
        sel = cond[nb] == cond[i] if len(nb) else np.zeros(0, bool)
        V.append(v[sel])
        W.append(w[sel])
    if not V:
        return out
    Y = ylm_all(np.concatenate(V), l)
    k = 0
    for i, w in zip(rows, W):
        out[i] = (Y[:, k:k + len(w)] * w).sum(1) / w.sum() if len(w) else None
        k += len(w)
    return out


def check_q(s, F, ls, cond, rows, ctx, tag=""):
    err = []
    for l in ls:
        Q = qlm_all(F, l, cond, rows)
        gv = s.get_qvals(l)
        if len(gv) != s.natoms:
            return [tag + "get_qvals(%d) returns %d values" % (l, len(gv))]
        for i in rows:
            if Q[i] is None:
                continue
            ctx["count"] += 1
            a = F.atoms[i]
            e = ql(Q[i], l)
            comp = np.array(a.get_qlm(l))
            vals = [a.get_q(l), a.allq[l - 2]] + ([gv[i]] if i < s.natoms else [])
            if len(comp) != 2 * l + 1 or np.abs(comp - Q[i]).max() > 1e-7:
                err.append(tag + "atom %d q%d components %s, expected %s" % (i, l, comp.tolist(), Q[i].tolist()))
            if any(not abs(x - e) <= 1e-7 for x in vals):
                err.append(tag + "atom %d q%d: %s, expected %r" % (i, l, vals, e))
            if np.abs(comp[::-1] - ((-1.) ** np.arange(-l, l + 1)) * np.conj(comp)).max() > 1e-9:
                err.append(tag + "atom %d q%d: conjugation symmetry violated" % (i, l))
            if len(err) > 3:
                return err
    return err


def run(c, ctx):
    err = []
    r = rng("c06", c["seed"])
    if c["what"] in ("gas", "crystal"):
        if c["what"] == "crystal":
            c = dict(c, method="cutoff", cond="none")
        s, box, pos, types = build(c)
        F = Full(s, box, s.natoms)
        cut = cut_for(F, 13) if c["what"] == "gas" else c["cut"]
        find(s, c, cut)
        kw, cond = set_cond(c, s, r)
        ls = ALL if F.N < 300 else [int(x) for x in r.permutation(ALL)[:4]]
        if r.rand() < .3:
            s.calculate_q(ls, averaged=True, **kw)
        else:
            s.calculate_q(ls, **kw)
        F = Full(s, box, s.natoms)
        cnd = np.array([cond[i % s.natoms] for i in range(F.N)])
        rows = range(F.N) if F.N <= 120 else sorted(set(int(x) for x in r.randint(0, F.N, 40)) | set(range(min(s.natoms, 30))))
        err += check_q(s, F, ls, cnd, rows, ctx)
        if len(ls) > 1:
            A = np.array(s.get_qvals(ls))
            B = np.array([s.get_qvals(l) for l in ls])
            if A.shape != B.shape or not np.array_equal(A, B, equal_nan=True):
                err.append("get_qvals of a list differs from single calls")
        # a single l, given as integer
        l = int(r.randint(2, 13))
        s.calculate_q(l)
        err += check_q(s, Full(s, box, s.natoms), [l], cnd, rows, ctx, "single l: ")
        return err
    if c["what"] == "single":
        # neighbors given by hand through the number method: one neighbor gives q=1
        s, box, pos, types = build({"kind": "gas", "n": 205, "seed": c["seed"], "box": "ortho"})
        s.find_neighbors(method="number", nmax=1, threshold=3)
        s.calculate_q(ALL)
        for l in ALL:
            v = np.array(s.get_qvals(l))
            ctx["count"] += len(v)
            if np.abs(v - 1).max() > 1e-9:
                err.append("q%d of atoms with a single neighbor: %r" % (l, v[np.argmax(np.abs(v - 1))]))
        return err
    if c["what"] == "rotation":
        box, pos, types = gen(c)
        q, _ = np.linalg.qr(r.normal(size=(3, 3)))
        perm = r.permutation(len(pos))
        res = []
        for b, p in ((box, pos), (box.dot(q), pos.dot(q)[perm])):
            s = pc.System()
            s.box = b.tolist()
            s.atoms = make_atoms(p, np.ones(len(p)))
            s.find_neighbors(method="cutoff", cutoff=1.5)
            s.calculate_q(ALL, averaged=True)
            res.append((np.array(s.get_qvals(ALL)), np.array(s.get_qvals(ALL, averaged=True))))
        for k in (0, 1):
            d = np.abs(res[0][k][:, perm] - res[1][k])
            ctx["count"] += d.size
            if not np.nanmax(d) < 1e-6:
                err.append("%s values change under rotation and reordering by %r" % (["q", "averaged q"][k], np.nanmax(d)))
        return err
