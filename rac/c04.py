"""C04 number, adaptive and SANN neighbors"""
from common import *


def cases(seed, tier):
    q = tier == "quick"
    k = 0
    for rep in range(1 if q else 5):
        for b in ["ortho", "tri", "left", "rot", "one"]:
            for n in (3, 31, 201, 260):
                k += 1
                yield {"what": "gas", "kind": "gas", "box": b, "n": n, "seed": seed * 1000 + k, "types": 2, "rho": [1.0, .05, 8.0][k % 3]}
    yield {"what": "gas", "kind": "bcc", "reps": [6, 6, 6], "noise": .03, "seed": seed, "types": 2, "a": 2.0}
    yield {"what": "gas", "kind": "fcc", "reps": [2, 2, 2], "noise": .05, "seed": seed, "types": 2, "a": 4.0, "box": "tri"}
    yield {"what": "gas", "kind": "dia", "reps": [3, 3, 4], "noise": .05, "seed": seed, "types": 2, "a": 5.0}
    yield {"what": "big", "kind": "gas", "n": 4010, "box": "ortho", "seed": seed, "types": 2, "L": [15.9, 16.3, 15.5]}
    for rep in range(4 if q else 12):
        yield {"what": "cluster", "seed": seed * 13 + rep}


def check_number(F, nmax, thr, rows, tag):
    err = []
    tol = 1e-9 * np.abs(F.box).max()
    for i, d, _ in all_rows(F, rows):
        d = d.copy()
        d[i] = np.inf
        o = np.argsort(d, kind="stable")[:nmax]
        a = F.atoms[i]
        if a.coordination != nmax or len(set(a.neighbors)) != nmax or i in a.neighbors:
            err.append(tag + "atom %d has %d neighbors (%d distinct), expected %d" % (i, a.coordination, len(set(a.neighbors)), nmax))
        elif np.abs(np.array(a.neighbor_distance) - d[o]).max() > tol or np.abs(d[np.array(a.neighbors, int)] - d[o]).max() > tol:
            err.append(tag + "atom %d: distances %s, expected the nearest %s" % (i, a.neighbor_distance, d[o].tolist()))
        elif abs(a.cutoff - d[o[-1]]) > tol:
            err.append(tag + "atom %d: cutoff %r, expected %r" % (i, a.cutoff, d[o[-1]]))
        if len(err) > 3:
            break
    return err


def check_adaptive(F, nlimit, padding, filt, rows, tag):
    err = []
    tol = 1e-9 * np.abs(F.box).max()
    for i, d, _ in all_rows(F, rows):
        d = d.copy()
        d[i] = np.inf
        srt = np.sort(d)[:nlimit]
        dc = padding * srt.mean()
        adm = np.ones(F.N, bool)
        if filt == "type":
            adm = F.types == F.types[i]
        elif filt == "type_r":
            adm = F.types != F.types[i]
        must = set(np.where(adm & (d < dc - tol))[0].tolist())
        may = set(np.where(adm & (d < dc + tol))[0].tolist())
        a = F.atoms[i]
        g = set(a.neighbors)
        if len(g) != a.coordination or not (must <= g <= may):
            err.append(tag + "atom %d: neighbors missing %s, wrong %s, %d listed, %d distinct" %
                       (i, sorted(must - g)[:4], sorted(g - may)[:4], a.coordination, len(g)))
        elif g and abs(a.cutoff - dc) > tol * 10:
            err.append(tag + "atom %d: cutoff %r, expected %r" % (i, a.cutoff, dc))
        if len(err) > 3:
            break
    return err


def check_sann(F, rows, tag, ctx):
    err = []
    tol = 1e-9 * np.abs(F.box).max()
    for i, d, _ in all_rows(F, rows):
        d = d.copy()
        d[i] = np.inf
        o = np.argsort(d, kind="stable")
        sd = d[o]
        m = 3
        while m < F.N - 1 and sd[:m].sum() / (m - 2) >= sd[m]:
            m += 1
        amb = any(abs(sd[:k].sum() / (k - 2) - sd[k]) < 1e-7 * sd[k] for k in range(3, min(m + 1, F.N - 1)))
        if amb:
            continue
        a = F.atoms[i]
        g = set(a.neighbors)
        dc = sd[:m].sum() / (m - 2)
        gd = np.sort(d[list(g)])
        same = lambda e: len(g) == a.coordination == len(e) and np.abs(gd - np.sort(e)).max() <= tol
        if same(sd[:m]) and abs(a.cutoff - dc) <= 100 * tol:
            continue
        # known finding sann-fourth-neighbor: rank 3 is skipped and rank m is included if more than 3 were found;
        # the wrong sum also changes which m ends the search
        mm, sm = 3, sd[:3].sum()
        while mm < F.N - 1 and sm / (mm - 2) >= sd[mm]:
            mm += 1
            if mm == F.N - 1:
                break
            sm += sd[mm]
        if mm > 3 and same(np.concatenate([sd[:3], sd[4:mm + 1]])) and abs(a.cutoff - sm / (mm - 2)) <= 100 * tol:
            ctx["known"]["sann-fourth-neighbor"] = "SANN neighbors of an atom with distances %s are %s" % (
                np.round(sd[:mm + 2], 4).tolist(), np.round(np.sort(d[list(g)]), 4).tolist())
            continue
        err.append(tag + "atom %d: %d neighbors at %s, cutoff %r; distances are %s, expected m=%d cutoff %r" %
                   (i, a.coordination, np.sort(d[list(g)]).tolist(), a.cutoff, sd[:m + 2].tolist(), m, dc))
        if len(err) > 3:
            break
    return err


def run(c, ctx):
    err = []
    if c["what"] == "cluster":
        # atoms close together in a large empty box: candidates run out and an error is due
        r = rng("c04", c["seed"])
        n = 210
        box = np.diag([40.0, 40.0, 40.0])
        pos = r.uniform(0, 6, (n, 3)) + 5
        pos[:3] = [[30, 30, 30], [31, 30, 30.3], [20, 8, 31]]
        s = pc.System()
        s.box = box.tolist()
        s.atoms = make_atoms(pos, np.ones(n))
        for thr in (1.0, 2.0, 5.0):
            gd = thr * (40.0 ** 3 / n) ** (1 / 3.)
            F = Full(s, box, n)
            D = distance_matrix(F.pos, F.box)
            np.fill_diagonal(D, np.inf)
            D.sort(axis=1)
            for nmax in (1, 4, 12, 14):
                can = (D[:, nmax - 1] <= gd).all()
                try:
                    s.find_neighbors(method="number", nmax=nmax, threshold=thr)
                    ok = True
                except RuntimeError:
                    ok = False
                ctx["count"] += 1
                if ok:
                    err += check_number(Full(s, box, n), nmax, thr, range(n), "number %d threshold %r: " % (nmax, thr))
                elif can:
                    err.append("number %d threshold %r: error although %d neighbors are within the search distance" % (nmax, thr, nmax))
            for nl, pad in ((6, 1.2), (3, 1.0), (6, 2.5), (2, 4.0)):
                dc = pad * D[:, :nl].mean(1)
                can = (D[:, nl - 1] <= gd).all() and (dc <= gd).all()
                try:
                    s.find_neighbors(method="cutoff", cutoff="adaptive", nlimit=nl, padding=pad, threshold=thr)
                    ok = True
                except RuntimeError:
                    ok = False
                ctx["count"] += 1
                if ok:
                    err += check_adaptive(Full(s, box, n), nl, pad, None, range(n), "adaptive %d %r threshold %r: " % (nl, pad, thr))
                elif can:
                    err.append("adaptive %d %r threshold %r: error although all candidates are within the search distance" % (nl, pad, thr))
            try:
                s.find_neighbors(method="cutoff", cutoff="sann", threshold=thr)
                ok = True
            except RuntimeError:
                ok = False
            ctx["count"] += 1
            if ok:
                err += check_sann(Full(s, box, n), range(n), "sann threshold %r: " % thr, ctx)
            if err:
                return err
        return err
    s, box, pos, types = build(c)
    n = s.natoms
    F = Full(s, box, n)
    big = c["what"] == "big"
    rows = range(F.N) if F.N <= 300 else sorted(set(range(0, F.N, max(1, F.N // 120))) | set(range(min(n, 40))))
    ctx["count"] += len(rows)
    for nmax, thr in ((12, 3), (1, 2.5), (4, 3.0), (25, 4)) if not big else ((11, 3),):
        s.find_neighbors(method="number", nmax=nmax, threshold=thr)
        err += check_number(Full(s, box, n), nmax, thr, rows, "number %d threshold %r: " % (nmax, thr))
        if err:
            return err
    for nl, pad, f, cut in ((6, 1.2, None, "adaptive"), (6, 1.5, "type", 0), (10, 1.05, "type_r", "adaptive"), (1, 1.9, None, 0),
                            (3, 1.0, "type", "adaptive")) if not big else ((6, 1.2, None, "adaptive"), (5, 1.4, "type_r", 0)):
        s.find_neighbors(method="cutoff", cutoff=cut, nlimit=nl, padding=pad, filter=f, threshold=4 if not big else 3)
        err += check_adaptive(Full(s, box, n), nl, pad, f, rows, "adaptive nlimit %d padding %r filter %s: " % (nl, pad, f))
        if err:
            return err
    for thr in (4, 3.2) if not big else (3,):
        s.find_neighbors(method="cutoff", cutoff="sann", threshold=thr)
        err += check_sann(Full(s, box, n), rows, "sann threshold %r: " % thr, ctx)
    return err
