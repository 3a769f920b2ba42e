"""Oracles and generators shared by the run-time contract checks.

Runs with the interpreter of the project (numpy only) on a scratch build of the real code.
Oracles are independent numpy implementations of the specification, never of the code.
"""
import itertools
import math
import warnings
import numpy as np

warnings.simplefilter("ignore")

from pyscal.catom import Atom
import pyscal.core as pc


# ------------------------------------------------------------------ generators
def rng(*key):
    h = 1469598103934665603
    for k in key:
        for ch in repr(k):
            h = ((h ^ ord(ch)) * 1099511628211) % (1 << 64)
    return np.random.RandomState(h % (1 << 32))


BASIS = {
    "sc": [(0, 0, 0)],
    "bcc": [(0, 0, 0), (.5, .5, .5)],
    "fcc": [(0, 0, 0), (.5, 0, .5), (0, .5, .5), (.5, .5, 0)],
    "l12": [(0, 0, 0), (.5, 0, .5), (0, .5, .5), (.5, .5, 0)],
    "dia": [(0, 0, 0), (.25, .25, .25), (.5, .5, 0), (.75, .75, .25), (.5, 0, .5), (0, .5, .5), (.75, .25, .75),
            (.25, .75, .75)],
    "hcp": [(0, 0, 0), (.5, .5, 0), (.5, 1 / 6., .5), (0, 2 / 3., .5)],
}


def make_box(kind, L, r):
    """box vectors as rows"""
    L = np.array(L, float) * np.ones(3)
    if kind == "ortho":
        return np.diag(L)
    if kind == "tri":
        b = np.diag(L)
        b[1, 0] = L[0] * r.uniform(-.4, .4)
        b[2, 0] = L[0] * r.uniform(-.4, .4)
        b[2, 1] = L[1] * r.uniform(-.4, .4)
        return b
    if kind == "up":            # only upper off-diagonal elements
        b = np.diag(L)
        b[0, 1] = L[0] * r.uniform(.1, .3)
        b[0, 2] = L[0] * r.uniform(-.3, -.1)
        return b
    if kind == "one":           # a single tilt
        b = np.diag(L)
        i, j = [(1, 0), (2, 0), (2, 1), (0, 1), (0, 2), (1, 2)][r.randint(6)]
        b[i, j] = .3 * L[i]
        return b
    if kind == "rot":           # general, rotated
        q, _ = np.linalg.qr(r.normal(size=(3, 3)))
        if np.linalg.det(q) < 0:
            q[0] *= -1
        b = make_box("tri", L, r)
        return b.dot(q)
    if kind == "left":          # left handed
        b = make_box("tri", L, r)
        return b[[1, 0, 2]]
    raise ValueError(kind)


def gen(d):
    """description -> (box 3x3 rows, positions, types), deterministic"""
    r = rng("gen", d.get("seed", 0), d.get("kind", "gas"), d.get("n", 0))
    kind = d.get("kind", "gas")
    bk = d.get("box", "ortho")
    if kind == "gas":
        n = d["n"]
        L = np.array(d.get("L", (n / d.get("rho", 1.0)) ** (1 / 3.)), float) * np.ones(3)
        if d.get("aniso", True) and "L" not in d:
            f = r.uniform(.8, 1.25, 3)
            f /= np.prod(f) ** (1 / 3.)
            L = L * f
        box = make_box(bk, L, r)
        frac = r.uniform(0, 1, (n, 3))
    else:
        reps = np.array(d["reps"])
        a = np.array(d.get("a", 1.0)) * np.ones(3)
        if kind == "hcp":
            a = a * np.array([1, np.sqrt(3), d.get("ca", 1.633)])
        box = make_box(bk, a * reps, r)
        frac = []
        for c in itertools.product(*[range(k) for k in reps]):
            for b in BASIS[kind]:
                frac.append((np.array(c) + np.array(b)) / reps)
        frac = np.array(frac)
        if d.get("remove"):
            keep = r.permutation(len(frac))[d["remove"]:]
            keep.sort()
            frac = frac[keep]
        if d.get("shuffle"):
            frac = frac[r.permutation(len(frac))]
        n = len(frac)
    pos = frac.dot(box)
    if d.get("noise"):
        pos = pos + r.normal(scale=d["noise"], size=pos.shape)
        f = pos.dot(np.linalg.inv(box))
        f -= np.floor(f)
        f[f >= 1] = 0
        pos = f.dot(box)
    if d.get("shift"):
        pos = pos + np.array(d["shift"]).dot(box)
        f = pos.dot(np.linalg.inv(box))
        f -= np.floor(f)
        f[f >= 1] = 0
        pos = f.dot(box)
    k = d.get("types", 1)
    if kind == "l12" and k == 1:
        types = np.array([[1, 2, 2, 2][i % 4] for i in range(n)])
    else:
        labels = d.get("labels", list(range(1, k + 1)))
        types = np.array([labels[t] for t in r.randint(0, len(labels), n)])
    return box, pos, types


def make_atoms(pos, types, ids=None):
    return [Atom(pos=list(map(float, p)), id=int(i + 1 if ids is None else ids[i]), type=int(t))
            for i, (p, t) in enumerate(zip(pos, types))]


def build(d):
    box, pos, types = gen(d)
    s = pc.System()
    s.box = [[float(x) for x in row] for row in box]
    s.atoms = make_atoms(pos, types)
    return s, box, pos, types


# ------------------------------------------------------------------ geometry oracles
def minimg(d, box):
    """displacements (..,3) shifted into the box-fractional cube [-1/2,1/2]"""
    f = d.dot(np.linalg.inv(box))
    f = f - np.round(f)
    return f.dot(box)


class Full:
    """state of all atoms (with images) as stored in the system; box is that of the completed system"""

    def __init__(self, s, box, n):
        self.atoms = s.get_all_atoms()
        self.N = len(self.atoms)
        self.n = n
        self.pos = np.array([a.pos for a in self.atoms])
        self.types = np.array([a.type for a in self.atoms])
        self.ghost = np.array([a.ghost for a in self.atoms])
        k = round((self.N / float(n)) ** (1 / 3.)) if self.N != n else 1
        self.reps = k
        self.box = np.array(box) * k

    def dist_rows(self, rows):
        d = self.pos[None, :, :] - self.pos[rows][:, None, :]
        v = minimg(d, self.box)
        return np.sqrt((v ** 2).sum(-1)), v


def distance_matrix(pos, box):
    N = len(pos)
    out = np.empty((N, N))
    for a in range(0, N, 256):
        d = pos[None, :, :] - pos[a:a + 256][:, None, :]
        v = minimg(d, box)
        out[a:a + 256] = np.sqrt((v ** 2).sum(-1))
    return out


def all_rows(F, rows=None, chunk=200):
    rows = np.arange(F.N) if rows is None else np.array(rows)
    for a in range(0, len(rows), chunk):
        rr = rows[a:a + chunk]
        d, v = F.dist_rows(rr)
        for x, i in enumerate(rr):
            yield i, d[x], v[x]


def close(a, b, tol=1e-8):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | ((a == b))))


def neighbor_data_errors(F, rows=None, weights=True, tag="", limit=5):
    """C05: everything stored with neighbors is consistent"""
    err = []
    rows = range(F.N) if rows is None else rows
    scale = np.abs(F.box).max()
    for i in rows:
        a = F.atoms[i]
        nb = np.array(a.neighbors, int)
        c = a.coordination
        L = [len(nb), len(a.neighbor_distance), len(a.neighbor_vector), len(a.local_angles), len(a.neighbor_weights)]
        if any(x != c for x in L):
            err.append("%satom %d: list lengths %s do not equal coordination %d" % (tag, i, L, c))
            continue
        if c == 0:
            continue
        if nb.min() < 0 or nb.max() >= F.N:
            err.append("%satom %d: neighbor index out of range %s" % (tag, i, nb.tolist()))
            continue
        v = minimg(F.pos[nb] - F.pos[i], F.box)
        dist = np.sqrt((v ** 2).sum(1))
        gv = np.array(a.neighbor_vector)
        gd = np.array(a.neighbor_distance)
        if np.abs(gd - dist).max() > 1e-9 * scale:
            k = int(np.argmax(np.abs(gd - dist)))
            err.append("%satom %d neighbor #%d (%d): distance %r, expected %r" % (tag, i, k, nb[k], gd[k], dist[k]))
        # vectors: equal unless at the tie of the wrap
        fr = (F.pos[nb] - F.pos[i]).dot(np.linalg.inv(F.box))
        tie = np.abs(np.abs(fr - np.floor(fr)) - .5) < 1e-9
        bad = np.abs(gv - v).max(1) > 1e-9 * scale
        for k in np.where(bad)[0]:
            if tie[k].any():
                gf = gv[k].dot(np.linalg.inv(F.box))
                df = gf - fr[k]
                if np.abs(df - np.round(df)).max() < 1e-9 and np.abs(gf).max() <= .5 + 1e-9:
                    continue
            err.append("%satom %d neighbor #%d (%d): vector %s, expected %s" % (tag, i, k, nb[k], gv[k].tolist(), v[k].tolist()))
            break
        ang = np.array(a.local_angles)
        g = np.sqrt((gv ** 2).sum(1))
        with np.errstate(all="ignore"):
            th = np.arccos(np.clip(gv[:, 2] / g, -1, 1))
        ph = np.arctan2(gv[:, 1], gv[:, 0])
        dphi = np.abs(np.angle(np.exp(1j * (ang[:, 0] - ph))))
        onaxis = np.hypot(gv[:, 0], gv[:, 1]) < 1e-8 * g
        if (np.abs(ang[:, 1] - th) > 1e-6).any() or (dphi[~onaxis] > 1e-7).any() or np.abs(ang[:, 0]).max() > math.pi + 1e-9:
            k = int(np.argmax(np.maximum(np.abs(ang[:, 1] - th), np.where(onaxis, 0, dphi))))
            err.append("%satom %d neighbor #%d: angles %s, expected %s" % (tag, i, k, ang[k].tolist(), [ph[k], th[k]]))
        if weights and not np.all(np.array(a.neighbor_weights) == 1.0):
            err.append("%satom %d: weights %s are not 1" % (tag, i, a.neighbor_weights))
        if len(err) >= limit:
            break
    return err


# ------------------------------------------------------------------ spherical harmonics (scipy free)
_coef = {}


def _plm(l, m, x):
    """associated Legendre function with Condon-Shortley phase via explicit derivative of polynomials"""
    if (l, m) not in _coef:
        p = np.polynomial.legendre.Legendre.basis(l).convert(kind=np.polynomial.Polynomial)
        _coef[l, m] = (p.deriv(m) if m else p).coef[::-1]
    y = np.zeros_like(x)
    for k in _coef[l, m]:
        y = y * x + k
    return (-1) ** m * (1 - x * x) ** (m / 2.0) * y


def ylm(l, m, theta, phi):
    am = abs(m)
    x = np.cos(theta)
    nrm = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - am) / math.factorial(l + am))
    y = nrm * _plm(l, am, x) * np.exp(1j * am * phi)
    if m < 0:
        y = (-1) ** am * np.conj(y)
    return y


def ylm_all(v, l):
    """(2l+1, n) spherical harmonics m=-l..l of the directions v (n,3)"""
    v = np.asarray(v, float).reshape(-1, 3)
    r = np.sqrt((v ** 2).sum(1))
    x = np.clip(v[:, 2] / r, -1, 1)
    e = np.exp(1j * np.arctan2(v[:, 1], v[:, 0]))
    out = np.empty((2 * l + 1, len(v)), complex)
    ph = np.ones(len(v), complex)
    for m in range(l + 1):
        nrm = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) / math.factorial(l + m))
        y = nrm * _plm(l, m, x) * ph
        out[l + m] = y
        out[l - m] = (-1) ** m * np.conj(y)
        ph = ph * e
    return out


def qlm_of(vectors, weights, l):
    """weighted mean of Y_lm over directions, m=-l..l"""
    w = np.asarray(weights, float)
    return (ylm_all(vectors, l) * w).sum(1) / w.sum()


def ql(qlm, l):
    return math.sqrt(4 * math.pi / (2 * l + 1) * (np.abs(qlm) ** 2).sum())


# ------------------------------------------------------------------ neighbor set oracle
def cutoff_sets_errors(F, cutoff, filt=None, rows=None, tag="", limit=5):
    err = []
    tol = 1e-9 * np.abs(F.box).max()
    for i, d, _ in all_rows(F, rows):
        adm = np.ones(F.N, bool)
        if filt == "type":
            adm = F.types == F.types[i]
        elif filt == "type_r":
            adm = F.types != F.types[i]
        must = adm & (d < cutoff - tol)
        may = adm & (d < cutoff + tol)
        must[i] = may[i] = False
        got = list(F.atoms[i].neighbors)
        sg = set(got)
        if len(sg) != len(got):
            err.append("%satom %d: a neighbor is listed more than once" % (tag, i))
        elif not set(np.where(must)[0]) <= sg:
            err.append("%satom %d: neighbors %s are missing" % (tag, i, sorted(set(np.where(must)[0].tolist()) - sg)[:5]))
        elif not sg <= set(np.where(may)[0]):
            err.append("%satom %d: %s are no neighbors" % (tag, i, sorted(sg - set(np.where(may)[0].tolist()))[:5]))
        if len(err) >= limit:
            break
    return err
