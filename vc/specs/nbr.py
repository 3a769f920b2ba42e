"""Neighbor lists (C02, C04, C05, C22): cutoff lists, resets, number lists."""
from speclib import *
from specs.geo import *
import sym

MAXN = 300
NIL = 333333


def g_npos(ex, st, lv, val):
    """ghost: slot of a neighbor in the list of its host"""
    if len(lv.idx) == 2 and lv.path[0] == "this":
        a, k = lv.idx
        ex.rawwrite(st, ("this", "atoms", "[]", "$npos", "[]"), (a, val), k)


sym.GHOSTS[("atoms", "[]", "neighbors", "[]")] = g_npos


def g_tpos(ex, st, lv, val):
    if len(lv.idx) == 2 and lv.path[0] == "this":
        a, k = lv.idx
        ex.rawwrite(st, ("this", "atoms", "[]", "$tpos", "[]"), (a, val), k)


sym.GHOSTS[("atoms", "[]", "temp_neighbors", "[]", "index")] = g_tpos


def wf(o):
    return [("number of atoms", And(o("nop") == o.raw("atoms.#len"), o("nop") >= 0))]


def nnv(v, a):
    return v("atoms[].n_neighbors", a)


def nb(v, a, k):
    return v("atoms[].neighbors[]", a, k)


def npos(v, a, b):
    return v("atoms[].$npos[]", a, b)


def adm(o, g, a, b, strict=True):
    """b is a neighbor of a under the cutoff and the type filter"""
    nd = o("neighbordistance")
    d = Dist(g, a, b)
    ta, tb = o("atoms[].type", a), o("atoms[].type", b)
    fl = o("filter")
    return And(a != b, d < nd if strict else d <= nd, imp(fl == 1, ta == tb), imp(fl == 2, ta != tb))


NDATA = ["neighbordist[]", "n_diffx[]", "n_diffy[]", "n_diffz[]", "n_r[]", "n_phi[]", "n_theta[]", "neighborweight[]"]


def data(v, g, a, k, weights=True):
    """recorded data of neighbor slot k of atom a agree with the geometry (C05)"""
    b = nb(v, a, k)
    at = lambda f: v("atoms[]." + f, a, k)
    x, y, z = DX(g, a, b), DY(g, a, b), DZ(g, a, b)
    out = [("distance", at("neighbordist[]") == Dist(g, a, b)),
           ("x of vector", at("n_diffx[]") == x), ("y of vector", at("n_diffy[]") == y), ("z of vector", at("n_diffz[]") == z),
           ("radius", at("n_r[]") == SphR(x, y, z)), ("azimuth", at("n_phi[]") == SphPhi(x, y, z)), ("polar angle", at("n_theta[]") == SphTheta(x, y, z))]
    if weights:
        out.append(("weight one", at("neighborweight[]") == 1))
    return out


def lists(o, s, g, P, admf, cut=True):
    """clauses of a correct set of neighbor lists restricted to the pairs in P"""
    a, b, k = ints("a b k")
    n = o("nop")
    A, K = rng(a, 0, n), rng(k, 0, nnv(s, a))
    h = nb(s, a, k)
    out = [("list length within capacity", FA([a], imp(A, And(nnv(s, a) >= 0, nnv(s, a) <= MAXN)), [nnv(s, a)]), ["C02", "C22"])]
    pat = [h]
    out.append(("entries are atoms", FA([a, k], imp(And(A, K), rng(h, 0, n)), pat), ["C02"]))
    out.append(("entries are neighbors", FA([a, k], imp(And(A, K), And(admf(a, h), P(a, h))), pat), ["C02", "C03"]))
    out.append(("no duplicates", FA([a, k], imp(And(A, K), npos(s, a, h) == k), pat), ["C02", "C03"]))
    for nm, f in data(s, g, a, k):
        # trigger on the data term
        t = f.arg(0)
        out.append((nm, FA([a, k], imp(And(A, K), f), [t, h]), ["C05"]))
    out.append(("no neighbor missed", FA([a, b], imp(And(A, rng(b, 0, n), P(a, b), admf(a, b)),
                                               And(rng(npos(s, a, b), 0, nnv(s, a)), nb(s, a, npos(s, a, b)) == b)), [npos(s, a, b)]), ["C02", "C03"]))
    if cut:
        out.append(("cutoff of atoms with neighbors", FA([a], imp(And(A, nnv(s, a) > 0), s("atoms[].cutoff", a) == o("neighbordistance")), [s("atoms[].cutoff", a)]), ["C02"]))
    return out


def mn(a, b):
    return z3.If(a < b, a, b)


def mx(a, b):
    return z3.If(a < b, b, a)


def inv_normal_outer(c):
    g = geo(c.old)
    i = c.i
    return [(x[0], x[1]) for x in lists(c.old, c.s, g, lambda a, b: z3.Or(a < i, b < i), lambda a, b: adm(c.old, g, a, b))]


def inv_normal_inner(c):
    g = geo(c.old)
    i, j = c.outer[-1], c.i
    return [(x[0], x[1]) for x in lists(c.old, c.s, g, lambda a, b: z3.Or(a < i, b < i, And(a == i, b < j), And(b == i, a < j)), lambda a, b: adm(c.old, g, a, b))]


def empty(o):
    a = z3.Int("a")
    return [("all lists are empty", FA([a], imp(rng(a, 0, o("nop")), nnv(o, a) == 0), [nnv(o, a)]))]


def pre_normal(c):
    return wf(c.old) + boxpos(c) + empty(c.old)


def post_normal(c):
    g = geo(c.old)
    return lists(c.old, c.new, g, lambda a, b: z3.BoolVal(True), lambda a, b: adm(c.old, g, a, b)) + [
        ("Voronoi flag reset", c.new("voronoiused") == 0, ["C06", "C22"])]


MODS = ["atoms[].n_neighbors", "atoms[].neighbors", "atoms[].$npos"] + ["atoms[]." + x[:-2] for x in NDATA]


def may(c):
    return [("an atom has too many neighbors", z3.BoolVal(True))]


def pre_idx(k):
    return lambda c: [("index of an atom", rng(c.p(k), 0, c.old.raw("atoms.#len")))]


def post_cap(c):
    return [("room for one more", nnv(c.old, c.p(0)) < MAXN)]


def post_process(c):
    o, s = c.old, c.new
    g = geo(o)
    a, b = c.p(0), c.p(1)
    n0 = nnv(o, a)
    out = [("one more neighbor", And(nnv(s, a) == n0 + 1, n0 < MAXN)), ("the neighbor stored last", nb(s, a, n0) == b), ("slot of the neighbor", npos(s, a, b) == n0)]
    for nm, f in data(s, g, a, n0):
        out.append((nm, z3.substitute(f, (nb(s, a, n0), b)), ["C05"]))
    k = z3.Int("k")
    for f in ["neighbors[]"] + NDATA:
        t = s("atoms[]." + f, a, k)
        out.append(("%s of earlier neighbors kept" % f[:-2], FA([k], imp(k != n0, t == o("atoms[]." + f, a, k)), [t])))
    out.append(("slots of earlier neighbors kept", FA([k], imp(k != b, npos(s, a, k) == npos(o, a, k)), [npos(s, a, k)])))
    return out


def cleared(o, s, full):
    a, k = ints("a k")
    n = o("nop")
    out = [("no neighbors", FA([a], imp(rng(a, 0, n), nnv(s, a) == 0), [nnv(s, a)]), ["C22"]),
           ("condition cleared", FA([a], imp(rng(a, 0, n), s("atoms[].condition", a) == 0), [s("atoms[].condition", a)]), ["C22", "C06", "C07"]),
           ("slots cleared", FA([a, k], imp(And(rng(a, 0, n), rng(k, 0, MAXN)), And(nb(s, a, k) == NIL)), [nb(s, a, k)]), ["C22"])]
    if full:
        t = s("atoms[].temp_neighbors.#len", a)
        out.append(("candidates cleared", FA([a], imp(rng(a, 0, n), t == 0), [t]), ["C22", "C04", "C12"]))
    return out


def post_reset(full):
    return lambda c: cleared(c.old, c.new, full)


RMODS = ["atoms[].n_neighbors", "atoms[].condition", "atoms[].neighbors", "atoms[].neighbordist", "atoms[].$npos"]
ROW = lambda c: [c.p(0)]


def row(ms):
    return lambda c: [(m, [c.p(0)]) for m in ms]


CONTRACTS = [
    Contract("System::reset_all_neighbors", pre=lambda c: wf(c.old), post=post_reset(True), modifies=RMODS + ["atoms[].temp_neighbors", "atoms[].$tpos"], props=["C22", "C02"]),
    Contract("System::reset_main_neighbors", pre=lambda c: wf(c.old), post=post_reset(False), modifies=RMODS, props=["C22", "C12"]),
    Contract("System::check_neighbor_capacity", pre=pre_idx(0), post=post_cap, throws=may, props=["C02"]),
    Contract("System::process_neighbor", pre=lambda c: boxpos(c) + pre_idx(0)(c) + pre_idx(1)(c) + [("list length", nnv(c.old, c.p(0)) >= 0)],
             post=post_process, modifies=row(MODS), throws=may, throw_modifies=[], props=["C04", "C05", "C12"]),
    Contract("System::get_all_neighbors_normal", pre=pre_normal, post=post_normal, modifies=MODS + ["atoms[].cutoff", "voronoiused"], throws=may,
             loops={"0": inv_normal_outer, "0.0": inv_normal_inner}, heavy=6, props=["C02", "C05", "C22"]),
]
