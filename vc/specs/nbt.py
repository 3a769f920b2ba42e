"""Candidate lists and neighbor lists by number, SANN and adaptive cutoff (C04, C05, C12)."""
from speclib import *
from specs.geo import *
from specs.nbr import *
import sym


def tl(v, a):
    return v("atoms[].temp_neighbors.#len", a)


def tix(v, a, k):
    return v("atoms[].temp_neighbors[].index", a, k)


def td(v, a, k):
    return v("atoms[].temp_neighbors[].dist", a, k)


def tpos(v, a, b):
    return v("atoms[].$tpos[]", a, b)


def tdrow(v, a):
    return v("atoms[].temp_neighbors[].dist", a)


def sort_tpos(ex, st, v, perm, inv, oldv, newv, ln):
    old = sel(ex.get(st, ("this", "atoms", "[]", "$tpos", "[]")), *v.idx)
    new = ex.fresh("tpos", old.sort())
    x = z3.Int("tp")
    st.assume(FA([x], new[x] == inv[old[x]], [new[x]]))
    ex.rawwrite(st, ("this", "atoms", "[]", "$tpos", "[]"), tuple(v.idx), new)


sym.SORT_GHOST[("this", "atoms", "[]", "temp_neighbors")] = sort_tpos

CMODS = ["cells", "nx", "ny", "nz", "total_cells", "$mcell", "$mslot", "$nslot"]
TMODS = ["atoms[].temp_neighbors", "atoms[].$tpos"]


def temps(o, s, g, P, nd):
    """candidate lists: every atom within nd exactly once"""
    a, b, k = ints("a b k")
    n = o("nop")
    A, K = rng(a, 0, n), rng(k, 0, tl(s, a))
    h = tix(s, a, k)
    D = Dist(g, a, h)
    return [("candidates are other atoms", FA([a, k], imp(And(A, K), And(rng(h, 0, n), h != a, P(a, h))), [h])),
            ("candidate distances", FA([a, k], imp(And(A, K), And(td(s, a, k) == D, D <= nd)), [td(s, a, k), h])),
            ("no duplicate candidates", FA([a, k], imp(And(A, K), tpos(s, a, h) == k), [h])),
            ("no candidate missed", FA([a, b], imp(And(A, rng(b, 0, n), a != b, P(a, b), Dist(g, a, b) <= nd),
                                                  And(rng(tpos(s, a, b), 0, tl(s, a)), tix(s, a, tpos(s, a, b)) == b)), [tpos(s, a, b)]))]


def tempty(o):
    a = z3.Int("a")
    return [("all candidate lists are empty", FA([a], imp(rng(a, 0, o("nop")), tl(o, a) == 0), [tl(o, a)]))]


def anyP(a, b):
    return z3.BoolVal(True)


def inv_brute_outer(c):
    i = c.i
    return temps(c.old, c.s, geo(c.old), lambda a, b: z3.Or(a < i, b < i), c.old("neighbordistance"))


def inv_brute_inner(c):
    i, j = c.outer[-1], c.i
    return temps(c.old, c.s, geo(c.old), lambda a, b: z3.Or(a < i, b < i, And(a == i, b < j), And(b == i, a < j)), c.old("neighbordistance"))


def pre_brute(c):
    return wf(c.old) + boxpos(c) + tempty(c.old)


def post_brute(c):
    return temps(c.old, c.new, geo(c.old), anyP, c.old("neighbordistance"))


def tsorted(s, a):
    k, l = ints("k l")
    return FA([k, l], imp(And(0 <= k, k < l, l < tl(s, a)), td(s, a, k) <= td(s, a, l)), [(td(s, a, k), td(s, a, l))])


def sortedP(s, A):
    a, k, l = ints("a k l")
    return ("candidates sorted by distance", FA([a, k, l], imp(And(A(a), 0 <= k, k < l, l < tl(s, a)), td(s, a, k) <= td(s, a, l)), [(td(s, a, k), td(s, a, l))]))


def slots(s, g, A, upto, rank=lambda k: k, weights=True):
    """slot k of the atoms in A holds the candidate of that rank, with its data"""
    a, k = ints("a k")
    AK = And(A(a), rng(k, 0, upto(a)))
    h = nb(s, a, k)
    out = [("ranks of the neighbors", FA([a, k], imp(AK, h == tix(s, a, rank(k))), [h])),
           ("slots of the neighbors", FA([a, k], imp(AK, npos(s, a, h) == k), [h]))]
    for nm, f in data(s, g, a, k):
        t = f.arg(0)
        out.append((nm, FA([a, k], imp(AK, f), [t, h])))
    return out


def nogeo(c):
    """candidates in a state whose cutoff distance has been set by the function"""
    return c.s("neighbordistance")


def inv_number(c):
    o, s, g = c.old, c.s, geo(c.old)
    n = o("nop")
    nns, asg = c.p(1), c.p(2)
    i = c.i
    a = z3.Int("a")
    done = lambda a: And(rng(a, 0, i), asg == 1)
    out = temps(o, s, g, anyP, s("neighbordistance")) + [sortedP(s, lambda a: rng(a, 0, i))]
    out += [("counts", FA([a], imp(rng(a, 0, n), nnv(s, a) == z3.If(done(a), nns, 0)), [nnv(s, a)])),
            ("enough candidates", FA([a], imp(rng(a, 0, i), tl(s, a) >= nns), [tl(s, a)])),
            ("cutoffs", FA([a], imp(And(done(a), nns > 0), s("atoms[].cutoff", a) == td(s, a, nns - 1)), [s("atoms[].cutoff", a)]))]
    return out + slots(s, g, done, lambda a: nns)


def inv_number_inner(c):
    o, s, g = c.old, c.s, geo(c.old)
    nns = c.p(1)
    ti, i = c.outer[-1], c.i
    k = z3.Int("k")
    K = rng(k, 0, i)
    h = nb(s, ti, k)
    out = [("count", nnv(s, ti) == i), ("cutoff", imp(i > 0, s("atoms[].cutoff", ti) == td(s, ti, i - 1))),
           ("ranks", FA([k], imp(K, h == tix(s, ti, k)), [h])), ("slots", FA([k], imp(K, npos(s, ti, h) == k), [h]))]
    for nm, f in data(s, g, ti, k):
        out.append((nm, FA([k], imp(K, f), [f.arg(0), h])))
    return out


def pre_number(c):
    return wf(c.old) + boxpos(c) + tempty(c.old) + empty(c.old) + [("number of neighbors", c.p(1) >= 0), ("atoms", c.old("nop") > 0)] + posrange(c.old, False)


def posrange(o, cells=True):
    """positions at most one box length outside of the box (where cell lists are used)"""
    a = z3.Int("a")
    cond = And(o("triclinic") == 0, o("usecells") != 0) if not cells else o("triclinic") == 0
    out = []
    for p, L in (("posx", "boxx"), ("posy", "boxy"), ("posz", "boxz")):
        x = o("atoms[]." + p, a)
        out.append(("positions within one box length of the box (%s)" % p, FA([a], imp(And(rng(a, 0, o("nop")), cond), And(x >= -o(L), x < 2 * o(L))), [x])))
    return out


def nearest(s, g, n, nns, A):
    """lists of the nns nearest atoms"""
    a, b, k, l = ints("a b k l")
    nd = lambda a, k: s("atoms[].neighbordist[]", a, k)
    h = nb(s, a, k)
    K = rng(k, 0, nns)
    listed = And(rng(npos(s, a, b), 0, nns), nb(s, a, npos(s, a, b)) == b)
    out = [("count", FA([a], imp(A(a), nnv(s, a) == nns), [nnv(s, a)])),
           ("entries are other atoms", FA([a, k], imp(And(A(a), K), And(rng(h, 0, n), h != a)), [h])),
           ("no duplicates", FA([a, k], imp(And(A(a), K), npos(s, a, h) == k), [h])),
           ("ascending distances", FA([a, k, l], imp(And(A(a), 0 <= k, k < l, l < nns), nd(a, k) <= nd(a, l)), [(nd(a, k), nd(a, l))])),
           ("no nearer atom left out", FA([a, b], imp(And(A(a), rng(b, 0, n), a != b, nns > 0), hint(z3.Or(listed, Dist(g, a, b) >= nd(a, nns - 1)), tpos(s, a, b), nb(s, a, nns - 1), tix(s, a, nns - 1), nb(s, a, tpos(s, a, b)))), [npos(s, a, b)])),
           ("cutoff is the largest distance", FA([a], imp(And(A(a), nns > 0), s("atoms[].cutoff", a) == nd(a, nns - 1)), [s("atoms[].cutoff", a)]))]
    for nm, f in data(s, g, a, k):
        out.append((nm, FA([a, k], imp(And(A(a), K), f), [f.arg(0), h]), ["C05"]))
    return out


def post_number(c):
    o, s, g = c.old, c.new, geo(c.old)
    n, nns = o("nop"), c.p(1)
    ok = c.res == 1
    A = lambda a: rng(a, 0, n)
    out = [(x[0], imp(And(ok, c.p(2) == 1), x[1])) + tuple(x[2:]) for x in nearest(s, g, n, nns, A)]
    a = z3.Int("a")
    out += [(x[0], x[1], ["C12", "C04", "C13", "C14"]) for x in temps(o, s, g, anyP, s("neighbordistance"))]
    out += [(sortedP(s, A)[0], imp(ok, sortedP(s, A)[1]), ["C12", "C04", "C13", "C14"]),
            ("enough candidates", imp(ok, FA([a], imp(A(a), tl(s, a) >= nns), [tl(s, a)])), ["C12", "C04", "C13", "C14"]),
            ("result is a flag", z3.Or(c.res == 0, c.res == 1)), ("Voronoi flag reset", s("voronoiused") == 0),
            ("no neighbors assigned", imp(c.p(2) != 1, FA([a], imp(A(a), nnv(s, a) == 0), [nnv(s, a)])), ["C12", "C22"])]
    return out


def sum_step(arr, k):
    return arr[k]


SumD = Rec("SumD", [AR], sum_step)


SannCut = z3.Function("SannCut", AR, I, R)
AdCut = z3.Function("AdCut", R, I, R, R)


def sanncut(ex, arr, m, unfold=True):
    SumD(ex, arr, m + 1, unfold=unfold)
    return SannCut(arr, m)


def def_sann(ex, row, m):
    """definition of SannCut, at a term"""
    t = SannCut(row, m)
    key = ("SannCut", t.get_id())
    if key not in ex.recs:
        ex.recs.add(key)
        ex.keep.append(t)
        ex.axioms.append(t == (SumD(ex, row, m + 1) - row[3]) / z3.ToReal(m - 2))
    return t


def def_ad(ex, pad, nl, x):
    """definition of AdCut, at a term"""
    t = AdCut(pad, nl, x)
    key = ("AdCut", t.get_id())
    if key not in ex.recs:
        ex.recs.add(key)
        ex.keep.append(t)
        ex.axioms.append(t == pad * (z3.RealVal(1) / z3.ToReal(nl)) * x)
    return t


def srank(k):
    # known finding sann-fourth-neighbor: the candidate of rank 3 is left out
    return z3.If(k < 3, k, k + 1)


def sann_atom(c, s, a, m, final):
    """the atom a has the m neighbors the algorithm selects"""
    q = z3.Int("q")
    row = tdrow(s, a)
    return And(m >= 3, m < tl(s, a), s("atoms[].cutoff", a) == (SumD(c.ex, row, m + 1, unfold=False) - row[3]) / z3.ToReal(m - 2))


def inv_sann(c):
    o, s, g = c.old, c.s, geo(c.old)
    n, i = o("nop"), c.i
    a, q = ints("a q")
    done = lambda a: rng(a, 0, i)
    m = nnv(s, a)
    row = tdrow(s, a)
    out = temps(o, s, g, anyP, s("neighbordistance")) + [sortedP(s, done)]
    out += [("no neighbors yet", FA([a], imp(rng(a, i, n), m == 0), [m])), ("none of the next atom", imp(i < n, nnv(s, i) == 0)),
            ("counts", FA([a], imp(done(a), And(m >= 3, m < tl(s, a))), [m])),
            ("cutoffs", FA([a], imp(done(a), s("atoms[].cutoff", a) == sanncut(c.ex, row, m, False)), [s("atoms[].cutoff", a)])),
            ("solid angle condition holds at the cutoff", FA([a], imp(done(a), s("atoms[].cutoff", a) < row[m]), [s("atoms[].cutoff", a)])),
            ("solid angle condition fails before", FA([a, q], imp(And(done(a), 3 <= q, q < m), sanncut(c.ex, row, q, False) >= row[q]), [row[q]]))]
    return out + slots(s, g, done, lambda a: nnv(s, a), srank)


def inv_sann_inner(c):
    o, s, g = c.old, c.s, geo(c.old)
    ti, m = c.outer[-1], nnv(c.s, c.outer[-1])
    k, q = ints("k q")
    row = tdrow(s, ti)
    K = rng(k, 0, m)
    h = nb(s, ti, k)
    out = [("count", And(m >= 3, m <= tl(s, ti), m == (c.i if c.i is not None else m))),
           ("solid angle condition fails so far", FA([q], imp(And(3 <= q, q < m), sanncut(c.ex, row, q, False) >= row[q]), [row[q]])),
           ("ranks", FA([k], imp(K, h == tix(s, ti, srank(k))), [h])), ("slots", FA([k], imp(K, npos(s, ti, h) == k), [h]))]
    for nm, f in data(s, g, ti, k):
        out.append((nm, FA([k], imp(K, f), [f.arg(0), h])))
    return out


def cand_sann(c):
    s = c.s
    ti = c.outer[-1]
    row = tdrow(s, ti)
    for q in range(0, 5):
        SumD(c.ex, row, z3.IntVal(q))
    out = []
    m = z3.simplify(c.i) if c.i is not None else nnv(s, ti)
    for p, t in c.locals(I):
        out.append(("%s is the count" % p, t == m))
        out.append(("%s below candidates" % p, t <= tl(s, ti)))
    for p, t in c.locals(R):
        out.append(("%s is the sum" % p, t == SumD(c.ex, row, m + 1) - row[3]))
        out.append(("%s is the cutoff" % p, t == def_sann(c.ex, row, m)))
    out.append(("count within candidates", m < tl(s, ti)))
    return out


def inv_adapt(c):
    o, s, g = c.old, c.s, geo(c.old)
    n, i, nl, pad = o("nop"), c.i, c.p(1), c.p(2)
    a = z3.Int("a")
    done = lambda a: rng(a, 0, i)
    out = temps(o, s, g, anyP, s("neighbordistance")) + [sortedP(s, done)]
    out += [("no neighbors yet", FA([a], imp(rng(a, i, n), nnv(s, a) == 0), [nnv(s, a)])),
            ("enough candidates", FA([a], imp(done(a), tl(s, a) >= nl), [tl(s, a)]))]
    out += alists(o, s, g, done, lambda a: acut(c.ex, s, a, nl, pad))
    return out


def acut(ex, s, a, nl, pad):
    return AdCut(pad, nl, SumD(ex, tdrow(s, a), nl, unfold=False))


def alists(o, s, g, A, cut, P=lambda a, b: z3.BoolVal(True)):
    a, b, k = ints("a b k")
    n = o("nop")
    K = rng(k, 0, nnv(s, a))
    h = nb(s, a, k)
    fl = o("filter")

    def fil(a, b):
        ta, tb = o("atoms[].type", a), o("atoms[].type", b)
        return And(imp(fl == 1, ta == tb), imp(fl == 2, ta != tb))
    out = [("list length within capacity", FA([a], imp(A(a), And(nnv(s, a) >= 0, nnv(s, a) <= MAXN)), [nnv(s, a)])),
           ("entries are other atoms", FA([a, k], imp(And(A(a), K), And(rng(h, 0, n), h != a, P(a, h))), [h])),
           ("entries are within the adaptive cutoff", FA([a, k], imp(And(A(a), K), And(Dist(g, a, h) < cut(a), fil(a, h))), [h])),
           ("no duplicates", FA([a, k], imp(And(A(a), K), npos(s, a, h) == k), [h])),
           ("cutoff of atoms with neighbors", FA([a], imp(And(A(a), nnv(s, a) > 0), s("atoms[].cutoff", a) == cut(a)), [s("atoms[].cutoff", a)])),
           ("candidates reach the adaptive cutoff", FA([a], imp(A(a), hint(cut(a) <= s("neighbordistance"), nnv(s, a))), [nnv(s, a)])),
           ("no neighbor missed", FA([a, b], imp(And(A(a), rng(b, 0, n), a != b, P(a, b), Dist(g, a, b) < cut(a), fil(a, b)),
                                                And(rng(npos(s, a, b), 0, nnv(s, a)), nb(s, a, npos(s, a, b)) == b)), [npos(s, a, b)]))]
    for nm, f in data(s, g, a, k):
        out.append((nm, FA([a, k], imp(And(A(a), K), f), [f.arg(0), h])))
    return out


def inv_adapt_inner(c):
    """neighbors of ti among its first j candidates"""
    o, s, g = c.old, c.s, geo(c.old)
    nl, pad = c.p(1), c.p(2)
    ti, j = c.outer[-1], c.i
    return alists(o, s, g, lambda a: a == ti, lambda a: acut(c.ex, s, a, nl, pad), lambda a, b: tpos(s, a, b) < j)


def cand_sum(c):
    """accumulators over candidate distances"""
    s = c.s
    if not c.outer or c.i is None:
        return []
    row = tdrow(s, c.outer[-1])
    return [("%s sums the distances" % p, t == SumD(c.ex, row, c.i)) for p, t in c.locals(R)]


def cand_ad(c):
    """locals equal to the adaptive cutoff of the atom"""
    if not c.outer:
        return []
    t = def_ad(c.ex, c.p(2), c.p(1), SumD(c.ex, tdrow(c.s, c.outer[-1]), c.p(1)))
    return [("%s is the adaptive cutoff" % p, x == t) for p, x in c.locals(R)]


def pre_adapt(c):
    return wf(c.old) + boxpos(c) + tempty(c.old) + empty(c.old) + [("limit", c.p(1) > 0), ("atoms", c.old("nop") > 0)] + posrange(c.old, False)


def post_adapt(c):
    o, s, g = c.old, c.new, geo(c.old)
    nl, pad = c.p(1), c.p(2)
    A = lambda a: rng(a, 0, o("nop"))
    a, k = ints("a k")
    out = [(x[0], imp(c.res == 1, x[1])) for x in alists(o, s, g, A, lambda a: acut(c.ex, s, a, nl, pad))]
    out = [(x[0], x[1], ["C05"]) if x[0] in [d[0] for d in data(s, g, a, k)] else (x[0], x[1], ["C04", "C02"]) for x in out]
    # the sum runs over the nearest atoms
    out += [(x[0], x[1]) for x in temps(o, s, g, anyP, s("neighbordistance"))] + [(sortedP(s, A)[0], imp(c.res == 1, sortedP(s, A)[1]))]
    out += [("enough candidates", imp(c.res == 1, FA([a], imp(A(a), tl(s, a) >= nl), [tl(s, a)]))),
            ("result is a flag", z3.Or(c.res == 0, c.res == 1)), ("Voronoi flag reset", s("voronoiused") == 0, ["C06", "C22"])]
    return out


def post_sann(c):
    o, s, g = c.old, c.new, geo(c.old)
    n = o("nop")
    a, k, q = ints("a k q")
    A = rng(a, 0, n)
    ok = c.res == 1
    m = nnv(s, a)
    row = tdrow(s, a)
    dn = [d[0] for d in data(s, g, a, k)]
    out = [(x[0], imp(ok, x[1]), ["C05"] if x[0] in dn else ["C04"]) for x in slots(s, g, lambda a: rng(a, 0, n), lambda a: nnv(s, a), srank)]
    out += [(x[0], x[1]) for x in temps(o, s, g, anyP, s("neighbordistance"))] + [(sortedP(s, lambda a: rng(a, 0, n))[0], imp(ok, sortedP(s, lambda a: rng(a, 0, n))[1]))]
    out += [("counts", imp(ok, FA([a], imp(A, And(m >= 3, m < tl(s, a))), [m]))),
            ("cutoffs", imp(ok, FA([a], imp(A, s("atoms[].cutoff", a) == sanncut(c.ex, row, m, False)), [s("atoms[].cutoff", a)]))),
            ("solid angle condition holds at the cutoff", imp(ok, FA([a], imp(A, s("atoms[].cutoff", a) < row[m]), [s("atoms[].cutoff", a)]))),
            ("solid angle condition fails before", imp(ok, FA([a, q], imp(And(A, 3 <= q, q < m), sanncut(c.ex, row, q, False) >= row[q]), [row[q]]))),
            ("result is a flag", z3.Or(c.res == 0, c.res == 1)), ("Voronoi flag reset", s("voronoiused") == 0, ["C06", "C22"])]
    return out


NMODS = MODS + TMODS + CMODS + ["atoms[].cutoff", "voronoiused", "neighbordistance"]

CONTRACTS = [
    Contract("System::get_temp_neighbors_brute", pre=pre_brute, post=post_brute, modifies=TMODS,
             loops={"0": inv_brute_outer, "0.0": inv_brute_inner}, heavy=2, props=["C04", "C12"]),
    Contract("System::get_all_neighbors_bynumber", pre=pre_number, post=post_number, modifies=NMODS, throws=may,
             loops={"0": inv_number, "0.0": inv_number_inner}, heavy=4, lift=False, props=["C04", "C05", "C12", "C13", "C14"]),
    Contract("System::get_all_neighbors_sann", pre=lambda c: wf(c.old) + boxpos(c) + tempty(c.old) + empty(c.old) + [("atoms", c.old("nop") > 0)] + posrange(c.old, False), post=post_sann, modifies=NMODS, throws=may,
             loops={"0": inv_sann, "0.1": inv_sann_inner}, cands={"0.1": cand_sann}, heavy=4, lift=False, props=["C04", "C05"]),
    Contract("System::get_all_neighbors_adaptive", pre=pre_adapt, post=post_adapt, modifies=NMODS, throws=may,
             loops={"0": inv_adapt, "0.1": inv_adapt_inner}, cands={"0.0": cand_sum, "0.1": cand_ad}, heavy=4, lift=False, props=["C04", "C05"]),
]
