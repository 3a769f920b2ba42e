"""Pair distances (C17), stored neighbor information (C05), per-atom cutoffs (C12), averages over neighbors (C11, C15, C16)."""
from speclib import *
from specs.geo import *
from specs.nbr import *
from specs.nbt import *

Off = Rec("Off", [I], lambda n, k: n - 1 - k, rng=I)       # pairs (a, b), a < b, with a < k
PairIx = z3.Function("PairIx", I, I, I, I)
SumG = Rec("SumG", [AR, AI], lambda f, ix, k: f[ix[k]])     # sum of f over the first k entries of a list


def nonneg_lists(o):
    a, k = ints("a k")
    n = o("nop")
    h = nb(o, a, k)
    return [("list length within capacity", FA([a], imp(rng(a, 0, n), And(nnv(o, a) >= 0, nnv(o, a) <= MAXN)), [nnv(o, a)])),
            ("entries are atoms", FA([a, k], imp(And(rng(a, 0, n), rng(k, 0, nnv(o, a))), rng(h, 0, n)), [h]))]


# ---- pair distances
def pairs(c, ln, arr, upto, P):
    """element of each pair in P"""
    o, g = c.old, geo(c.old)
    n = o("nop")
    a, b = ints("a b")
    ix = PairIx(n, a, b)
    D = Dist(g, a, b)
    key = ("PairIx", n.get_id())
    if key not in c.ex.recs:
        c.ex.recs.add(key)
        c.ex.keep.append(n)
        c.ex.axioms.append(FA([a, b], ix == Off.f(n, a) + b - a - 1, [ix]))
    hyp = And(0 <= a, a < b, b < n, P(a, b))
    return [("length", ln == upto),
            ("place of each pair", FA([a, b], imp(hyp, rng(ix, 0, upto)), [ix])),
            ("distance of each pair", FA([a, b], imp(hyp, arr(ix) == D), [ix]))]


def cand_pairs_outer(c):
    n, i = c.old("nop"), c.i
    out = []
    upto = Off(c.ex, n, i)
    Off(c.ex, n, i + 1)
    for p, ln, arr in c.lvecs(R):
        out += [("%s: %s" % (p, x[0]), x[1]) for x in pairs(c, ln, lambda k: arr[k], upto, lambda a, b: a < i)]
    return out


def cand_pairs_inner(c):
    if not c.outer:
        return []
    n, i, j = c.old("nop"), c.outer[-1], c.i
    out = []
    upto = Off(c.ex, n, i) + z3.If(j > i, j - i - 1, 0)
    Off(c.ex, n, i + 1)
    for p, ln, arr in c.lvecs(R):
        out += [("%s: %s" % (p, x[0]), x[1]) for x in pairs(c, ln, lambda k: arr[k], upto, lambda a, b: z3.Or(a < i, And(a == i, b < j)))]
    return out


def post_pairs(c):
    n = c.old("nop")
    return pairs(c, c.rlen(), lambda k: c.r(k), Off(c.ex, n, n), lambda a, b: z3.BoolVal(True))


def lemma_pairs():
    n, k, f = ints("n_ k_ f_")
    N, K, F = z3.ToReal(n), z3.ToReal(k), z3.ToReal(f)
    return [("number of pairs, base", [], 2 * 0 == 0 * (2 * N - 1 - 0)),
            ("number of pairs, step", [2 * F == K * (2 * N - 1 - K)], 2 * (F + N - 1 - K) == (K + 1) * (2 * N - 1 - (K + 1))),
            ("number of pairs", [2 * F == N * (2 * N - 1 - N)], 2 * F == N * (N - 1))]


# ---- cutoff of an atom from its neighbor distances
def row(v, f, a):
    return v("atoms[]." + f, a)


def meancut(ex, v, a, fac):
    n = nnv(v, a)
    return fac * (SumD(ex, row(v, "neighbordist[]", a), n, unfold=False) / z3.ToReal(n))


def cand_rowsum(c):
    """accumulators over neighbor distances"""
    if not c.outer or c.i is None:
        return []
    r = row(c.s, "neighbordist[]", c.outer[-1])
    return [("%s sums the distances" % p, t == SumD(c.ex, r, c.i)) for p, t in c.locals(R)]


def inv_cut(c):
    a = z3.Int("a")
    t = c.s("atoms[].cutoff", a)
    return [("cutoffs", FA([a], imp(And(rng(a, 0, c.i), nnv(c.old, a) > 0), t == meancut(c.ex, c.old, a, c.p(0))), [t]))]


def post_cut(c):
    a = z3.Int("a")
    t = c.new("atoms[].cutoff", a)
    return [("cutoff is the scaled mean distance of the neighbors", FA([a], imp(And(rng(a, 0, c.old("nop")), nnv(c.old, a) > 0), t == meancut(c.ex, c.old, a, c.p(0))), [t]))]


# ---- neighbors within 1.2071 times the mean distance of the nearest 12 or 14 candidates
Q12071 = rv(1.2071)        # the double nearest to 1.2071
Q11547 = rv(1.1547)


def tempcut(ex, s, a, style, unfold=False):
    r = tdrow(s, a)
    S = lambda k: SumD(ex, r, z3.IntVal(k), unfold=unfold)
    return Q12071 * S(12) / 12 if style == 12 else Q12071 * (Q11547 * S(8) + S(14) - S(8)) / 14


def tlists(o, s, g, A, cut, P=lambda a, b: z3.BoolVal(True)):
    a, b, k = ints("a b k")
    n = o("nop")
    K = rng(k, 0, nnv(s, a))
    h = nb(s, a, k)
    near = lambda a, b: And(b != a, Dist(g, a, b) <= cut(a), Dist(g, a, b) <= o("neighbordistance"))
    out = [("list length within capacity", FA([a], imp(A(a), And(nnv(s, a) >= 0, nnv(s, a) <= MAXN)), [nnv(s, a)])),
           ("entries are candidates within the cutoff", FA([a, k], imp(And(A(a), K), And(rng(h, 0, n), near(a, h), P(a, h))), [h])),
           ("no duplicates", FA([a, k], imp(And(A(a), K), npos(s, a, h) == k), [h])),
           ("no candidate within the cutoff missed", FA([a, b], imp(And(A(a), rng(b, 0, n), P(a, b), near(a, b)),
                                                                  And(rng(npos(s, a, b), 0, nnv(s, a)), nb(s, a, npos(s, a, b)) == b)), [npos(s, a, b)]))]
    for nm, f in data(s, g, a, k):
        out.append((nm, FA([a, k], imp(And(A(a), K), f), [f.arg(0), h])))
    return out


def pre_temps(o, g):
    return [(x[0], x[1]) for x in temps(o, o, g, anyP, o("neighbordistance"))]


def inv_temp(style):
    def f(c):
        o, s, g = c.old, c.s, geo(c.old)
        n, i = o("nop"), c.i
        a = z3.Int("a")
        cut = lambda a: tempcut(c.ex, o, a, style)
        return [("none yet", FA([a], imp(rng(a, i, n), nnv(s, a) == 0), [nnv(s, a)])), ("none of the next atom", imp(i < n, nnv(s, i) == 0)),
                ("enough candidates", FA([a], imp(rng(a, 0, i), tl(o, a) >= style), [tl(o, a)]))] + tlists(o, s, g, lambda a: rng(a, 0, i), cut)
    return f


def inv_temp_inner(style):
    def f(c):
        o, s, g = c.old, c.s, geo(c.old)
        ti, j = c.outer[-1], c.i
        return tlists(o, s, g, lambda a: a == ti, lambda a: tempcut(c.ex, o, a, style), lambda a, b: tpos(o, a, b) < j)
    return f


def cand_tempsum(c):
    if not c.outer or c.i is None:
        return []
    r = tdrow(c.old, c.outer[-1])
    S = lambda k: SumD(c.ex, r, k)
    out = []
    for p, t in c.locals(R):
        out.append(("%s sums the distances" % p, t == S(c.i)))
        out.append(("%s sums the scaled distances" % p, t == Q11547 * S(c.i)))
        out.append(("%s sums both shells" % p, t == Q11547 * S(z3.IntVal(8)) + S(c.i) - S(z3.IntVal(8))))
    return out


def cand_tempcut(style):
    def f(c):
        if not c.outer:
            return []
        o, ti = c.old, c.outer[-1]
        t = tempcut(c.ex, o, ti, style, True)
        return [("cutoff of the atom (%s)" % x, c.s("atoms[]." + x, ti) == t) for x in ("lcutsmall", "lcutlarge", "cutoff")] + \
               [("%s is the cutoff" % p, x == t) for p, x in c.locals(R)]
    return f


def post_temp(c):
    o, s, g = c.old, c.new, geo(c.old)
    out = []
    for st in (12, 14):
        cond = And(c.p(0) == st, c.res == 1)
        out += [("%s (style %d)" % (x[0], st), imp(cond, x[1])) for x in tlists(o, s, g, lambda a: rng(a, 0, o("nop")), lambda a: tempcut(c.ex, o, a, st))]
    a = z3.Int("a")
    out += [("fails only if candidates are missing", imp(And(c.res != 1, o("nop") > 0, z3.Or(c.p(0) == 12, c.p(0) == 14)), z3.Not(FA([a], imp(rng(a, 0, o("nop")), tl(o, a) >= 14), [tl(o, a)]))))]
    return out


# ---- second neighbors
def nninfo(o, s, A, K, J=None):
    a, k, j = ints("a k j")
    h = nb(o, a, k)
    ln = s("atoms[].next_neighbors[].#len", a, k)
    ld = s("atoms[].next_neighbor_distances[].#len", a, k)
    x, d = s("atoms[].next_neighbors[][]", a, k, j), s("atoms[].next_neighbor_distances[][]", a, k, j)
    ct = s("atoms[].next_neighbor_counts[]", a, k)
    AK = And(A(a), K(a, k))
    JJ = And(AK, rng(j, 0, nnv(o, h)))
    return [("counts of second neighbors", FA([a, k], imp(AK, ct == nnv(o, h)), [ct])),
            ("number of second neighbors", FA([a, k], imp(AK, ln == nnv(o, h)), [ln])),
            ("number of second distances", FA([a, k], imp(AK, ld == nnv(o, h)), [ld])),
            ("second neighbors", FA([a, k, j], imp(JJ, x == nb(o, h, j)), [x])),
            ("second distances", FA([a, k, j], imp(JJ, d == o("atoms[].neighbordist[]", h, j)), [d]))]


def nnlen(s, A, o):
    a = z3.Int("a")
    out = []
    for f in ("next_neighbors", "next_neighbor_distances", "next_neighbor_counts"):
        t = s("atoms[].%s.#len" % f, a)
        out.append(("length of %s" % f, FA([a], imp(A(a), t == nnv(o, a)), [t])))
    return out


def inv_store(c):
    A = lambda a: rng(a, 0, c.i)
    return nnlen(c.s, A, c.old) + nninfo(c.old, c.s, A, lambda a, k: rng(k, 0, nnv(c.old, a)))


def inv_store1(c):
    o, s = c.old, c.s
    ti, i = c.outer[-1], c.i
    k = z3.Int("k")
    out = [("length of %s" % f, s("atoms[].%s.#len" % f, ti) == nnv(o, ti)) for f in ("next_neighbors", "next_neighbor_distances", "next_neighbor_counts")]
    for f in ("next_neighbors", "next_neighbor_distances"):
        t = s("atoms[].%s[].#len" % f, ti, k)
        out.append(("%s of later neighbors empty" % f, FA([k], imp(rng(k, i, nnv(o, ti)), t == 0), [t])))
    return out + nninfo(o, s, lambda a: a == ti, lambda a, k: rng(k, 0, i))


def inv_store2(c):
    o, s = c.old, c.s
    ti, i, jj = c.outer[-2], c.outer[-1], c.i
    j = z3.Int("j")
    h = nb(o, ti, i)
    x, d = s("atoms[].next_neighbors[][]", ti, i, j), s("atoms[].next_neighbor_distances[][]", ti, i, j)
    e = c.entry
    k = z3.Int("k")
    keep = []
    for f in ("next_neighbors", "next_neighbor_distances"):
        L, X = "atoms[].%s[].#len" % f, "atoms[].%s[][]" % f
        keep += [("other lengths of %s kept" % f, FA([k], imp(k != i, s(L, ti, k) == e(L, ti, k)), [s(L, ti, k)])),
                 ("others of %s kept" % f, FA([k, j], imp(k != i, s(X, ti, k, j) == e(X, ti, k, j)), [s(X, ti, k, j)]))]
    return keep + [("number so far", And(s("atoms[].next_neighbors[].#len", ti, i) == jj, s("atoms[].next_neighbor_distances[].#len", ti, i) == jj)),
            ("so far", FA([j], imp(rng(j, 0, jj), x == nb(o, h, j)), [x])),
            ("distances so far", FA([j], imp(rng(j, 0, jj), d == o("atoms[].neighbordist[]", h, j)), [d]))]


def post_store(c):
    A = lambda a: rng(a, 0, c.old("nop"))
    return nnlen(c.new, A, c.old) + nninfo(c.old, c.new, A, lambda a, k: rng(k, 0, nnv(c.old, a)))


# ---- images folded back onto the original atoms
def fold(o, s, A, K):
    a, k = ints("a k")
    h = nb(s, a, k)
    return [("neighbors are the originals of the images", FA([a, k], imp(And(A(a), K(a, k)), h == o("atoms[].neighbors[]", a, k) % o("real_nop")), [h]))]


def inv_fold(c):
    a, k = ints("a k")
    h = nb(c.s, a, k)
    return fold(c.old, c.s, lambda a: rng(a, 0, c.i), lambda a, k: rng(k, 0, nnv(c.old, a))) + [
        ("others kept", FA([a, k], imp(z3.Or(a >= c.i, k >= nnv(c.old, a), k < 0), h == nb(c.old, a, k)), [h]))]


def inv_fold1(c):
    a, k = ints("a k")
    ti = c.outer[-1]
    h = nb(c.s, ti, k)
    return [("folded so far", FA([k], imp(rng(k, 0, c.i), h == nb(c.old, ti, k) % c.old("real_nop")), [h])),
            ("later ones kept", FA([k], imp(z3.Or(k >= c.i, k < 0), h == nb(c.old, ti, k)), [h]))]


def post_fold(c):
    a, k = ints("a k")
    o, s = c.old, c.new
    h = nb(s, a, k)
    return fold(o, s, lambda a: rng(a, 0, o("real_nop")), lambda a, k: rng(k, 0, nnv(o, a))) + [
        ("folded neighbors are original atoms", FA([a, k], imp(And(rng(a, 0, o("real_nop")), rng(k, 0, nnv(o, a))), rng(h, 0, o("real_nop"))), [h]))]


# ---- averages over an atom and its neighbors
def avg(ex, v, f, a, unfold=False):
    n = nnv(v, a)
    return (v("atoms[]." + f, a) + SumG(ex, v.raw("atoms[]." + f), row(v, "neighbors[]", a), n, unfold=unfold)) / z3.ToReal(n + 1)


def cand_gather(*fs):
    def g(c):
        if not c.outer or c.i is None:
            return []
        o, ti = c.old, c.outer[-1]
        out = []
        for f in fs:
            S = SumG(c.ex, o.raw("atoms[]." + f), row(o, "neighbors[]", ti), c.i)
            for p, t in c.locals(R):
                out.append(("%s sums %s" % (p, f), t == o("atoms[]." + f, ti) + S))
                out.append(("%s sums %s of neighbors" % (p, f), t == S))
        return out
    return g


def avg_contract(fn, f, g, props, modifies=None):
    def at(c, s, A):
        a = z3.Int("a")
        t = s("atoms[]." + g, a)
        return [("%s is the mean over the atom and its neighbors" % g, FA([a], imp(A(a), t == avg(c.ex, c.old, f, a)), [t]))]
    return Contract(fn, pre=lambda c: wf(c.old) + nonneg_lists(c.old), post=lambda c: at(c, c.new, lambda a: rng(a, 0, c.old("nop"))), modifies=["atoms[]." + g],
                    loops={"0": lambda c: at(c, c.s, lambda a: rng(a, 0, c.i))}, cands={"*": cand_gather(f)}, lift=False, props=props)


CONTRACTS = [
    Contract("System::get_pairdistances", pre=lambda c: wf(c.old) + boxpos(c), post=post_pairs, cands={"0": cand_pairs_outer, "0.0": cand_pairs_inner}, lift=False, props=["C17"]),
    Contract("System::set_atom_cutoff", pre=lambda c: wf(c.old) + nonneg_lists(c.old), post=post_cut, modifies=["atoms[].cutoff"], loops={"0": inv_cut}, cands={"*": cand_rowsum}, lift=False, props=["C12"]),
    Contract("System::get_neighbors_from_temp", pre=lambda c: wf(c.old) + boxpos(c) + pre_temps(c.old, geo(c.old)), post=post_temp,
             modifies=MODS + RMODS + ["atoms[].lcutsmall", "atoms[].lcutlarge"], throws=may,
             loops={"0": inv_temp(12), "0.1": inv_temp_inner(12), "1": inv_temp(14), "1.2": inv_temp_inner(14)},
             cands={"0.0": cand_tempsum, "1.0": cand_tempsum, "1.1": cand_tempsum, "0.1": cand_tempcut(12), "1.2": cand_tempcut(14)}, heavy=4, lift=False, props=["C12"]),
    Contract("System::store_neighbor_info", pre=lambda c: wf(c.old) + nonneg_lists(c.old), post=post_store,
             modifies=["atoms[].next_neighbors", "atoms[].next_neighbor_distances", "atoms[].next_neighbor_counts"],
             loops={"0": inv_store, "0.0": inv_store1, "0.0.0": inv_store2}, heavy=2, lift=False, props=["C05"]),
    Contract("System::fold_neighbors", pre=lambda c: wf(c.old) + nonneg_lists(c.old) + [("original atoms", And(0 <= c.old("real_nop"), c.old("real_nop") <= c.old("nop")))], post=post_fold,
             modifies=["atoms[].neighbors", "atoms[].$npos"], loops={"0": inv_fold, "0.0": inv_fold1}, lift=False, props=["C11"]),
    avg_contract("System::find_average_volume", "volume", "avgvolume", ["C11"]),
    avg_contract("System::find_average_disorder", "disorder", "avgdisorder", ["C16"]),
    avg_contract("System::average_entropy", "entropy", "avg_entropy", ["C15"]),
]

LEMMAS = [("number of pairs", ["C17"], lemma_pairs)]
