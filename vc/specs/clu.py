"""Clusters and the largest cluster (C09, C10)."""
from speclib import *
from specs.geo import *
from specs.nbr import *
from specs.nin import nonneg_lists
import sym



def g_root(ex, st, lv, val):
    """ghost: an atom with this label"""
    if len(lv.idx) == 1 and lv.path[0] == "this" and len(lv.path) == 4:
        ex.rawwrite(st, ("this", "$root", "[]"), (val,), lv.idx[0])


sym.GHOSTS[("atoms", "[]", "belongsto")] = g_root
Conn = z3.Function("Conn", I, I, B)       # any equivalence relation that contains the links


def lab(v, a):
    return v("atoms[].belongsto", a)


def elig(o, a):
    return And(o("atoms[].condition", a) != 0, o("atoms[].ghost", a) == 0)


def link(o, a, k, cut=None):
    """slot k of a is an eligible atom within the cutoff"""
    cut = o("atoms[].cutoff", a) if cut is None else cut
    return And(rng(k, 0, nnv(o, a)), elig(o, nb(o, a, k)), o("atoms[].neighbordist[]", a, k) <= cut)


def cutof(c, a):
    """cutoff in effect"""
    cc = c.p(0)
    return z3.If(cc != 0, cc, c.old("atoms[].cutoff", a))


def pre_clu(c, cut):
    o = c.old
    a, b, d, k = ints("a b d k")
    n, rn = o("nop"), o("real_nop")
    h = nb(o, a, k)
    lk = lambda a, k: link(o, a, k, cut(a))
    return wf(o) + nonneg_lists(o) + [
        ("original atoms come first", And(0 <= rn, rn <= n)),
        ("ghosts are the images", FA([a], imp(rng(a, 0, n), (o("atoms[].ghost", a) == 0) == (a < rn)), [o("atoms[].ghost", a)])),
        ("links are mutual", FA([a, k], imp(And(rng(a, 0, n), elig(o, a), lk(a, k)), And(lk(h, npos(o, h, a)), nb(o, h, npos(o, h, a)) == a)), [h])),
        ("links connect", FA([a, k], imp(And(rng(a, 0, n), elig(o, a), lk(a, k)), Conn(a, h)), [h]))] + equiv()


def equiv():
    a, b, d = ints("a b d")
    return [("connection is reflexive", FA([a], Conn(a, a), [Conn(a, a)])),
            ("connection is symmetric", FA([a, b], imp(Conn(a, b), Conn(b, a)), [Conn(a, b)])),
            ("connection is transitive", FA([a, b, d], imp(And(Conn(a, b), Conn(b, d)), Conn(a, d)), [(Conn(a, b), Conn(b, d))]))]


# ---- harvest_cluster
def pre_harvest(c):
    o = c.old
    ti, ci = c.p(0), c.p(1)
    cut = lambda a: o("atoms[].cutoff", a)
    return pre_clu(c, cut) + [("start atom", And(rng(ti, 0, o("real_nop")), elig(o, ti), lab(o, ti) == ci, ci >= 1, rng(root(o, ci), 0, o("real_nop")), lab(o, root(o, ci)) == ci))]


def grown(c, s, ti, ci):
    """labels changed only from none to ci, on atoms connected with ti"""
    o = c.old
    b = z3.Int("b")
    t = lab(s, b)
    l = z3.Int("l")
    r = root(s, l)
    return [("atom of other labels kept", FA([l], imp(l != ci, r == root(o, l)), [r])), ("atom of the label", And(rng(root(s, ci), 0, o("real_nop")), lab(s, root(s, ci)) == ci))] + [("labels kept or new", FA([b], z3.Or(t == lab(o, b), And(lab(o, b) == -1, t == ci, rng(b, 0, o("real_nop")), elig(o, b), Conn(ti, b))), [t, lab(o, b)]))]


def closed(c, s, A, upto=None):
    """all links of the atoms in A lead to labelled atoms"""
    o = c.old
    b, k = ints("b k")
    h = nb(o, b, k)
    return FA([b, k], imp(And(A(b), link(o, b, k)), lab(s, h) != -1), [h])


def new(o, s, b):
    return And(lab(o, b) == -1, lab(s, b) != -1)


def inv_harvest(c):
    o, s = c.old, c.s
    ti, ci, i = c.p(0), c.p(1), c.i
    k = z3.Int("k")
    h = nb(o, ti, k)
    return grown(c, s, ti, ci) + [("new atoms are closed", closed(c, s, lambda b: new(o, s, b))),
                                  ("own links so far", FA([k], imp(And(k < i, link(o, ti, k)), lab(s, h) != -1), [h]))]


def post_harvest(c):
    o, s = c.old, c.new
    ti, ci = c.p(0), c.p(1)
    return grown(c, s, ti, ci) + [("new atoms are closed", closed(c, s, lambda b: z3.Or(b == ti, new(o, s, b))))]


# ---- find_clusters_recursive
def clusters(c, s, n, upto, m):
    """labels 1..m, of the eligible atoms before upto and all connected with them"""
    o = c.old
    a, b, k = ints("a b k")
    rn = o("real_nop")
    h = nb(o, a, k)
    A = rng(a, 0, rn)
    lk = lambda a, k: link(o, a, k, cutof(c, a))
    t = lab(s, a)
    return [("labels in range", FA([a], imp(A, z3.Or(t == -1, And(1 <= t, t <= m))), [t])),
            ("labels only of selected atoms", FA([a], imp(And(A, t != -1), elig(o, a)), [t])),
            ("selected atoms are labelled", FA([a], imp(And(rng(a, 0, upto), elig(o, a)), t != -1), [t])),
            ("linked atoms share the label", FA([a, k], imp(And(A, t != -1, elig(o, a), lk(a, k)), lab(s, h) == t), [(h, t)])),
            ("atoms with the same label are connected", FA([a, b], imp(And(A, rng(b, 0, rn), t != -1, t == lab(s, b)), Conn(a, b)), [(t, lab(s, b))]))]


def cand_clu(c):
    o, s = c.old, c.s
    out = []
    if c.i is None:
        return out
    for p, t in c.locals(I):
        out += [("%s: %s" % (p, x[0]), x[1]) for x in clusters(c, s, None, c.i, t)]
        out.append(("%s: between none and all" % p, And(0 <= t, t <= c.i)))
        out.append(("%s: all numbers occur" % p, occurs(c, s, t, c.old("real_nop"))))
    return out


def root(v, l):
    return v("$root[]", l)


def occurs(c, s, m, upto):
    l = z3.Int("l")
    r = root(s, l)
    return FA([l], imp(And(1 <= l, l <= m), And(rng(r, 0, upto), lab(s, r) == l)), [r])


def inv_cut0(c):
    o, s = c.old, c.s
    a = z3.Int("a")
    t = s("atoms[].cutoff", a)
    return [("cutoffs", FA([a], t == z3.If(And(c.p(0) != 0, rng(a, 0, c.i)), c.p(0), o("atoms[].cutoff", a)), [t]))]


def post_clu(c):
    o, s = c.old, c.new
    a, k = ints("a k")
    rn = o("real_nop")
    out = []
    t = lab(s, a)
    l = z3.Int("l")
    return clusters(c, s, None, rn, rn) + [
        ("ids are consecutive", FA([a, l], imp(And(rng(a, 0, rn), 1 <= l, l <= t), And(rng(root(s, l), 0, rn), lab(s, root(s, l)) == l)), [(t, root(s, l))]))]


# ---- largest cluster
CntL = Rec("CntL", [AI, I], lambda ls, l, k: z3.If(ls[k] == l, z3.IntVal(1), z3.IntVal(0)), rng=I)     # atoms with label l


def cnt_axiom(ex, ls, n):
    """the definition at n, for every label"""
    key = ("CntL", ls.get_id(), n.get_id())
    if key not in ex.recs:
        ex.recs.add(key)
        ex.keep += [ls, n]
        l = z3.Int("l")
        t = CntL.f(ls, l, n)
        ex.axioms.append(FA([l], t == z3.If(n <= 0, 0, CntL.f(ls, l, z3.simplify(n - 1)) + z3.If(ls[z3.simplify(n - 1)] == l, 1, 0)), [t]))


def labels(o):
    return o.raw("atoms[].belongsto")


def pre_largest(c):
    o = c.old
    a = z3.Int("a")
    t = lab(o, a)
    rn = o("real_nop")
    return wf(o) + nonneg_lists(o) + [("original atoms come first", And(0 <= rn, rn <= o("nop"))),
                                      ("labels in range", FA([a], imp(rng(a, 0, rn), z3.Or(t == -1, And(1 <= t, t <= rn))), [t]))]


def cand_count(c):
    if c.i is None:
        return []
    o = c.old
    ls, rn = labels(o), o("real_nop")
    k = z3.Int("k")
    cnt_axiom(c.ex, ls, c.i)
    cnt_axiom(c.ex, ls, z3.IntVal(0))
    return [("%s counts the labels" % p, FA([k], imp(rng(k, 0, rn), arr[k] == CntL.f(ls, k + 1, c.i)), [arr[k]])) for p, arr in c.larrs(I)]


def maximal(o, s, t, upto):
    """t is the largest count of the labels up to upto, maxclusterid has it"""
    ls, rn = labels(o), o("real_nop")
    l = z3.Int("l")
    x = CntL.f(ls, l, rn)
    m = s("maxclusterid")
    return [("no larger cluster", FA([l], imp(And(1 <= l, l <= upto), x <= t), [x])),
            ("the cluster that has it", z3.Or(And(m == -1, t == 0), And(1 <= m, m <= upto, t > 0, CntL.f(ls, m, rn) == t)))]


def cand_max(c):
    if c.i is None:
        return []
    return [("%s: %s" % (p, x[0]), x[1]) for p, t in c.locals(I) for x in maximal(c.old, c.s, t, c.i)]


def post_largest(c):
    o, s = c.old, c.new
    return maximal(o, s, c.res, o("real_nop")) + flags(c, s, lambda a: rng(a, 0, o("real_nop")), s("maxclusterid"))


def flags(c, s, A, mx):
    o = c.old
    a, k = ints("a k")
    solid = lambda v, x: to_bool(v("atoms[].issolid", x))
    sf, lc = s("atoms[].issurface", a), s("atoms[].lcluster", a)
    h = nb(o, a, k)
    liquid = And(o("atoms[].ghost", h) == 0, z3.Not(solid(o, h)))
    K = rng(k, 0, nnv(o, a))
    return [("flag of the largest cluster", FA([a], imp(A(a), to_bool(lc) == And(mx != -1, lab(o, a) == mx)), [lc])),
            ("atoms that are not solid are surface", FA([a], imp(And(A(a), z3.Not(solid(o, a))), to_bool(sf)), [sf])),
            ("inner solid atoms have no liquid neighbor", FA([a, k], imp(And(A(a), solid(o, a), z3.Not(to_bool(sf)), K), z3.Not(liquid)), [(sf, h)])),
            ("solid surface atoms have a liquid neighbor", FA([a], imp(And(A(a), solid(o, a), to_bool(sf)), z3.Exists([k], And(K, liquid), patterns=[h])), [sf]))]


def inv_flags(c):
    return flags(c, c.s, lambda a: rng(a, 0, c.i), c.old("maxclusterid"))


def inv_liquid(c):
    o, s, ti = c.old, c.s, c.outer[-1]
    k = z3.Int("k")
    h = nb(o, ti, k)
    return [("no liquid neighbor so far", FA([k], imp(rng(k, 0, c.i), z3.Not(And(o("atoms[].ghost", h) == 0, z3.Not(to_bool(o("atoms[].issolid", h)))))), [h])),
            ("not surface so far", z3.Not(to_bool(s("atoms[].issurface", ti))))]


def lemma_mutual():
    """cutoff lists make links mutual (from the postcondition of the cutoff search and the symmetry of the distance)"""
    I3 = lambda nm: z3.Function(nm, I, I, I)
    nbf, np_ = I3("nb_"), I3("np_")
    nnf = z3.Function("nn_", I, I)
    D, ndist = z3.Function("D_", I, I, R), z3.Function("nd_", I, I, R)
    ty = z3.Function("ty_", I, I)
    n, fl = ints("n_ fl_")
    nd, cut = z3.Reals("nd0 cut0")
    a, b, k = ints("a b k")
    A = lambda a, b: And(a != b, D(a, b) < nd, imp(fl == 1, ty(a) == ty(b)), imp(fl == 2, ty(a) != ty(b)))
    hyp = [FA([a, k], imp(And(rng(a, 0, n), rng(k, 0, nnf(a))), And(rng(nbf(a, k), 0, n), A(a, nbf(a, k)), ndist(a, k) == D(a, nbf(a, k)))), [nbf(a, k)]),
           FA([a, b], imp(And(rng(a, 0, n), rng(b, 0, n), A(a, b)), And(rng(np_(a, b), 0, nnf(a)), nbf(a, np_(a, b)) == b)), [np_(a, b)]),
           FA([a, b], D(a, b) == D(b, a), [D(a, b)])]
    x, q = ints("x q")
    h = nbf(x, q)
    g = imp(And(rng(x, 0, n), rng(q, 0, nnf(x)), ndist(x, q) <= cut), And(rng(np_(h, x), 0, nnf(h)), nbf(h, np_(h, x)) == x, ndist(h, np_(h, x)) <= cut))
    return [("links of cutoff lists are mutual", hyp, g)]


def lemma_count():
    f, l, v = ints("f l v")
    return [("a label that does not occur counts zero, step", [f == 0, v != l], f + z3.If(v == l, 1, 0) == 0),
            ("a label that occurs counts at least one, step", [z3.Or(f >= 1, And(f >= 0, v == l))], f + z3.If(v == l, 1, 0) >= 1)]


CONTRACTS = [
    Contract("System::harvest_cluster", pre=pre_harvest, post=post_harvest, modifies=["atoms[].belongsto", "$root"], loops={"0": inv_harvest}, recursive=True, lift=False, props=["C09"]),
    Contract("System::find_clusters_recursive", pre=lambda c: pre_clu(c, lambda a: cutof(c, a)), post=post_clu, modifies=["atoms[].belongsto", "atoms[].cutoff", "$root"],
             loops={}, cands={"*": cand_clu}, lift=True, props=["C09"]),
    Contract("System::largest_cluster", pre=pre_largest, post=post_largest, modifies=["maxclusterid", "atoms[].lcluster", "atoms[].issurface"],
             cands={"1": cand_count, "2": cand_max, "*": lambda c: cand_count(c) + cand_max(c)}, lift=True, props=["C10"]),
    Contract("System::get_largest_cluster_atoms", pre=pre_largest, post=lambda c: flags(c, c.new, lambda a: rng(a, 0, c.old("real_nop")), c.old("maxclusterid")),
             modifies=["atoms[].lcluster", "atoms[].issurface"], loops={"0": inv_flags, "0.0": inv_liquid}, lift=False, props=["C10"]),
]

LEMMAS = [("mutual links", ["C09"], lemma_mutual), ("label counts", ["C10"], lemma_count)]
