"""Common neighbor analysis and diamond structure (C12, C13)."""
from speclib import *
from specs.geo import *
from specs.nbr import *
from specs.nbt import *
from specs.nin import nonneg_lists, row, tempcut, cand_tempsum, Q11547
from specs.clu import CntL, cnt_axiom
import sym

# canonical row: the first n entries of a list, -1 elsewhere
Canon = z3.Function("Canon", AI, I, AI)
GA = [Geo, AI, R]


def adj(g, r, cut, j, k):
    return Dist(g, r[j], r[k]) <= cut


# entries j' < j of r, other than k, bonded with entry k
CN = Rec("CN", GA + [I], lambda g, r, cut, k, j: z3.If(And(j != k, adj(g, r, cut, k, j)), z3.IntVal(1), z3.IntVal(0)), rng=I)
# slot of the p-th of these, and the list of them
CIx = z3.Function("CIx", Geo, AI, R, I, I, I, I)
CL = z3.Function("CL", Geo, AI, R, I, I, AI)
# bonds of entry l with the d entries behind it; all bonds up to entry l; largest and smallest number of bonds of an entry
PC = Rec("PC", GA + [I], lambda g, r, cut, l, d: z3.If(adj(g, r, cut, l, l + 1 + d), z3.IntVal(1), z3.IntVal(0)), rng=I)
TP = Rec("TP", GA + [I], lambda g, r, cut, L, l: PC.f(g, r, cut, l, L - l - 1), rng=I)
MaxB = Rec("MaxB", GA + [I], lambda g, r, cut, L, l: CN.f(g, r, cut, l, L), base=0, comb=lambda a, b: z3.If(a < b, b, a), rng=I)
MinB = Rec("MinB", GA + [I], lambda g, r, cut, L, l: CN.f(g, r, cut, l, L), base=8, comb=lambda a, b: z3.If(b < a, b, a), rng=I)
Sig = [z3.Function("Sig%d" % q, Geo, AI, R, I, I, I) for q in range(4)]      # signature of slot k of a list of n entries


def cna_theory(ex):
    r, c = z3.Consts("r_ c_", AI)
    g = z3.Const("g_", Geo)
    cut = z3.Real("cut_")
    n, j, k, p = ints("n_ j_ k_ p_")
    cn = lambda j: CN.f(g, r, cut, k, j)
    ci = CIx(g, r, cut, n, k, p)
    cl = CL(g, r, cut, n, k)
    S = [s(g, r, cut, n, k) for s in Sig]
    return [FA([g, r, cut, k, n], cn(n) >= 0, [cn(n)]),       # lemma_choice
            FA([r, n, j], Canon(r, n)[j] == z3.If(rng(j, 0, n), r[j], -1), [Canon(r, n)[j]]),
            # the p-th bonded entry exists (lemma_choice)
            FA([g, r, cut, n, k, p], imp(rng(p, 0, cn(n)), And(rng(ci, 0, n), ci != k, adj(g, r, cut, k, ci), cn(ci) == p)), [ci]),
            FA([g, r, cut, n, k, p], cl[p] == z3.If(rng(p, 0, cn(n)), r[ci], -1), [cl[p]]),
            FA([g, r, cut, n, k], And(S[0] == cn(n), S[1] == TP.f(g, cl, cut, cn(n), cn(n)), S[2] == MaxB.f(g, cl, cut, cn(n), cn(n)), S[3] == MinB.f(g, cl, cut, cn(n), cn(n))), [S[0]])]


def at_all(ex, rec, args, n):
    """definition of a recursive function at n for every value of its last parameter before n"""
    key = (rec.name, "all") + tuple(x.get_id() for x in args + [n])
    if key not in ex.recs:
        ex.recs.add(key)
        ex.keep += args + [n]
        k = z3.Int("k_")
        t = rec.f(*(args + [k, n]))
        n1 = z3.simplify(n - 1)
        ex.axioms.append(FA([k], t == z3.If(n <= 0, rec.base, rec.comb(rec.f(*(args + [k, n1])), rec.step(*(args + [k, n1])))), [t]))


def lemma_choice():
    """for every p below the count of n entries there is an entry of rank p (induction step)"""
    ad = z3.Function("ad_", I, B)
    C, W = z3.Function("C_", I, I), z3.Function("W_", I, I)       # counts, witnesses for n entries
    n, p, j = ints("n p j")
    hyp = [n >= 0, C(n + 1) == C(n) + z3.If(ad(n), 1, 0), FA([p], imp(rng(p, 0, C(n)), And(rng(W(p), 0, n), ad(W(p)), C(W(p)) == p)), [W(p)])]
    w = z3.If(p < C(n), W(p), n)
    return [("counts are not negative, step", [n >= 0, C(n + 1) == C(n) + z3.If(ad(n), 1, 0), C(n) >= 0], C(n + 1) >= 0),
            ("an entry of each rank exists, step", hyp, imp(rng(p, 0, C(n + 1)), And(rng(w, 0, n + 1), ad(w), C(w) == p)))]


# ---- fields
def F(v, f, *ix):
    return v("atoms[]." + f, *ix)


def crow(v, a):
    return Canon(row(v, "neighbors[]", a), nnv(v, a))


def ctx(c):
    o = c.old
    ti = c.p(0)
    return o, geo(o), ti, crow(o, ti), F(o, "cutoff", ti), nnv(o, ti)


def pre_ti(c):
    return wf(c.old) + boxpos(c) + nonneg_lists(c.old) + pre_idx(0)(c)


def cn_state(c, s, up, K=None):
    """common neighbors of the slots among their first up(k) entries"""
    o, g, ti, r, cut, n = ctx(c)
    k, j, q = ints("k j q")
    cn = lambda k, j: CN.f(g, r, cut, k, j)
    for x in set():
        pass
    c0 = F(s, "cna[][]", ti, k, 0)
    ln, lk = F(s, "common[].#len", ti, k), F(s, "cna[].#len", ti, k)
    KK = rng(k, 0, n)
    cm = F(s, "common[][]", ti, k, cn(k, j))
    cq = F(s, "cna[][]", ti, k, q)
    return [("signature length", FA([k], imp(KK, lk == 4), [lk])),
            ("number of common neighbors", FA([k], imp(KK, c0 == cn(k, up(k))), [c0])),
            ("other entries are zero", FA([k, q], imp(And(KK, rng(q, 1, 4)), cq == 0), [cq])),
            ("length of the list of common neighbors", FA([k], imp(KK, ln == cn(k, up(k))), [ln])),
            ("ranks of common neighbors", FA([k, j], imp(And(KK, rng(j, 0, up(k)), j != k, adj(g, r, cut, k, j)), rng(cn(k, j), 0, cn(k, up(k)))), [cn(k, j)])),
            ("common neighbors", FA([k, j], imp(And(KK, rng(j, 0, up(k)), j != k, adj(g, r, cut, k, j)), cm == r[j]), [cn(k, j)]))]


def lens(c, s, fs):
    o, g, ti, r, cut, n = ctx(c)
    return [("length of %s" % f, F(s, f + ".#len", ti) == n) for f in fs]


def inv_cn_zero(c):
    o, g, ti, r, cut, n = ctx(c)
    s = c.s
    k, q = ints("k q")
    lk, ln, cq = F(s, "cna[].#len", ti, k), F(s, "common[].#len", ti, k), F(s, "cna[][]", ti, k, q)
    return lens(c, s, ["cna", "common"]) + [
        ("signature length so far", FA([k], imp(rng(k, 0, n), lk == z3.If(k < c.i, 4, 0)), [lk])),
        ("zero so far", FA([k, q], imp(And(rng(k, 0, n), k < c.i, rng(q, 0, 4)), cq == 0), [cq]))]


def up_defs(c, *ns):
    o, g, ti, r, cut, n = ctx(c)
    for x in ns:
        at_all(c.ex, CN, [g, r, cut], z3.simplify(x))


def inv_cn_i(c):
    o, g, ti, r, cut, n = ctx(c)
    i = c.i
    up_defs(c, i, i + 1, i + 2, n, z3.IntVal(0))
    return lens(c, c.s, ["cna", "common"]) + cn_state(c, c.s, lambda k: z3.If(k < i, n, i))


def upf(i, j, n, k):
    return z3.If(k < i, n, z3.If(k == i, j, z3.If(k < j, i + 1, i)))


def inv_cn_j(c):
    o, g, ti, r, cut, n = ctx(c)
    i, j = c.outer[-1], c.i
    up_defs(c, i, i + 1, j, j + 1, n)
    return lens(c, c.s, ["cna", "common"]) + cn_state(c, c.s, lambda k: upf(i, j, n, k))


def post_cn(c):
    o, g, ti, r, cut, n = ctx(c)
    s = c.new
    up_defs(c, n)
    k, p = ints("k p")
    cl = CL(g, r, cut, n, k)
    cm = F(s, "common[][]", ti, k, p)
    out = [x for x in cn_state(c, s, lambda k: n) if x[0] not in ("ranks of common neighbors", "common neighbors")]
    return lens(c, s, ["cna", "common"]) + out + [
        ("list of common neighbors", FA([k, p], hint(imp(And(rng(k, 0, n), rng(p, 0, CN.f(g, r, cut, k, n))), And(cm == cl[p])), CIx(g, r, cut, n, k, p)), [cm]))]


# ---- bonds between common neighbors
def cnlist(c, k):
    o, g, ti, r, cut, n = ctx(c)
    return CL(g, r, cut, n, k), CN.f(g, r, cut, k, n)


def pre_cb(c):
    o, g, ti, r, cut, n = ctx(c)
    c2 = c
    k, p = ints("k p")
    s = o
    cl = CL(g, r, cut, n, k)
    cm = F(s, "common[][]", ti, k, p)
    out = [x for x in cn_state(c, s, lambda k: n) if x[0] not in ("ranks of common neighbors", "common neighbors")]
    return pre_ti(c) + lens(c, s, ["cna", "common"]) + out + [
        ("list of common neighbors", FA([k, p], imp(And(rng(k, 0, n), rng(p, 0, CN.f(g, r, cut, k, n))), cm == cl[p]), [cm]))]


def sigs(c, s, A):
    """complete signatures of the slots in A"""
    o, g, ti, r, cut, n = ctx(c)
    k = z3.Int("k")
    out = []
    for q in range(4):
        t = F(s, "cna[][]", ti, k, q)
        out.append(("signature entry %d" % q, FA([k], imp(And(rng(k, 0, n), A(k)), t == Sig[q](g, r, cut, n, k)), [t])))
        out[-1] = (out[-1][0], FA([k], imp(And(rng(k, 0, n), A(k)), And(t == Sig[q](g, r, cut, n, k), Sig[0](g, r, cut, n, k) == CN.f(g, r, cut, k, n))), [t]))
    return out


def keep(c, f, s, e, cond, depth):
    """entries of atoms[ti].f as in state e where cond holds"""
    ti = c.p(0)
    k, p = ints("k p")
    out = []
    x = F(s, f + "[].#len", ti, k)
    out.append(("lengths of %s kept" % f, FA([k], x == F(e, f + "[].#len", ti, k), [x])))
    x = F(s, f + "[][]", ti, k, p)
    out.append(("%s kept" % f, FA([k, p], imp(cond(k, p), x == F(e, f + "[][]", ti, k, p)), [x])))
    return out


def inv_cb_k(c):
    o, g, ti, r, cut, n = ctx(c)
    s, k0 = c.s, c.i
    q = z3.Int("q")
    return lens(c, s, ["bonds"]) + sigs(c, s, lambda k: k < k0) + keep(c, "cna", s, o, lambda k, p: z3.Or(k >= k0, p == 0), 2) + [
        ("lists of later slots empty", FA([q], imp(rng(q, k0, n), F(s, "bonds[].#len", ti, q) == 0), [F(s, "bonds[].#len", ti, q)]))]


def blens(c, s, e, k0):
    ti = c.p(0)
    q = z3.Int("q")
    x = F(s, "bonds[].#len", ti, q)
    return [("other lists keep their lengths", FA([q], imp(q != k0, x == F(e, "bonds[].#len", ti, q)), [x]))]


def inv_cb_zero(c):
    o, g, ti, r, cut, n = ctx(c)
    s, k0, l = c.s, c.outer[-1], c.i
    q = z3.Int("q")
    x = F(s, "bonds[][]", ti, k0, q)
    return lens(c, s, ["bonds"]) + blens(c, s, c.entry, k0) + [("length so far", F(s, "bonds[].#len", ti, k0) == l), ("zero so far", FA([q], imp(rng(q, 0, l), x == 0), [x]))]


def cb_state(c, s, k0, up):
    o, g, ti, r, cut, n = ctx(c)
    cl, L = cnlist(c, k0)
    q = z3.Int("q")
    x = F(s, "bonds[][]", ti, k0, q)
    return [("bonds of the common neighbors", FA([q], imp(rng(q, 0, L), x == CN.f(g, cl, cut, q, up(q))), [x])), ("length", F(s, "bonds[].#len", ti, k0) == L)]


def cb_defs(c, k0, *ns):
    o, g, ti, r, cut, n = ctx(c)
    cl, L = cnlist(c, k0)
    for x in list(ns) + [L]:
        at_all(c.ex, CN, [g, cl, cut], z3.simplify(x))
    key = ("Sig0", k0.get_id())
    if key not in c.ex.recs:
        c.ex.recs.add(key)
        c.ex.keep.append(k0)
        c.ex.axioms.append(HntI(Sig[0](g, r, cut, n, k0)))


def inv_cb_l(c):
    o, g, ti, r, cut, n = ctx(c)
    s, k0, l = c.s, c.outer[-1], c.i
    cl, L = cnlist(c, k0)
    cb_defs(c, k0, l, l + 1, l + 2, z3.IntVal(0))
    TP(c.ex, g, cl, cut, L, l), PC(c.ex, g, cl, cut, l, z3.simplify(L - l - 1)), TP(c.ex, g, cl, cut, L, L)
    PC(c.ex, g, cl, cut, L - 1, z3.simplify(L - (L - 1) - 1))
    return lens(c, s, ["bonds"]) + blens(c, s, c.entry, k0) + keep(c, "cna", s, c.entry, lambda k, p: z3.Or(k != k0, p != 1), 2) + cb_state(c, s, k0, lambda q: z3.If(q < l, L, l)) + [
        ("bonds so far", F(s, "cna[][]", ti, k0, 1) == TP(c.ex, g, cl, cut, L, l)), ("entries so far", z3.Or(l == 0, l <= L - 1)), ("number of entries", F(s, "cna[][]", ti, k0, 0) == L)]


def inv_cb_m(c):
    o, g, ti, r, cut, n = ctx(c)
    s, k0, l, m = c.s, c.outer[-2], c.outer[-1], c.i
    cl, L = cnlist(c, k0)
    cb_defs(c, k0, l, l + 1, m, m + 1)
    return lens(c, s, ["bonds"]) + blens(c, s, c.entry, k0) + keep(c, "cna", s, c.entry, lambda k, p: z3.Or(k != k0, p != 1), 2) + cb_state(c, s, k0, lambda q: upf(l, m, L, q)) + [
        ("bonds so far", F(s, "cna[][]", ti, k0, 1) == TP(c.ex, g, cl, cut, L, l) + PC(c.ex, g, cl, cut, l, z3.simplify(m - l - 1))), ("entries so far", m <= L), ("number of entries", F(s, "cna[][]", ti, k0, 0) == L)]


def cand_cb_max(c):
    if not c.outer:
        return []
    o, g, ti, r, cut, n = ctx(c)
    k0 = c.outer[-1]
    cl, L = cnlist(c, k0)
    out = []
    for p, t in c.locals(I):
        out += [("%s is the largest" % p, t == MaxB(c.ex, g, cl, cut, L, c.i)), ("%s is the smallest" % p, t == MinB(c.ex, g, cl, cut, L, c.i))]
    return out


def post_cb(c):
    k = z3.Int("k")
    o, g, ti, r, cut, n = ctx(c)
    lk = F(c.new, "cna[].#len", ti, k)
    return lens(c, c.new, ["cna"]) + [("signature length", FA([k], imp(rng(k, 0, n), lk == 4), [lk]))] + sigs(c, c.new, lambda k: z3.BoolVal(True))


def seed0(c):
    """definitions used at the start of the loops"""
    return []


# ---- neighbors of the analysis
def arow(f):
    return lambda v, a: v("atoms[]." + f, a)


nrow, trow = arow("neighbors[]"), arow("temp_neighbors[].index")
Q1207, Q854 = rv(1.207), rv(0.854)


def cnacut(ex, o, s, a, style, adaptive, unfold=False):
    """cutoff of the analysis of an atom; s: state with the candidates"""
    if not adaptive:
        return (Q854 if style == 12 else Q1207) * o("lattice_constant")
    r = tdrow(s, a)
    S = lambda k: SumD(ex, r, z3.IntVal(k), unfold=unfold)
    return Q1207 * S(12) / 12 if style == 12 else Q1207 * (Q11547 * S(8) + S(14) - S(8)) / 14


def shell(c, s, A, style, adaptive, canon=True):
    """the neighbors of the atoms in A are their first candidates"""
    o = c.old
    a, k = ints("a k")
    has = lambda a: tl(o, a) >= style if adaptive else z3.BoolVal(True)
    h = nb(s, a, k)
    cr = Canon(nrow(s, a), style)
    out = [("number of neighbors", FA([a], imp(A(a), nnv(s, a) == z3.If(has(a), style, 0)), [nnv(s, a)])),
           ("neighbors are the first candidates", FA([a, k], imp(And(A(a), has(a), rng(k, 0, style)), h == tix(o, a, k)), [h])),
           ("cutoff of the analysis", FA([a], imp(And(A(a), has(a)), s("atoms[].cutoff", a) == cnacut(c.ex, o, o, a, style, adaptive)), [s("atoms[].cutoff", a)]))]
    if canon:
        out.append(("neighbor row", FA([a], imp(And(A(a), has(a)), hint(cr == Canon(trow(o, a), style), nnv(s, a))), [nnv(s, a)])))
    return out


def style_of(c):
    return ((12, c.p(0) == 1), (14, c.p(0) == 2))


def pre_shell(c, adaptive):
    o = c.old
    a, k = ints("a k")
    h = tix(o, a, k)
    out = wf(o) + boxpos(c) + [("style", z3.Or(c.p(0) == 1, c.p(0) == 2)), ("candidates are atoms", FA([a, k], imp(And(rng(a, 0, o("nop")), rng(k, 0, tl(o, a))), rng(h, 0, o("nop"))), [h]))]
    if not adaptive:
        out.append(("enough candidates", FA([a], imp(rng(a, 0, o("nop")), tl(o, a) >= z3.If(c.p(0) == 1, 12, 14)), [tl(o, a)])))
    return out


def post_shell(adaptive):
    def f(c):
        return [("%s (style %d)" % (x[0], st), imp(cond, x[1])) for st, cond in style_of(c) for x in shell(c, c.new, lambda a: rng(a, 0, c.old("nop")), st, adaptive)]
    return f


def cand_shell(adaptive):
    def f(c):
        o, s, n = c.old, c.s, c.old("nop")
        out = []
        if c.i is None:
            return out
        if not c.outer:
            a = z3.Int("a")
            for st, cond in style_of(c):
                out += [("%s (style %d)" % (x[0], st), imp(cond, x[1])) for x in shell(c, s, lambda a: rng(a, 0, c.i), st, adaptive, False)]
            out += [("none yet", FA([a], imp(rng(a, c.i, n), nnv(s, a) == 0), [nnv(s, a)])), ("none of the next atom", imp(c.i < n, nnv(s, c.i) == 0))]
        else:
            ti, k = c.outer[-1], z3.Int("k")
            h = nb(s, ti, k)
            out += [("number so far", nnv(s, ti) == c.i), ("first candidates so far", FA([k], imp(rng(k, 0, c.i), h == tix(o, ti, k)), [h]))]
            for st, cond in style_of(c):
                t = cnacut(c.ex, o, o, ti, st, adaptive, True)
                out.append(("cutoff (style %d)" % st, imp(cond, s("atoms[].cutoff", ti) == t)))
            out += cand_tempsum(c)
        return out
    return f


# ---- structure of an atom from its signatures
def sigcount(name, want):
    def step(g, r, cut, n, k):
        return z3.If(And(*[Sig[q](g, r, cut, n, k) == want[q] for q in range(4)]), z3.IntVal(1), z3.IntVal(0))
    return Rec(name, GA + [I], step, rng=I)


NFcc, NHcp, NIco = sigcount("NFcc", (4, 2, 1, 1)), sigcount("NHcp", (4, 2, 2, 0)), sigcount("NIco", (5, 5, 2, 2))
NB4, NB6 = sigcount("NB4", (4, 4, 2, 2)), sigcount("NB6", (6, 6, 2, 2))


def label12(g, r, cut, n):
    f, h, i = [F_.f(g, r, cut, n, n) for F_ in (NFcc, NHcp, NIco)]
    return z3.If(f == 12, 1, z3.If(And(f == 6, h == 6), 2, z3.If(i == 12, 4, 0)))


def label14(g, r, cut, n):
    return z3.If(And(NB4.f(g, r, cut, n, n) == 6, NB6.f(g, r, cut, n, n) == 8), 3, 0)


LABEL = {12: label12, 14: label14}


def st(v, a):
    return v("atoms[].structure", a)


def labelled(c, s, A, style):
    o, g = c.old, geo(c.old)
    a = z3.Int("a")
    L = LABEL[style](g, crow(o, a), F(o, "cutoff", a), nnv(o, a))
    return [("structure of the atoms", FA([a], imp(A(a), st(s, a) == z3.If(st(o, a) == 0, L, st(o, a))), [st(s, a)]))]


def inv_id(style):
    def f(c):
        n, a = c.old("nop"), z3.Int("a")
        return labelled(c, c.s, lambda a: rng(a, 0, c.i), style) + [
            ("later atoms unchanged", FA([a], imp(a >= c.i, st(c.s, a) == st(c.old, a)), [st(c.s, a)]))]
    return f


def cand_id(style):
    return lambda c: cand_id_(c, (NFcc, NHcp, NIco) if style == 12 else (NB4, NB6))


def cand_id_(c, NS):
    if not c.outer or c.i is None:
        return []
    o, g, ti = c.old, geo(c.old), c.outer[-1]
    args = [g, crow(o, ti), F(o, "cutoff", ti), nnv(o, ti)]
    out = []
    for N in NS:
        N(c.ex, *(args + [nnv(o, ti)]))
        t = N(c.ex, *(args + [c.i]))
        out += [("%s counts %s" % (p, N.name), x == t) for p, x in c.locals(I)]
    return out


def post_id(style):
    return lambda c: labelled(c, c.new, lambda a: rng(a, 0, c.old("nop")), style)


def pre_id(c):
    return wf(c.old) + boxpos(c) + nonneg_lists(c.old)


IDMODS = ["atoms[].structure", "atoms[].cna", "atoms[].common", "atoms[].bonds"]


# ---- the whole analysis
def structrow(v):
    return v.raw("atoms[].structure")


def cand_hist(m):
    """histograms of the structures"""
    def f(c):
        if c.i is None or c.outer:
            return []
        t = z3.Int("t")
        a = z3.Int("a")
        x = st(c.s, a)
        out = [("no structure yet", FA([a], imp(rng(a, 0, c.i), x == 0), [x]))]
        ls = structrow(c.s)
        cnt_axiom(c.ex, ls, c.i)
        cnt_axiom(c.ex, ls, z3.IntVal(0))
        vecs = {p: arr for p, arr in c.larrs(I)}
        for p, ln, arr in c.lvecs(I):
            vecs[p] = arr
            out += [("%s grows" % p, ln == c.i), ("%s has its length" % p, ln == m), ("%s is zero so far" % p, FA([t], imp(rng(t, 0, ln), arr[t] == 0), [arr[t]]))]
        for p, arr in vecs.items():
            out += [("%s counts structures" % p, FA([t], imp(rng(t, 0, m), arr[t] == CntL.f(ls, t, c.i)), [arr[t]]))]
        return out
    return f


def hist(c, m):
    o, s = c.old, c.new
    t = z3.Int("t")
    a = z3.Int("a")
    cnt_axiom(c.ex, structrow(s), o("real_nop"))
    x = c.r(t)
    return [("number of entries of the result", c.rlen() == m), ("the result counts the structures", FA([t], imp(rng(t, 0, m), x == CntL.f(structrow(s), t, o("real_nop"))), [x])),
            ("every atom has a structure", FA([a], imp(rng(a, 0, o("nop")), rng(st(s, a), 0, m)), [st(s, a)]))]


def pre_cna(c):
    o = c.old
    return wf(o) + boxpos(c) + [("atoms", o("nop") > 0), ("original atoms come first", And(0 <= o("real_nop"), o("real_nop") <= o("nop"))), ("method", z3.Or(c.p(0) == 1, c.p(0) == 2))] + posrange(o, False)


def post_cna(c):
    o, s, g = c.old, c.new, geo(c.old)
    n = o("nop")
    A = lambda a: rng(a, 0, n)
    a = z3.Int("a")
    out = [(x[0], x[1]) for x in temps(o, s, g, anyP, s("neighbordistance"))] + [sortedP(s, A), ("enough candidates", FA([a], imp(A(a), tl(s, a) >= 14), [tl(s, a)]))]
    for m in (1, 2):
        L = {q: LABEL[q](g, Canon(trow(s, a), q), cnacut(c.ex, o, s, a, q, m == 2), z3.IntVal(q)) for q in (12, 14)}
        out.append(("structure from the signatures of the 12, then the 14, nearest atoms (method %d)" % m, imp(c.p(0) == m, FA([a], imp(A(a), st(s, a) == z3.If(L[12] != 0, L[12], L[14])), [st(s, a)]))))
    return out + hist(c, 5)


# ---- diamond: neighbors of the nearest neighbors
def tall(v):
    return v.raw("atoms[].temp_neighbors[].index")


def dn(T, a, j, k):
    return T[T[a][j]][k]


DIn = Rec("DIn", [AAI, I, I], lambda T, a, j, k: z3.If(dn(T, a, j, k) == a, z3.IntVal(0), z3.IntVal(1)), rng=I)    # of the first k neighbors of neighbor j
DOut = Rec("DOut", [AAI, I], lambda T, a, j: DIn.f(T, a, j, 4), rng=I)                                  # of the first j neighbors
# mark of the first marked entry among the first k of a list (0: none)
First = Rec("First", [AI, AI], lambda K, r, k: mk(K[r[k]]), base=0, rng=I, comb=lambda a, b: z3.If(a != 0, a, b))
Same, SameW = z3.Function("Same", AI, AI, B), z3.Function("SameW", AI, AI, I)      # two structures with the same marks; an atom where the marks differ


def mk(x):
    return z3.If(z3.Or(x == 5, x == 8), x, 0)


Q12 = z3.RealVal(12)


def nn1row(v, a):
    return v("atoms[].nn1[]", a)


def dlists(c, s, A):
    """neighbors of the atoms in A: the 4 neighbors each of their 4 nearest ones, without themselves"""
    o, g, T = c.old, geo(c.old), tall(c.old)
    a, j, k = ints("a j k")
    slot = DOut.f(T, a, j) + DIn.f(T, a, j, k)
    S = lambda x: And(rng(j, 0, 4), rng(k, 0, 4), dn(T, a, j, k) != a, x)
    q = z3.Int("q")
    return [("number of neighbors", FA([a], imp(A(a), nnv(s, a) == DOut.f(T, a, z3.IntVal(4))), [nnv(s, a)])),
            ("at most 16 neighbors", FA([a], imp(A(a), And(nnv(s, a) >= 0, nnv(s, a) <= 16)), [nnv(s, a)])),
            ("entries are other atoms", FA([a, q], imp(And(A(a), rng(q, 0, nnv(s, a))), And(rng(nb(s, a, q), 0, o("nop")), nb(s, a, q) != a)), [nb(s, a, q)])),
            ("neighbors of the nearest neighbors", FA([a, j, k], imp(And(A(a), S(True)), And(rng(slot, 0, nnv(s, a)), nb(s, a, slot) == dn(T, a, j, k))), [DIn.f(T, a, j, k)])),
            ("distances", FA([a, q], imp(And(A(a), rng(q, 0, nnv(s, a))), s("atoms[].neighbordist[]", a, q) == Dist(g, a, nb(s, a, q))), [s("atoms[].neighbordist[]", a, q)])),
            ("nearest neighbors", FA([a, j], imp(And(A(a), rng(j, 0, 4)), And(s("atoms[].nn1[]", a, j) == tix(o, a, j), rng(tix(o, a, j), 0, o("nop")))), [s("atoms[].nn1[]", a, j)]))]


def cand_dlists(c):
    o, s, g, T, n = c.old, c.s, geo(c.old), tall(c.old), c.old("nop")
    a, j, k, q = ints("a j k q")
    if c.i is None:
        return []
    out = []
    if len(c.outer) == 0:
        out += dlists(c, s, lambda a: rng(a, 0, c.i))
        out += [("none yet", FA([a], imp(rng(a, c.i, n), nnv(s, a) == 0), [nnv(s, a)])), ("none of the next atom", imp(c.i < n, nnv(s, c.i) == 0)),
                ("enough candidates", FA([a], imp(rng(a, 0, c.i), tl(o, a) >= 4), [tl(o, a)]))]
        return out
    ti = c.outer[0]
    if len(c.outer) == 1:
        j0, k0 = c.i, z3.IntVal(0)
    elif len(c.outer) == 2:
        j0, k0 = c.outer[1], c.i
    else:
        return []
    DOut(c.ex, T, ti, z3.IntVal(4)), DOut(c.ex, T, ti, j0), DOut(c.ex, T, ti, j0 + 1), DIn(c.ex, T, ti, j0, z3.IntVal(4))
    DIn(c.ex, T, ti, j0, k0 + 1)
    m = DOut(c.ex, T, ti, j0) + DIn(c.ex, T, ti, j0, k0)
    slot = DOut.f(T, ti, j) + DIn.f(T, ti, j, k)
    before = z3.Or(j < j0, And(j == j0, k < k0))
    nd = s("atoms[].neighbordist[]", ti, q)
    out += [("number so far", nnv(s, ti) == m), ("at most so many", And(m >= 0, m <= 4 * j0 + k0)),
            ("entries are other atoms so far", FA([q], imp(rng(q, 0, m), And(rng(nb(s, ti, q), 0, n), nb(s, ti, q) != ti)), [nb(s, ti, q)])),
            ("neighbors of the nearest neighbors so far", FA([j, k], imp(And(before, rng(j, 0, 4), rng(k, 0, 4), dn(T, ti, j, k) != ti), And(rng(slot, 0, m), nb(s, ti, slot) == dn(T, ti, j, k))), [DIn.f(T, ti, j, k)])),
            ("distances so far", FA([q], imp(rng(q, 0, m), nd == Dist(g, ti, nb(s, ti, q))), [nd])),
            ("nearest neighbors so far", FA([j], imp(rng(j, 0, j0 + (1 if len(c.outer) == 2 else 0)), s("atoms[].nn1[]", ti, j) == tix(o, ti, j)), [s("atoms[].nn1[]", ti, j)]))]
    return out


def pre_dia(c):
    o = c.old
    a, k = ints("a k")
    h = tix(o, a, k)
    return wf(o) + boxpos(c) + [("candidates are atoms", FA([a, k], imp(And(rng(a, 0, o("nop")), rng(k, 0, tl(o, a))), rng(h, 0, o("nop"))), [h]))]


# ---- diamond: labels
def dlabel(c, s, a):
    """signature of the neighbors: 1 fcc, 2 hcp, 4 icosahedral, 0 none"""
    return label12(geo(c.old), Canon(nrow(s, a), nnv(s, a)), s("atoms[].cutoff", a), nnv(s, a))


def core_label(L):
    return z3.If(L == 1, 5, z3.If(L == 2, 8, L))


def mark(v):
    return structrow(v)


def dfinal(c, s, M, a, third=True):
    L = dlabel(c, s, a)
    f1 = First.f(M, Canon(nn1row(s, a), 4), z3.IntVal(4))
    f2 = First.f(M, Canon(nrow(s, a), nnv(s, a)), nnv(s, a))
    rest = z3.If(f2 != 0, f2 + 2, L) if third else L
    return z3.If(z3.Or(L == 1, L == 2), core_label(L), z3.If(f1 != 0, f1 + 1, rest))


def dcut(c, s, A):
    o = c.old
    a = z3.Int("a")
    t = s("atoms[].cutoff", a)
    return [("cutoff from the mean distance of 12 neighbors", FA([a], imp(And(A(a), nnv(s, a) > 11), t == Q1207 * SumD(c.ex, s("atoms[].neighbordist[]", a), z3.IntVal(12), unfold=False) / 12), [t]))]


def dlabels(c, s, A):
    a = z3.Int("a")
    return [("structure of the atoms", FA([a], imp(A(a), st(s, a) == dfinal(c, s, mark(s), a)), [st(s, a)]))]


def cand_dia(c):
    """the passes over the atoms"""
    o, s, e, n = c.old, c.s, c.entry, c.old("nop")
    a = z3.Int("a")
    out = []
    if c.i is None:
        return out
    if not c.outer:
        A = lambda a: rng(a, 0, c.i)
        x = st(s, a)
        M = mark(e)
        L = dlabel(c, s, a)
        out += [("cutoffs", dcut(c, s, A)[0][1]),
                ("cores labelled", FA([a], imp(A(a), x == core_label(L)), [x])),
                ("later atoms not changed", FA([a], imp(a >= c.i, x == st(e, a)), [x])),
                ("marks kept", Same(mark(s), M)),
                ("first neighbors labelled", FA([a], imp(A(a), x == dfinal(c, s, M, a, False)), [x])),
                ("second neighbors labelled", FA([a], imp(A(a), x == dfinal(c, s, M, a)), [x]))]
        return out
    ti = c.outer[-1]
    r = s("atoms[].neighbordist[]", ti)
    SumD(c.ex, r, z3.IntVal(12))
    out += [("%s sums the distances" % p, t == SumD(c.ex, r, c.i)) for p, t in c.locals(R)]
    M = mark(e)
    x = st(s, a)
    out += [("structures as before the loop", FA([a], x == st(e, a), [x]))]
    First(c.ex, M, Canon(nn1row(s, ti), 4), c.i + 1), First(c.ex, M, Canon(nrow(s, ti), nnv(s, ti)), c.i + 1)
    out += [("no first neighbor so far", First(c.ex, M, Canon(nn1row(s, ti), 4), c.i) == 0),
            ("no second neighbor so far", First(c.ex, M, Canon(nrow(s, ti), nnv(s, ti)), c.i) == 0)]
    return out


def first_axioms(ex):
    """the first mark stays the first one (lemma_first); marks"""
    K, r, H = z3.Consts("K_ r_ H_", AI)
    k, l, i = ints("k_ l_ i_")
    f = lambda k: First.f(K, r, k)
    w = SameW(K, H)
    return [FA([K, r, k, l], imp(And(k <= l, f(k) != 0), f(l) == f(k)), [(f(k), f(l))]),
            FA([K, r, k], z3.Or(f(k) == 0, f(k) == 5, f(k) == 8), [f(k)]),
            FA([K, H, r, k], imp(Same(K, H), f(k) == First.f(H, r, k)), [(Same(K, H), f(k)), (Same(K, H), First.f(H, r, k))]),
            FA([K, H], z3.Or(Same(K, H), mk(K[w]) != mk(H[w])), [Same(K, H)]),
            FA([K, H, i], imp(Same(K, H), mk(K[i]) == mk(H[i])), [(Same(K, H), K[i]), (Same(K, H), H[i])])]


def lemma_first():
    ok = lambda x: z3.Or(x == 0, x == 5, x == 8)
    f2, m2 = z3.Function("f2_", I, I), z3.Function("m2_", I, I)
    f, m = z3.Function("f_", I, I), z3.Function("m_", I, I)
    k, l = ints("k l")
    return [("the first mark stays, step", [f(l + 1) == z3.If(f(l) != 0, f(l), m(l)), k <= l, f(k) != 0, f(l) == f(k)], f(l + 1) == f(k)),
            ("the first mark is a mark, step", [f(l + 1) == z3.If(f(l) != 0, f(l), m(l)), ok(m(l)), ok(f(l))], ok(f(l + 1))),
            ("the same marks give the same first mark, step", [f(l + 1) == z3.If(f(l) != 0, f(l), m(l)), f2(l + 1) == z3.If(f2(l) != 0, f2(l), m2(l)), f(l) == f2(l), m(l) == m2(l)], f(l + 1) == f2(l + 1))]


def post_dia(c):
    s, n = c.new, c.old("nop")
    A = lambda a: rng(a, 0, n)
    return dlists(c, s, A) + dcut(c, s, A) + dlabels(c, s, A)


def pre_dia0(c):
    a = z3.Int("a")
    t = st(c.old, a)
    return pre_dia(c) + [("no structure yet", FA([a], imp(rng(a, 0, c.old("nop")), t == 0), [t]))]


CONTRACTS = [
    Contract("System::get_common_neighbors", pre=pre_ti, post=post_cn, modifies=lambda c: [("atoms[].cna", [c.p(0)]), ("atoms[].common", [c.p(0)])],
             loops={"0": inv_cn_zero, "1": inv_cn_i, "1.0": inv_cn_j}, lift=False, heavy=2, props=["C12", "C13"]),
    Contract("System::get_common_bonds", pre=pre_cb, post=post_cb, modifies=lambda c: [("atoms[].cna", [c.p(0)]), ("atoms[].bonds", [c.p(0)])],
             loops={"0": inv_cb_k, "0.0": inv_cb_zero, "0.1": inv_cb_l, "0.1.0": inv_cb_m}, cands={"0.2": cand_cb_max}, lift=False, heavy=4, props=["C12", "C13"]),
    Contract("System::get_cna_neighbors", pre=lambda c: pre_shell(c, False), post=post_shell(False), modifies=MODS + ["atoms[].cutoff", "atoms[].condition"], throws=may,
             cands={"*": cand_shell(False)}, lift=False, heavy=2, props=["C12"]),
    Contract("System::get_acna_neighbors", pre=lambda c: pre_shell(c, True), post=post_shell(True), modifies=MODS + ["atoms[].cutoff", "atoms[].condition"], throws=may,
             cands={"*": cand_shell(True)}, lift=False, heavy=3, props=["C12"]),
    Contract("System::identify_cn12", pre=pre_id, post=post_id(12), modifies=IDMODS, loops={"0": inv_id(12)}, cands={"*": cand_id(12)}, lift=False, heavy=2, props=["C12", "C13"]),
    Contract("System::identify_cn14", pre=pre_id, post=post_id(14), modifies=IDMODS, loops={"0": inv_id(14)}, cands={"*": cand_id(14)}, lift=False, heavy=2, props=["C12"]),
    Contract("System::calculate_cna", pre=pre_cna, post=post_cna, modifies=NMODS + IDMODS + ["atoms[].condition"], throws=may, cands={"*": cand_hist(5)}, lift=False, heavy=4, props=["C12"]),
    Contract("System::get_diamond_neighbors", pre=pre_dia, post=lambda c: dlists(c, c.new, lambda a: rng(a, 0, c.old("nop"))), modifies=MODS + ["atoms[].nn1", "atoms[].condition"], throws=may,
             cands={"*": cand_dlists}, unroll={"*": 0}, lift=False, heavy=4, props=["C13"]),
    Contract("System::identify_cndia", pre=pre_dia0, post=post_dia, modifies=MODS + IDMODS + ["atoms[].nn1", "atoms[].condition", "atoms[].cutoff"], throws=may,
             cands={"*": cand_dia}, unroll={"*": 0}, lift=False, heavy=4, props=["C13"]),
    Contract("System::identify_diamond_structure", pre=lambda c: pre_dia(c) + [("original atoms come first", And(0 <= c.old("real_nop"), c.old("real_nop") <= c.old("nop")))],
             post=lambda c: post_dia(c) + hist(c, 11), modifies=MODS + IDMODS + ["atoms[].nn1", "atoms[].condition", "atoms[].cutoff"], throws=may, cands={"*": cand_hist(11)}, unroll={"*": 0}, lift=False, props=["C13"]),
]

LEMMAS = [("common neighbors", ["C12", "C13"], lemma_choice), ("first mark", ["C13"], lemma_first)]
def THEORY(ex):
    return cna_theory(ex) + first_axioms(ex)
