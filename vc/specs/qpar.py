"""Bond-orientational parameters, bonds, disorder (C06, C07, C08, C16)."""
import math
from speclib import *
from specs.geo import *
from specs.nbr import *
from specs.nin import nonneg_lists, row

PI = rv(math.pi)
SignPow = UF("SignPow", I, R)
Cos, Sin = UF("Cos", R, R), UF("Sin", R, R)

# ---- spherical harmonics
FacP = Rec("FacP", [I, I], lambda l, m, k: z3.ToReal(l + m - k), base=1, comb=lambda a, b: a * b)      # (l+m)! / (l+m-k)!
Pmm = Rec("Pmm", [R], lambda x, k: -z3.ToReal(2 * k + 1) * Sqrt((1 - x) * (1 + x)), base=1, comb=lambda a, b: a * b)
Leg = z3.Function("Leg", I, I, R, R)
YRe = z3.Function("YRe", I, I, R, R, R)
YIm = z3.Function("YIm", I, I, R, R, R)
QRe = z3.Function("QRe", I, I, R, R, R)
QIm = z3.Function("QIm", I, I, R, R, R)


def once(ex, nm, t, f):
    """definition f of the term t, stated once"""
    key = (nm, t.get_id())
    if key not in ex.recs:
        ex.recs.add(key)
        ex.keep.append(t)
        ex.axioms.append(f())
    return t


def leg(ex, l, m, x):
    """associated Legendre function: the recurrence in l"""
    def f():
        L = lambda k: Leg(k, m, x)
        tl, tm = z3.ToReal(l), z3.ToReal(m)
        return z3.And(z3.Implies(l == m, L(l) == Pmm(ex, x, m)),
                      z3.Implies(l == m + 1, L(l) == x * z3.ToReal(2 * m + 1) * Pmm(ex, x, m)),
                      z3.Implies(l > m + 1, L(l) == (x * z3.ToReal(2 * l - 1) * L(l - 1) - z3.ToReal(l + m - 1) * L(l - 2)) / z3.ToReal(l - m)))
    return once(ex, "Leg", Leg(l, m, x), f)


def ynorm(ex, l, m):
    return Sqrt((2 * z3.ToReal(l) + 1) / (4 * PI) * (1 / FacP(ex, l, m, 2 * m)))


def ylm(ex, l, m, th, ph):
    mp = z3.ToReal(m) * ph
    A = once(ex, "YRe", YRe(l, m, th, ph), lambda: YRe(l, m, th, ph) == ynorm(ex, l, m) * Leg(l, m, Cos(th)) * Cos(mp))
    B_ = once(ex, "YIm", YIm(l, m, th, ph), lambda: YIm(l, m, th, ph) == ynorm(ex, l, m) * Leg(l, m, Cos(th)) * Sin(mp))
    return A, B_


def qlm(ex, l, m, th, ph):
    """Y_l,-m = (-1)^m conj(Y_lm)"""
    A = once(ex, "QRe", QRe(l, m, th, ph), lambda: QRe(l, m, th, ph) == z3.If(m < 0, SignPow(m) * YRe(l, -m, th, ph), YRe(l, m, th, ph)))
    B_ = once(ex, "QIm", QIm(l, m, th, ph), lambda: QIm(l, m, th, ph) == z3.If(m < 0, -SignPow(m) * YIm(l, -m, th, ph), YIm(l, m, th, ph)))
    return A, B_


def lm(c):
    return [("degree and order", And(0 <= c.p(1), c.p(1) <= c.p(0)))]


def cand_fac(c):
    return [("%s is the product" % p, t == FacP(c.ex, c.p(0), c.p(1), c.i)) for p, t in c.locals(R)]


def cand_pmm(c):
    x = c.p(2)
    out = []
    for p, t in c.locals(R):
        for d in (0, 1):
            k = c.i - d
            out.append(("%s is P_mm (%d)" % (p, d), t == Pmm(c.ex, x, k)))
            out.append(("%s is the odd factor (%d)" % (p, d), t == z3.ToReal(2 * k + 1)))
    return out


def cand_leg(c):
    l, m, x = c.p(0), c.p(1), c.p(2)
    out = []
    for d in (0, 1, 2):
        t0 = leg(c.ex, c.i - d, m, x)
        for p, t in c.locals(R):
            out.append(("%s is P_(l-%d)m" % (p, d), t == t0))
            if d < 2:
                out.append(("%s is P_(l-%d)m after the first step" % (p, d), z3.Implies(c.i > c.lo, t == t0)))
    leg(c.ex, m, m, x), leg(c.ex, m + 1, m, x)
    return out


# ---- q_lm of an atom: weighted mean over the neighbors that pass the condition
AX = [AI, I, AI, AR]             # condition of atoms, condition of the atom, its neighbors, their weights


def qstep(Q):
    def f(cond, ca, nbs, w, th, ph, l, m, k):
        return z3.If(ca == cond[nbs[k]], w[k] * Q(l, m, th[k], ph[k]), z3.RealVal(0))
    return f


SumRe = Rec("SumRe", AX + [AR, AR, I, I], qstep(QRe))
SumIm = Rec("SumIm", AX + [AR, AR, I, I], qstep(QIm))
SumW = Rec("SumW", AX, lambda cond, ca, nbs, w, k: z3.If(ca == cond[nbs[k]], w[k], z3.RealVal(0)))
QAvRe = z3.Function("QAvRe", *(AX + [AR, AR, I, I, I, R]))
QAvIm = z3.Function("QAvIm", *(AX + [AR, AR, I, I, I, R]))
SumQ = Rec("SumQ", AX + [AR, AR, I, I], lambda cond, ca, nbs, w, th, ph, n, l, j:
           QAvRe(cond, ca, nbs, w, th, ph, n, l, j - l) * QAvRe(cond, ca, nbs, w, th, ph, n, l, j - l)
           + QAvIm(cond, ca, nbs, w, th, ph, n, l, j - l) * QAvIm(cond, ca, nbs, w, th, ph, n, l, j - l))


def env(o, a):
    return [o.raw("atoms[].condition"), o("atoms[].condition", a), row(o, "neighbors[]", a), row(o, "neighborweight[]", a)]


def ang(o, a):
    return [row(o, "n_theta[]", a), row(o, "n_phi[]", a)]


def qav(ex, o, a, l, m, ground=False):
    e, t, n = env(o, a), ang(o, a), nnv(o, a)
    A, B_ = QAvRe(*(e + t + [n, l, m])), QAvIm(*(e + t + [n, l, m]))
    if ground:
        W = SumW(ex, *(e + [n]))
        once(ex, "QAvRe", A, lambda: A == SumRe(ex, *(e + t + [l, m, n])) / W)
        once(ex, "QAvIm", B_, lambda: B_ == SumIm(ex, *(e + t + [l, m, n])) / W)
    return A, B_


def qtot(ex, o, a, l, upto, unfold=False):
    return SumQ(ex, *(env(o, a) + ang(o, a) + [nnv(o, a), l, upto]), unfold=unfold)


def qnorm(l, S):
    return Sqrt(4 * PI / z3.ToReal(2 * l + 1) * S)


def qlist(c):
    """requested values of l"""
    ln, q = c.pvec(0)
    t = z3.Int("t")
    return ln, q, [("requested q", FA([t], imp(rng(t, 0, ln), And(q(t) >= 2, q(t) <= 12)), [q(t)]))]


def qvals(c, s, A, T, J=None, names=("realq", "imgq", "q")):
    """stored values of the atoms in A, requests in T"""
    o = c.old
    ln, q, _ = qlist(c)
    a, t, w, j = ints("a t w j")
    hyp = And(A(a), T(t), w == q(t) - 2)
    jr = rng(j, 0, 2 * q(t) + 1)
    out = []
    for k, f in enumerate(names[:2]):
        x = s("atoms[].%s[][]" % f, a, w, j)
        out.append(("%s is the mean spherical harmonic" % f, FA([a, t, w, j], imp(And(hyp, jr), x == qav(c.ex, o, a, q(t), j - q(t))[k]), [(x, q(t))])))
    x = s("atoms[].%s[]" % names[2], a, w)
    out.append(("%s is the rotationally invariant norm" % names[2], FA([a, t, w], imp(hyp, x == qnorm(q(t), qtot(c.ex, o, a, q(t), 2 * q(t) + 1))), [(x, q(t))])))
    return out


def inv_q0(c):
    ln, q, _ = qlist(c)
    return qvals(c, c.s, lambda a: rng(a, 0, c.i), lambda t: rng(t, 0, ln))


def inv_q1(c):
    ln, q, _ = qlist(c)
    ti = c.outer[-1]
    return qvals(c, c.s, lambda a: a == ti, lambda t: rng(t, 0, c.i))


def inv_q2(c):
    """components -q .. mi-1 of one l are stored, everything else as at entry"""
    o, s, e = c.old, c.s, c.entry
    ln, q, _ = qlist(c)
    ti, tq, mi = c.outer[-2], c.outer[-1], c.i
    l = q(tq)
    w, j = ints("w j")
    out = []
    up = mi - c.lo
    for k, f in enumerate(("realq", "imgq")):
        x = s("atoms[].%s[][]" % f, ti, w, j)
        out.append(("%s so far" % f, FA([w, j], imp(And(w == l - 2, rng(j, 0, up)), x == qav(c.ex, o, ti, l, j - l)[k]), [x])))
        out.append(("others of %s kept" % f, FA([w, j], imp(z3.Or(w != l - 2, j >= up, j < 0), x == e("atoms[].%s[][]" % f, ti, w, j)), [x])))
    return out


def cand_q2(c):
    ln, q, _ = qlist(c)
    if len(c.outer) < 2:
        return []
    ti, tq = c.outer[-2], c.outer[-1]
    l = q(tq)
    up = z3.simplify(c.i - c.lo)
    qav(c.ex, c.old, ti, l, c.i, True), qav(c.ex, c.old, ti, l, c.i - 1, True)
    return [("%s sums the squares" % p, t == qtot(c.ex, c.old, ti, l, up, True)) for p, t in c.locals(R)] + [("%s sums the squares (-l)" % p, t == qtot(c.ex, c.old, ti, l, c.i + l, True)) for p, t in c.locals(R)]


def cand_q3(c):
    ln, q, _ = qlist(c)
    if len(c.outer) < 3:
        return []
    ti, tq, mi = c.outer[-3], c.outer[-2], c.outer[-1]
    l, o = q(tq), c.old
    e, t = env(o, ti), ang(o, ti)
    for k in (c.i,):
        qlm(c.ex, l, mi, t[0][k], t[1][k])
    qav(c.ex, o, ti, l, mi, True)
    out = []
    for p, x in c.locals(R):
        out.append(("%s sums the real parts" % p, x == SumRe(c.ex, *(e + t + [l, mi, c.i]))))
        out.append(("%s sums the imaginary parts" % p, x == SumIm(c.ex, *(e + t + [l, mi, c.i]))))
        out.append(("%s sums the weights" % p, x == SumW(c.ex, *(e + [c.i]))))
    return out


def post_q(c):
    ln, q, _ = qlist(c)
    return qvals(c, c.new, lambda a: rng(a, 0, c.old("nop")), lambda t: rng(t, 0, ln))


# ---- averaged q
SumN = Rec("SumN", [AAAR, AI, I, AI, I, I], lambda f, cond, ca, nbs, w, j, k: z3.If(ca == cond[nbs[k]], f[nbs[k]][w][j], z3.RealVal(0)))
CntN = Rec("CntN", [AI, I, AI], lambda cond, ca, nbs, k: z3.If(ca == cond[nbs[k]], z3.IntVal(1), z3.IntVal(0)), rng=I)
AQAv = z3.Function("AQAv", AAAR, AI, I, AI, I, I, I, R)
SumA = Rec("SumA", [AAAR, AAAR, AI, I, AI, I, I], lambda f, g, cond, ca, nbs, n, w, j:
           AQAv(f, cond, ca, nbs, n, w, j) * AQAv(f, cond, ca, nbs, n, w, j) + AQAv(g, cond, ca, nbs, n, w, j) * AQAv(g, cond, ca, nbs, n, w, j))


def aenv(o, a):
    return [o.raw("atoms[].condition"), o("atoms[].condition", a), row(o, "neighbors[]", a)]


def aqav(ex, o, f, a, w, j, ground=False):
    F = o.raw("atoms[].%s[][]" % f)
    e, n = aenv(o, a), nnv(o, a)
    t = AQAv(*([F] + e + [n, w, j]))
    if ground:
        once(ex, "AQAv", t, lambda: t == (o("atoms[].%s[][]" % f, a, w, j) + SumN(ex, *([F] + e + [w, j, n]))) / z3.ToReal(CntN(ex, *(e + [n])) + 1))
    return t


def aqtot(ex, o, a, w, upto, unfold=False):
    return SumA(ex, *([o.raw("atoms[].realq[][]"), o.raw("atoms[].imgq[][]")] + aenv(o, a) + [nnv(o, a), w, upto]), unfold=unfold)


def aqvals(c, s, A, T):
    o = c.old
    ln, q, _ = qlist(c)
    a, t, w, j = ints("a t w j")
    hyp = And(A(a), T(t), w == q(t) - 2)
    out = []
    for f in ("realq", "imgq"):
        x = s("atoms[].a%s[][]" % f, a, w, j)
        out.append(("a%s is the mean over the atom and its neighbors" % f, FA([a, t, w, j], imp(And(hyp, rng(j, 0, 2 * q(t) + 1)), x == aqav(c.ex, o, f, a, w, j)), [(x, q(t))])))
    x = s("atoms[].aq[]", a, w)
    out.append(("aq is the rotationally invariant norm", FA([a, t, w], imp(hyp, x == qnorm(q(t), aqtot(c.ex, o, a, w, 2 * q(t) + 1))), [(x, q(t))])))
    return out


def inv_aq0(c):
    ln, q, _ = qlist(c)
    return aqvals(c, c.s, lambda a: rng(a, 0, c.i), lambda t: rng(t, 0, ln))


def inv_aq1(c):
    return aqvals(c, c.s, lambda a: a == c.outer[-1], lambda t: rng(t, 0, c.i))


def inv_aq2(c):
    o, s, e = c.old, c.s, c.entry
    ln, q, _ = qlist(c)
    ti, tq, mi = c.outer[-2], c.outer[-1], c.i
    l = q(tq)
    w, j = ints("w j")
    out = []
    up = mi - c.lo
    for f in ("realq", "imgq"):
        x = s("atoms[].a%s[][]" % f, ti, w, j)
        out.append(("a%s so far" % f, FA([w, j], imp(And(w == l - 2, rng(j, 0, up)), x == aqav(c.ex, o, f, ti, w, j)), [x])))
        out.append(("others of a%s kept" % f, FA([w, j], imp(z3.Or(w != l - 2, j >= up, j < 0), x == e("atoms[].a%s[][]" % f, ti, w, j)), [x])))
    return out


def cand_aq2(c):
    ln, q, _ = qlist(c)
    if len(c.outer) < 2:
        return []
    ti, tq = c.outer[-2], c.outer[-1]
    w = q(tq) - 2
    for f in ("realq", "imgq"):
        aqav(c.ex, c.old, f, ti, w, c.i, True), aqav(c.ex, c.old, f, ti, w, z3.simplify(c.i - 1), True)
    return [("%s sums the squares" % p, t == aqtot(c.ex, c.old, ti, w, c.i, True)) for p, t in c.locals(R)]


def cand_aq3(c):
    ln, q, _ = qlist(c)
    if len(c.outer) < 3:
        return []
    o = c.old
    ti, tq, mi = c.outer[-3], c.outer[-2], c.outer[-1]
    w = q(tq) - 2
    e = aenv(o, ti)
    out = []
    for f in ("realq", "imgq"):
        aqav(c.ex, o, f, ti, w, mi, True)
        F = o.raw("atoms[].%s[][]" % f)
        S = SumN(c.ex, *([F] + e + [w, mi, c.i]))
        for p, x in c.locals(R):
            out.append(("%s sums %s" % (p, f), x == o("atoms[].%s[][]" % f, ti, w, mi) + S))
            out.append(("%s sums %s of neighbors" % (p, f), x == S))
    C = CntN(c.ex, *(e + [c.i]))
    for p, x in c.locals(I):
        out += [("%s counts the neighbors" % p, x == C), ("%s counts the neighbors and the atom" % p, x == C + 1)]
    for p, x in c.locals(R):
        out += [("%s counts the neighbors" % p, x == z3.ToReal(C)), ("%s counts the neighbors and the atom" % p, x == z3.ToReal(C) + 1)]
    return out


def post_aq(c):
    ln, q, _ = qlist(c)
    return aqvals(c, c.new, lambda a: rng(a, 0, c.old("nop")), lambda t: rng(t, 0, ln))


# ---- lists of values
def getter(fn, path, props, pre=lambda c: []):
    """vector of one value per original atom; path(c) -> (field path, further indices)"""
    def el(c, v, ln, arr, upto):
        k = z3.Int("k")
        p, ix = path(c)
        return [("length", ln == upto), ("elements", FA([k], imp(rng(k, 0, upto), arr(k) == v(p, *([k] + ix))), [arr(k)]))]

    def cands(c):
        out = []
        for p, ln, arr in c.lvecs(R):
            out += [("%s: %s" % (p, x[0]), x[1]) for x in el(c, c.old, ln, lambda k: arr[k], c.i)]
        return out
    return Contract(fn, pre=lambda c: wf(c.old) + [("original atoms", And(0 <= c.old("real_nop"), c.old("real_nop") <= c.old("nop")))] + pre(c),
                    post=lambda c: el(c, c.old, c.rlen(), lambda k: c.r(k), c.old("real_nop")), cands={"*": cands}, lift=False, props=props)


def qrange(c):
    return [("requested q", And(c.p(0) >= 2, c.p(0) <= 12))]


# ---- bonds
Dot = Rec("Dot", [AR, AR], lambda x, y, k: x[k] * y[k])
SqS = Rec("SqS", [AR, AR], lambda x, y, k: x[k] * x[k] + y[k] * y[k])
BondOf = z3.Function("BondOf", AR, AR, AR, AR, I, R)      # components of the two atoms


def bondx(ex, r1, i1, r2, i2, n, ground=True):
    """normalised scalar product of the q vectors of two atoms"""
    t = BondOf(r1, i1, r2, i2, n)
    if ground:
        once(ex, "BondOf", t, lambda: t == (Dot(ex, r1, r2, n) + Dot(ex, i1, i2, n)) / (Sqrt(SqS(ex, r2, i2, n)) * Sqrt(SqS(ex, r1, i1, n))))
    return t


def comp(o, a):
    w = o("solidq") - 2
    return [o("atoms[].realq[][]", a, w), o("atoms[].imgq[][]", a, w)]


def bond(ex, o, a, b, ground=False):
    return bondx(ex, *(comp(o, a) + comp(o, b) + [2 * o("solidq") + 1]), ground=ground)


def bond_cands(c, A, B_):
    """accumulators over the components of two atoms"""
    r1, i1, r2, i2 = A + B_
    out = []
    k = c.i
    for p, t in c.locals(R):
        for nm, x in (("real product", Dot(c.ex, r1, r2, k)), ("imaginary product", Dot(c.ex, i1, i2, k)), ("product", Dot(c.ex, r1, r2, k) + Dot(c.ex, i1, i2, k)),
                      ("first square", SqS(c.ex, r1, i1, k)), ("second square", SqS(c.ex, r2, i2, k))):
            out.append(("%s is the %s" % (p, nm), t == x))
    return out


def solidq(c):
    return [("component of the solid criterion", And(c.old("solidq") >= 2, c.old("solidq") <= 12))]


def atomrow(c, k):
    lv = c.args[k]
    w = c.old("solidq") - 2
    return [sel(c.ex.get(c.stold, lv.path + (f, "[]", "[]")), *(list(lv.idx) + [w])) for f in ("realq", "imgq")]


def bond_args(c):
    if isinstance(c.args[0], LV):
        return atomrow(c, 0), atomrow(c, 1)
    return comp(c.old, c.p(0)), comp(c.old, c.p(1))


def post_bond(c):
    A, B_ = bond_args(c)
    return [("normalised scalar product of the two atoms", c.res == bondx(c.ex, *(A + B_ + [2 * c.old("solidq") + 1]), ground=c.ground_bond if hasattr(c, "ground_bond") else True))]


# ---- solids
CntF = Rec("CntF", [AAAR, AAAR, I, I, AR, AR, AI, I, R], lambda re, im, w, n, r1, i1, nbs, cc, thr, k:
           z3.If(z3.If(cc == 0, BondOf(r1, i1, re[nbs[k]][w], im[nbs[k]][w], n) > thr, BondOf(r1, i1, re[nbs[k]][w], im[nbs[k]][w], n) < thr), z3.IntVal(1), z3.IntVal(0)), rng=I)
SumB = Rec("SumB", [AAAR, AAAR, I, I, AR, AR, AI], lambda re, im, w, n, r1, i1, nbs, k: BondOf(r1, i1, re[nbs[k]][w], im[nbs[k]][w], n))


def benv(o, a):
    return [o.raw("atoms[].realq[][]"), o.raw("atoms[].imgq[][]"), o("solidq") - 2, 2 * o("solidq") + 1] + comp(o, a) + [row(o, "neighbors[]", a)]


def frenkel(ex, o, a, n, unfold=False):
    return CntF(ex, *(benv(o, a) + [o("comparecriteria"), o("threshold"), n]), unfold=unfold)


def bondsum(ex, o, a, n, unfold=False):
    return SumB(ex, *(benv(o, a) + [n]), unfold=unfold)


def frenkels(c, s, A):
    o = c.old
    a, k = ints("a k")
    fn, av, sj = s("atoms[].frenkelnumber", a), s("atoms[].avq6q6", a), s("atoms[].sij[]", a, k)
    return [("number of solid bonds", FA([a], imp(A(a), fn == frenkel(c.ex, o, a, nnv(o, a))), [fn])),
            ("mean bond", FA([a], imp(A(a), av == bondsum(c.ex, o, a, nnv(o, a)) / z3.ToReal(nnv(o, a))), [av])),
            ("stored bonds", FA([a, k], imp(And(A(a), rng(k, 0, nnv(o, a))), sj == bond(c.ex, o, a, nb(o, a, k))), [sj]))]


def inv_fr0(c):
    return frenkels(c, c.s, lambda a: rng(a, 0, c.i))


def inv_fr1(c):
    o, s, ti = c.old, c.s, c.outer[-1]
    k = z3.Int("k")
    sj = s("atoms[].sij[]", ti, k)
    return [("stored bonds so far", FA([k], imp(rng(k, 0, c.i), sj == bond(c.ex, o, ti, nb(o, ti, k))), [sj]))]


def cand_fr1(c):
    if not c.outer:
        return []
    o, s, ti = c.old, c.s, c.outer[-1]
    S, C = bondsum(c.ex, o, ti, c.i, True), frenkel(c.ex, o, ti, c.i, True)
    out = [("mean bond accumulates", s("atoms[].avq6q6", ti) == S), ("number accumulates", s("atoms[].frenkelnumber", ti) == C)]
    out += [("%s sums the bonds" % p, t == S) for p, t in c.locals(R)]
    out += [("%s counts the bonds" % p, t == C) for p, t in c.locals(I)]
    return out


def pre_fr(c):
    return wf(c.old) + nonneg_lists(c.old) + solidq(c)


def issolid(o, a):
    cr, cc = o("criteria"), o("comparecriteria")
    av, fn = o("atoms[].avq6q6", a), z3.ToReal(o("atoms[].frenkelnumber", a))
    lim = o("minfrenkel")
    lim = z3.ToReal(lim) if lim.sort() == I else lim
    frac = fn / z3.ToReal(nnv(o, a))
    return And(z3.If(cr == 0, fn > lim, frac > lim), z3.If(cc == 0, av > o("avgthreshold"), av < o("avgthreshold")))


def solids(c, s, A):
    o = c.old
    a = z3.Int("a")
    t = s("atoms[].issolid", a)
    t = to_bool(t)
    return [("solid as the criteria say", FA([a], imp(And(A(a), z3.Or(o("criteria") == 0, o("criteria") == 1)), t == issolid(o, a)), [s("atoms[].issolid", a)]))]


def inv_solid(c):
    return solids(c, c.s, lambda a: rng(a, 0, c.i))


# ---- disorder
SumDis = Rec("SumDis", [AAAR, AAAR, I, I, AR, AR, AI], lambda re, im, w, n, r1, i1, nbs, k:
             BondOf(r1, i1, r1, i1, n) + BondOf(re[nbs[k]][w], im[nbs[k]][w], re[nbs[k]][w], im[nbs[k]][w], n) - 2 * BondOf(r1, i1, re[nbs[k]][w], im[nbs[k]][w], n))


def dissum(ex, o, a, n, unfold=False):
    return SumDis(ex, *(benv(o, a) + [n]), unfold=unfold)


def sii(c, s, A):
    a = z3.Int("a")
    t = s("atoms[].sii", a)
    return [("self bond", FA([a], imp(A(a), t == bond(c.ex, c.old, a, a)), [t]))]


def disorder(c, s, A):
    o = c.old
    a = z3.Int("a")
    t = s("atoms[].disorder", a)
    return [("disorder is the mean of S_ii + S_jj - 2 S_ij over the neighbors", FA([a], imp(A(a), t == dissum(c.ex, o, a, nnv(o, a)) / z3.ToReal(nnv(o, a))), [t]))]


def cand_dis00(c):
    if not c.outer:
        return []
    o, ti = c.old, c.outer[-1]
    bond(c.ex, o, ti, ti, True)
    return bond_cands(c, comp(o, ti), comp(o, ti))


def cand_dis10(c):
    if not c.outer:
        return []
    o, ti = c.old, c.outer[-1]
    bond(c.ex, o, ti, nb(o, ti, c.i), True)
    return [("%s sums the disorder" % p, t == dissum(c.ex, o, ti, c.i, True)) for p, t in c.locals(R)]


def cand_dis100(c):
    if len(c.outer) < 2:
        return []
    o, ti, j = c.old, c.outer[-2], c.outer[-1]
    tj = nb(o, ti, j)
    bond(c.ex, o, ti, tj, True)
    return bond_cands(c, comp(o, ti), comp(o, tj))


def lemma_bond():
    """|S_ij| <= 1 (Cauchy-Schwarz, one induction step), S_ii = 1, symmetry (one step)"""
    D, S1, S2, p1, p2, q1, q2, X, u, v = z3.Reals("D S1 S2 p1 p2 q1 q2 X u v")
    pq, pp, qq = p1 * q1 + p2 * q2, p1 * p1 + p2 * p2, q1 * q1 + q2 * q2
    P, PP, QQ = z3.Reals("P PP QQ")
    out = [("scalar products: (p.q)^2 <= p.p q.q", [], pq * pq <= pp * qq),
           ("squares are not negative", [], And(pp >= 0, qq >= 0)),
           ("product of bounds", [D * D <= S1 * S2, P * P <= PP * QQ, S1 >= 0, S2 >= 0, PP >= 0, QQ >= 0], (D * D) * (P * P) <= (S1 * S2) * (PP * QQ)),
           ("mean bound", [X * X <= u * v, u >= 0, v >= 0], 2 * X <= u + v),
           ("Cauchy-Schwarz step", [D * D <= S1 * S2, P * P <= PP * QQ, 2 * (D * P) <= S1 * QQ + S2 * PP],
            (D + P) * (D + P) <= (S1 + PP) * (S2 + QQ))]
    s = z3.Real("s")
    out.append(("self bond is one", [s * s == S1, S1 > 0], S1 / (s * s) == 1))
    b, s1, s2 = z3.Reals("b s1 s2")
    out.append(("bond at most one", [D * D <= S1 * S2, s1 * s1 == S1, s2 * s2 == S2, s1 > 0, s2 > 0, b * (s1 * s2) == D], b * b <= 1))
    # symmetry of the accumulated product, one step
    x, y, a1, a2 = z3.Reals("x y a1 a2")
    out.append(("scalar product symmetric, step", [a1 == a2], a1 + x * y == a2 + y * x))
    return out


QM = ["atoms[].realq", "atoms[].imgq", "atoms[].q"]
AQM = ["atoms[].arealq", "atoms[].aimgq", "atoms[].aq"]

BI = [(k, v) for k, v in ()]

CONTRACTS = [
    Contract("System::dfactorial", pre=lm, post=lambda c: [("(l-m)!/(l+m)!", c.res == 1 / FacP(c.ex, c.p(0), c.p(1), 2 * c.p(1)))], cands={"*": cand_fac}, lift=False, props=["C06"]),
    Contract("System::PLM", pre=lm, post=lambda c: [("associated Legendre function", c.res == leg(c.ex, c.p(0), c.p(1), c.p(2)))], cands={"0": cand_pmm, "1": cand_leg}, unroll={"*": 0}, lift=False, props=["C06"]),
    Contract("System::YLM", pre=lm, post=lambda c: [("real part", c.out(4) == ylm(c.ex, *c.args[:4])[0]), ("imaginary part", c.out(5) == ylm(c.ex, *c.args[:4])[1])], lift=False, props=["C06"]),
    Contract("System::QLM", pre=lambda c: [("degree and order", And(-c.p(0) <= c.p(1), c.p(1) <= c.p(0), 0 <= c.p(0)))],
             post=lambda c: [("real part", c.out(4) == qlm(c.ex, *c.args[:4])[0]), ("imaginary part", c.out(5) == qlm(c.ex, *c.args[:4])[1])], lift=False, props=["C06"]),
    Contract("System::calculate_q", pre=lambda c: wf(c.old) + nonneg_lists(c.old) + qlist(c)[2], post=post_q, modifies=QM,
             loops={"0": inv_q0, "0.0": inv_q1, "0.0.0": inv_q2}, cands={"0.0.0": cand_q2, "0.0.0.0": cand_q3}, unroll={"*": 0}, lift=False, heavy=3, props=["C06"]),
    Contract("System::calculate_aq", pre=lambda c: wf(c.old) + nonneg_lists(c.old) + qlist(c)[2], post=post_aq, modifies=AQM,
             loops={"0": inv_aq0, "0.0": inv_aq1, "0.0.0": inv_aq2}, cands={"0.0.0": cand_aq2, "0.0.0.0": cand_aq3}, unroll={"*": 0}, lift=False, heavy=3, props=["C07"]),
    getter("System::gqvals", lambda c: ("atoms[].q[]", [c.p(0) - 2]), ["C06"], qrange),
    getter("System::gaqvals", lambda c: ("atoms[].aq[]", [c.p(0) - 2]), ["C07"], qrange),
    getter("System::get_centrosymmetry", lambda c: ("atoms[].centrosymmetry", []), ["C14"]),
    Contract("System::get_number_from_bond", sig="System::get_number_from_bond(int,int)", pre=lambda c: wf(c.old) + solidq(c) + pre_idx(0)(c) + pre_idx(1)(c), post=post_bond,
             cands={"*": lambda c: bond_cands(c, *bond_args(c))}, lift=False, props=["C08"]),
    Contract("System::get_number_from_bond", sig="System::get_number_from_bond(Atom,Atom)", pre=solidq, post=post_bond,
             cands={"*": lambda c: bond_cands(c, *bond_args(c))}, lift=False, props=["C08"]),
    Contract("System::calculate_frenkel_numbers", pre=pre_fr, post=lambda c: frenkels(c, c.new, lambda a: rng(a, 0, c.old("nop"))), modifies=["atoms[].frenkelnumber", "atoms[].avq6q6", "atoms[].sij"],
             loops={"0": inv_fr0, "0.0": inv_fr1}, cands={"0.0": cand_fr1}, lift=False, props=["C08"]),
    Contract("System::find_solid_atoms", pre=lambda c: wf(c.old), post=lambda c: solids(c, c.new, lambda a: rng(a, 0, c.old("nop"))), modifies=["atoms[].issolid"],
             loops={"0": inv_solid, "1": inv_solid}, lift=False, props=["C08"]),
    Contract("System::calculate_disorder", pre=pre_fr, post=lambda c: sii(c, c.new, lambda a: rng(a, 0, c.old("nop"))) + disorder(c, c.new, lambda a: rng(a, 0, c.old("nop"))),
             modifies=["atoms[].sii", "atoms[].disorder"],
             loops={"0": lambda c: sii(c, c.s, lambda a: rng(a, 0, c.i)), "1": lambda c: disorder(c, c.s, lambda a: rng(a, 0, c.i))},
             cands={"0.0": cand_dis00, "1.0": cand_dis10, "1.0.0": cand_dis100}, lift=False, props=["C16"]),
]

LEMMAS = [("bonds", ["C08", "C16"], lemma_bond)]
