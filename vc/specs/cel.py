"""Cell lists (C03): cell indices, adjacency, set_up_cells, the searches over cells."""
from speclib import *
from specs.geo import *
from specs.nbr import *
from specs import nbr, nbt
import sym

CIdx = z3.Function("CIdx", I, I, I, I, I, I)          # ny, nz, a, b, c
CA, CB, CC = [z3.Function("C%s_of" % k, I, I, I, I) for k in "abc"]   # ny, nz, index
NTot = z3.Function("NTot", I, I, I, I)
Cel = z3.Function("Cel", R, R, I, I)                 # coordinate, box length, number of cells


def cidx(ny, nz, a, b, c):
    return a * ny * nz + b * nz + c


def inr(n, x):
    return And(x >= 0, x < n)


def idx_axioms():
    nx, ny, nz, a, b, c = ints("nx_ ny_ nz_ a_ b_ c_")
    t = CIdx(ny, nz, a, b, c)
    box = And(inr(ny, b), inr(nz, c), a >= 0)
    return [FA([ny, nz, a, b, c], imp(box, And(CA(ny, nz, t) == a, CB(ny, nz, t) == b, CC(ny, nz, t) == c, t >= 0)), [t]),
            FA([nx, ny, nz, a, b, c], imp(And(box, a < nx), t < NTot(nx, ny, nz)), [(t, NTot(nx, ny, nz))])]


def lemma_index():
    nx, ny, nz, a, b, c, a2, b2, c2, p, q, w = ints("nx ny nz a b c a2 b2 c2 p q w")
    box = [inr(ny, b), inr(nz, c), a >= 0]
    box2 = [inr(ny, b2), inr(nz, c2), a2 >= 0]
    same = cidx(ny, nz, a, b, c) == cidx(ny, nz, a2, b2, c2)
    # p = a ny + b, q = a2 ny + b2: quotients by nz
    out = [("a smaller quotient gives a smaller value", [w >= 1, p + 1 <= q], (q - p) * w >= w),
           ("equal values have equal quotients", [inr(w, c), inr(w, c2), p * w + c == q * w + c2,
                                                 imp(p + 1 <= q, (q - p) * w >= w), imp(q + 1 <= p, (p - q) * w >= w)], And(p == q, c == c2)),
           ("index by quotients", [], cidx(ny, nz, a, b, c) == (a * ny + b) * nz + c),
           ("at least zero", [a >= 0, b >= 0, c >= 0, ny >= 1, nz >= 1], And(a * ny >= 0)),
           ("not negative", [p >= 0, c >= 0, w >= 1], p * w + c >= 0),
           ("row below the number of rows", [a + 1 <= nx, inr(ny, b), imp(a + 2 <= nx, (nx - a - 1) * ny >= 0)], a * ny + b + 1 <= nx * ny),
           ("value below the number of cells", [p + 1 <= q, inr(w, c), (q - p - 1) * w >= 0], p * w + c < q * w),
           ("number of cells", [], nx * ny * nz == (nx * ny) * nz)]
    P, Q = a * ny + b, a2 * ny + b2
    steps = [imp(And(*h) if h else z3.BoolVal(True), g) for _, h, g in out]

    def at(k, *subs):
        return z3.substitute(steps[k], *subs)
    both = [(a, a2), (b, b2), (c, c2), (a2, a), (b2, b), (c2, c)]
    rows = [at(0, (p, P), (q, Q), (w, nz)), at(0, (p, Q), (q, P), (w, nz)), at(1, (p, P), (q, Q), (w, nz)), at(2), at(2, *both)]
    cols = [at(0, (p, a), (q, a2), (w, ny)), at(0, (p, a2), (q, a), (w, ny)), at(1, (p, a), (q, a2), (w, ny), (c, b), (c2, b2))]
    out.append(("equal indices have equal rows", box + box2 + [same] + rows, And(P == Q, c == c2)))
    out.append(("equal rows have equal coordinates", box + box2 + [P == Q] + cols, And(a == a2, b == b2)))
    out.append(("index not negative", box + [at(3), at(4, (p, P), (w, nz)), at(2), at(3, (c, b), (nz, ny))], cidx(ny, nz, a, b, c) >= 0))
    out.append(("index below the number of cells", box + [a < nx, P + 1 <= nx * ny, (nx * ny - P - 1) * nz >= 0, at(2), at(6, (p, P), (q, nx * ny), (w, nz)), at(7)],
                cidx(ny, nz, a, b, c) < nx * ny * nz))
    out.append(("products of non-negative numbers", [p >= 0, q >= 0], p * q >= 0))
    return out


def wrap01(x, L):
    return z3.If(x < 0, x + L, z3.If(x >= L, x - L, x))


def mx0(t, n):
    """clamped into 0..n-1, written like min(max(t, 0), n-1)"""
    m = z3.If(t < 0, z3.IntVal(0), t)
    return z3.If(n - 1 < m, n - 1, m)


def celdef(x, L, n):
    return mx0(sym.to_int(wrap01(x, L) / (L / z3.ToReal(n))), n)


def adj1(a, b, n):
    return z3.Or(a == b, b == a + 1, b == a - 1, b == a + 1 - n, b == a - 1 + n)


def ncel(L, nd):
    return sym.to_int(L / nd)


def cel_axioms():
    x, y, L, nd = z3.Reals("x_ y_ L_ nd_")
    n = z3.Int("n_")
    t, u = Cel(x, L, n), Cel(y, L, n)
    return [FA([x, L, n], And(t == celdef(x, L, n), imp(n >= 1, inr(n, t))), [t])]


def near(x, y, L, n, nd):
    """premise and conclusion of the adjacency lemma, one direction"""
    w = wrapc(y - x, L)
    pre = And(L > 0, nd > 0, n == ncel(L, nd), n >= 1, x >= -L, x < 2 * L, y >= -L, y < 2 * L, w <= nd, w >= -nd)
    return pre


def adj_axiom(L, nd):
    """proved as lemma: coordinates at most nd apart lie in adjacent cells"""
    x, y = z3.Reals("x_ y_")
    n = z3.Int("n_")
    return FA([x, y, n], imp(near(x, y, L, n, nd), adj1(Cel(x, L, n), Cel(y, L, n), n)), [(Cel(x, L, n), Cel(y, L, n))])


def lemma_adjacent():
    x, y, L, nd, l, u, v, d, X, Y, q, inv = z3.Reals("x y L nd l u v d X Y q inv")
    n, k, m, fu, fv = ints("n k m fu fv")
    N = z3.ToReal(n)
    w = wrapc(y - x, L)
    pre = near(x, y, L, n, nd)
    X_, Y_ = wrap01(x, L), wrap01(y, L)
    K = z3.ToReal(k)
    out = [
        # number of cells times cutoff fits
        ("quotient", [nd > 0, L > 0, q == L / nd], And(q * nd == L, q > 0)),
        ("whole quotient", [q > 0, n == sym.to_int(q)], And(N <= q, n >= 0)),
        ("cells at least as wide as the cutoff (times the number)", [N <= q, q * nd == L, nd > 0], N * nd <= L),
        ("width of a cell", [n >= 1, L > 0, l == L / N], And(l * N == L, l > 0)),
        ("cells at least as wide as the cutoff", [N * nd <= L, n >= 1, l * N == L], nd <= l),
        # coordinates inside the box, and their difference
        ("inside the box", [L > 0, x >= -L, x < 2 * L], And(X_ >= 0, X_ < L)),
    ]
    dif = z3.Or(*[Y_ - X_ == w + j * L for j in (-2, -1, 0, 1, 2)])
    out.append(("difference up to whole boxes", [L > 0, x >= -L, x < 2 * L, y >= -L, y < 2 * L], z3.Or(dif, *[Y_ - X_ == w + j * L for j in (-3, 3)])))
    # scaled by the width of a cell
    out.append(("scaled coordinate", [l > 0, X >= 0, X < L, l * N == L, u == X / l], And(u * l == X, u >= 0)))
    out.append(("scaled coordinate below the number of cells", [l > 0, X < l * N, u * l == X], u < N))
    out.append(("scaled step", [l > 0, nd <= l, w <= nd, w >= -nd, d == w / l], And(d <= 1, d >= -1, d * l == w)))
    j = z3.Int("j")
    J = z3.ToReal(j)
    W = z3.Real("W")
    out.append(("scaled difference", [l > 0, Y - X == W + J * L, l * N == L, u * l == X, v * l == Y, d * l == W],
                v - u == d + J * N))
    out.append(("whole parts", [u >= 0, v >= 0, u < N, v < N, d <= 1, d >= -1, n >= 1, v - u == d + J * N, j >= -3, j <= 3,
                               imp(j == 1, J * N == N), imp(j == 0, J * N == 0), imp(j == -1, J * N == -N), imp(j == 2, J * N == 2 * N), imp(j == -2, J * N == -2 * N),
                               imp(j == 3, J * N == 3 * N), imp(j == -3, J * N == -3 * N)],
                adj1(mx0(sym.to_int(u), n), mx0(sym.to_int(v), n), n)))
    # the steps together give the axiom (x, y coordinates; q, l, u, v, d defined as above)
    steps = [imp(And(*h) if h else z3.BoolVal(True), g) for _, h, g in out]
    both = []
    for f in steps:
        both.append(f)
        both.append(z3.substitute(f, (x, y), (y, x), (X, Y), (Y, X), (u, v), (v, u)))
    defs = [q == L / nd, l == L / N, X == X_, Y == Y_, u == X / l, v == Y / l, d == W / l, W == w]
    for jj in range(-3, 4):
        sub = [z3.simplify(z3.substitute(f, (j, z3.IntVal(jj)))) for f in both]
        out.append(("adjacent, %d boxes apart" % jj, [pre] + defs + sub + [Y_ - X_ == w + jj * L],
                    adj1(mx0(sym.to_int(u), n), mx0(sym.to_int(v), n), n)))
    return out


def g_member(ex, st, lv, val):
    if len(lv.idx) == 2 and lv.path[0] == "this":
        ex.rawwrite(st, ("this", "$mcell", "[]"), (val,), lv.idx[0])
        ex.rawwrite(st, ("this", "$mslot", "[]"), (val,), lv.idx[1])


def g_ncell(ex, st, lv, val):
    if len(lv.idx) == 2 and lv.path[0] == "this":
        ex.rawwrite(st, ("this", "$nslot", "[]", "[]"), (lv.idx[0], val), lv.idx[1])


sym.GHOSTS[("cells", "[]", "members", "[]")] = g_member
sym.GHOSTS[("cells", "[]", "neighbor_cells", "[]")] = g_ncell


def mcell(s, a):
    return s("$mcell[]", a)


def mslot(s, a):
    return s("$mslot[]", a)


def nslot(s, m, x):
    return s("$nslot[][]", m, x)


def nlen(s, m):
    return s("cells[].neighbor_cells.#len", m)


def ncl(s, m, q):
    return s("cells[].neighbor_cells[]", m, q)


def mlen(s, m):
    return s("cells[].members.#len", m)


def mem(s, m, k):
    return s("cells[].members[]", m, k)


def members(s, n, total):
    """the atoms 0..n-1 are in their cells, and nothing else"""
    a, m, k = ints("a m k")
    MK = And(inr(total, m), inr(mlen(s, m), k))
    return [("cells of the atoms", FA([a], imp(inr(n, a), And(inr(total, mcell(s, a)), inr(mlen(s, mcell(s, a)), mslot(s, a)))), [mcell(s, a)])),
            ("atoms are in their cells", FA([a], imp(inr(n, a), mem(s, mcell(s, a), mslot(s, a)) == a), [mslot(s, a)])),
            ("members are atoms", FA([m, k], imp(MK, inr(n, mem(s, m, k))), [mem(s, m, k)])),
            ("members know their cell", FA([m, k], imp(MK, And(mcell(s, mem(s, m, k)) == m, mslot(s, mem(s, m, k)) == k)), [mem(s, m, k)])),
            ("member counts", FA([m], imp(inr(total, m), mlen(s, m) >= 0), [mlen(s, m)]))]


def coords(o, s, n):
    a = z3.Int("a")
    nx, ny, nz = s("nx"), s("ny"), s("nz")
    ce = [Cel(o("atoms[]." + p, a), o(b), m) for p, b, m in (("posx", "boxx", nx), ("posy", "boxy", ny), ("posz", "boxz", nz))]
    return ("cell from the coordinates", FA([a], imp(inr(n, a), mcell(s, a) == CIdx(ny, nz, *ce)), [mcell(s, a)]))


def linked(s, m, x):
    return And(inr(nlen(s, m), nslot(s, m, x)), ncl(s, m, nslot(s, m, x)) == x)


def grid(s, done, undone):
    """neighbor cells of the cells of the grid handled so far"""
    a, b, c, d, e, f, q = ints("a b c d e f q")
    nx, ny, nz, tot = s("nx"), s("ny"), s("nz"), s("total_cells")
    t, u = CIdx(ny, nz, a, b, c), CIdx(ny, nz, d, e, f)
    G = And(inr(nx, a), inr(ny, b), inr(nz, c))
    G2 = And(inr(nx, d), inr(ny, e), inr(nz, f))
    h = ncl(s, t, q)
    out = [("number of neighbor cells", FA([a, b, c], imp(And(G, done(a, b, c)), nlen(s, t) == 27), [nlen(s, t)])),
           ("neighbor cells are cells", FA([a, b, c, q], imp(And(G, done(a, b, c), inr(27, q)), inr(tot, h)), [h])),
           ("no neighbor cell twice", FA([a, b, c, q], imp(And(G, done(a, b, c), inr(27, q)), nslot(s, t, h) == q), [h])),
           ("adjacent cells are neighbor cells", FA([a, b, c, d, e, f], imp(And(G, done(a, b, c), G2, adj1(a, d, nx), adj1(b, e, ny), adj1(c, f, nz)),
                                                    And(inr(27, nslot(s, t, u)), ncl(s, t, nslot(s, t, u)) == u)), [nslot(s, t, u)]))]
    out.append(("number of cells", tot == NTot(nx, ny, nz)))
    if undone is not None:
        out.append(("other cells have none yet", FA([a, b, c], imp(And(G, undone(a, b, c)), nlen(s, t) == 0), [nlen(s, t)])))
    return out


def nomembers(s):
    m = z3.Int("m")
    return [("no members yet", FA([m], imp(inr(s("total_cells"), m), mlen(s, m) == 0), [mlen(s, m)]))]


def inv_cx(c):
    i = c.i
    return grid(c.s, lambda a, b, d: a < i, lambda a, b, d: a >= i)


def inv_cy(c):
    i, j = c.outer[-1], c.i
    return grid(c.s, lambda a, b, d: z3.Or(a < i, And(a == i, b < j)), lambda a, b, d: z3.Or(a > i, And(a == i, b >= j)))


def inv_cz(c):
    i, j, k = c.outer[-2], c.outer[-1], c.i
    return grid(c.s, lambda a, b, d: z3.Or(a < i, And(a == i, z3.Or(b < j, And(b == j, d < k)))),
                lambda a, b, d: z3.Or(a > i, And(a == i, z3.Or(b > j, And(b == j, d >= k)))))


def inv_assign(c):
    s = c.s
    return [("number of cells", s("total_cells") == NTot(s("nx"), s("ny"), s("nz")))] + members(c.s, c.i, c.s("total_cells")) + [coords(c.old, c.s, c.i)]


def usable(o):
    nd = o("neighbordistance")
    return [("orthogonal box", o("triclinic") == 0), ("cutoff is positive", nd > 0)] + [
        ("at least three cells along %s" % b[-1], ncel(o(b), nd) > 2) for b in ("boxx", "boxy", "boxz")]


def links(o, s, g):
    """what the searches use: cells of atoms within the cutoff are linked"""
    a, b, q = ints("a b q")
    n, tot = o("nop"), s("total_cells")
    m = mcell(s, a)
    h = ncl(s, m, q)
    return [("neighbor cells are cells", FA([a, q], imp(And(inr(n, a), inr(nlen(s, m), q)), inr(tot, h)), [h])),
            ("no neighbor cell twice", FA([a, q], imp(And(inr(n, a), inr(nlen(s, m), q)), nslot(s, m, h) == q), [h])),
            ("cells of close atoms are linked", FA([a, b], imp(And(inr(n, a), inr(n, b), Dist(g, a, b) <= o("neighbordistance")), linked(s, m, mcell(s, b))),
                                                   [nslot(s, m, mcell(s, b))]))]


def post_setup(c):
    o, s = c.old, c.new
    return [("an array of all cells", s.raw("cells.#len") == s("total_cells"))] + members(s, o("nop"), s("total_cells")) + links(o, s, geo(o))


def dist_axioms(o):
    """distance bounds the components; the components are wrapped differences (orthogonal box)"""
    g = geo(o)
    i, j = ints("i_ j_")
    D = Dist(g, i, j)
    out = []
    for k, (p, b) in enumerate((("posx", "boxx"), ("posy", "boxy"), ("posz", "boxz"))):
        d = DD[k](g, i, j)
        out.append(FA([i, j], And(d <= D, d >= -D), [D]))
        out.append(FA([i, j], imp(o("triclinic") != 1, d == wrapc(o("atoms[]." + p, j) - o("atoms[]." + p, i), o(b))), [d]))
    return out


def lemma_components():
    x, y, z, r = z3.Reals("x y z r")
    return [("component %s at most the distance" % n, [r >= 0, r * r == x * x + y * y + z * z], And(v <= r, v >= -r)) for n, v in (("x", x), ("y", y), ("z", z))]


def def_cidx(c):
    ny, nz = c.old("ny"), c.old("nz")
    a, b, d = c.p(0), c.p(1), c.p(2)
    return [CIdx(ny, nz, a, b, d) == cidx(ny, nz, a, b, d)]


def setup_setup(c):
    o = c.old
    nd = o("neighbordistance")
    nx, ny, nz = ints("nx_ ny_ nz_")
    return idx_axioms() + cel_axioms() + [adj_axiom(o(b), nd) for b in ("boxx", "boxy", "boxz")] + dist_axioms(o) + [
        FA([nx, ny, nz], NTot(nx, ny, nz) == nx * ny * nz, [NTot(nx, ny, nz)])]


def post_periodic(c):
    out = [("three components", c.rlen() == 3)]
    for k, f in enumerate(("nx", "ny", "nz")):
        i, n = c.p(k), c.old(f)
        out.append(("component %d wrapped into the grid" % k, c.r(z3.IntVal(k)) == z3.If(i < 0, i + n, z3.If(i > n - 1, i - n, i))))
    return out


def lex(xs, ys):
    """xs < ys lexicographically"""
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(xs, ys))):
        r = z3.Or(x < y, And(x == y, r))
    return r


def seen(s, pos):
    """pairs of atoms visited before the position (cell, member, neighbor cell, member)"""
    def P(a, b):
        lo, hi = mn(a, b), mx(a, b)
        key = [mcell(s, lo), mslot(s, lo), nslot(s, mcell(s, lo), mcell(s, hi)), mslot(s, hi)]
        return lex(key[:len(pos)], pos)
    return P


def pairpos(c):
    return list(c.outer) + [c.i]


def inv_cells(c):
    g = geo(c.old)
    return [(x[0], x[1]) for x in lists(c.old, c.s, g, seen(c.s, pairpos(c)), lambda a, b: adm(c.old, g, a, b))]


def inv_tcells(c):
    return nbt.temps(c.old, c.s, geo(c.old), seen(c.s, pairpos(c)), c.old("neighbordistance"))


CELLMODS = ["cells", "nx", "ny", "nz", "total_cells", "$mcell", "$mslot", "$nslot"]

CONTRACTS = [
    Contract("System::cell_index", post=lambda c: [("index of a cell", c.res == CIdx(c.old("ny"), c.old("nz"), c.p(0), c.p(1), c.p(2)))], setup=def_cidx, props=["C03"]),
    Contract("System::cell_periodic", post=post_periodic, props=["C03"]),
    Contract("System::cells_usable", post=lambda c: [(x[0], imp(c.res if z3.is_bool(c.res) else c.res != 0, x[1])) for x in usable(c.old)], props=["C03"]),
    Contract("System::set_up_cells", pre=lambda c: wf(c.old) + boxpos(c) + usable(c.old) + nbt.posrange(c.old), post=post_setup, modifies=CELLMODS, setup=setup_setup,
             loops={"0": inv_cx, "0.0": inv_cy, "0.0.0": inv_cz, "1": inv_assign}, heavy=6, lift=False, props=["C03"]),
    Contract("System::get_all_neighbors_cells", pre=lambda c: pre_normal(c) + nbt.posrange(c.old), post=post_normal, modifies=MODS + ["atoms[].cutoff", "voronoiused"] + CELLMODS, throws=may,
             loops={k: inv_cells for k in ("0", "0.0", "0.0.0", "0.0.0.0")}, heavy=6, lift=False, props=["C03", "C02", "C05"]),
    Contract("System::get_temp_neighbors_cells", pre=lambda c: nbt.pre_brute(c) + nbt.posrange(c.old), post=nbt.post_brute, modifies=nbt.TMODS + CELLMODS,
             loops={k: inv_tcells for k in ("0", "0.0", "0.0.0", "0.0.0.0")}, heavy=6, lift=False, props=["C03", "C04"]),
]
LEMMAS = [("cell indices", ["C03"], lemma_index), ("adjacent cells", ["C03"], lemma_adjacent), ("components of a displacement", ["C03"], lemma_components)]
