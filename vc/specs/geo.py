"""Geometry: minimum image distance, box, spherical coordinates (C01, C05)."""
from speclib import *

Geo = z3.DeclareSort("Geo")
A33 = AAR
GX = {k: z3.Function("geo_" + k, Geo, AR) for k in ("posx", "posy", "posz")}
GB = {k: z3.Function("geo_" + k, Geo, R) for k in ("boxx", "boxy", "boxz")}
GR = {k: z3.Function("geo_" + k, Geo, AAR) for k in ("rot", "rotinv")}
GT = z3.Function("geo_triclinic", Geo, I)
mkgeo = z3.Function("mkgeo", AR, AR, AR, R, R, R, I, AAR, AAR, Geo)
DX, DY, DZ, Dist = [z3.Function(n, Geo, I, I, R) for n in ("DX", "DY", "DZ", "Dist")]
Sqrt = UF("Sqrt", R, R)
SphR, SphPhi, SphTheta = [z3.Function(n, R, R, R, R) for n in ("SphR", "SphPhi", "SphTheta")]


def geo(v):
    """the geometry of a state (v: View of a System)"""
    args = [v.raw("atoms[].posx"), v.raw("atoms[].posy"), v.raw("atoms[].posz"), v.raw("boxx"), v.raw("boxy"), v.raw("boxz"),
            v.raw("triclinic"), v.raw("rot[][]"), v.raw("rotinv[][]")]
    g = mkgeo(*args)
    ex = v.ex
    key = ("geo", g.get_id())
    if key not in ex.recs:
        ex.recs.add(key)
        ex.keep.append(g)
        fs = [GX["posx"], GX["posy"], GX["posz"], GB["boxx"], GB["boxy"], GB["boxz"], GT, GR["rot"], GR["rotinv"]]
        for f, a in zip(fs, args):
            ex.axioms.append(f(g) == a)
    return g


def wrapc(v, L):
    """nearest image of one component"""
    return z3.If(v > L / 2, v - L, z3.If(v < -L / 2, v + L, v))


def wrapvec(d, box, tri, rot, rotinv):
    """the displacement the library defines, from the raw difference vector d"""
    orth = [wrapc(d[k], box[k]) for k in range(3)]
    fr = [sum((rotinv[k][j] * d[j] for j in range(1, 3)), rotinv[k][0] * d[0]) for k in range(3)]
    sc = [wrapc(fr[k] * box[k], box[k]) / box[k] for k in range(3)]
    tr = [sum((rot[k][j] * sc[j] for j in range(1, 3)), rot[k][0] * sc[0]) for k in range(3)]
    return [z3.If(tri == 1, tr[k], orth[k]) for k in range(3)]


def norm(d):
    return Sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])


Fr = [z3.Function("Fr%d" % k, Geo, I, I, R) for k in range(3)]
Wr = [z3.Function("Wr%d" % k, Geo, I, I, R) for k in range(3)]
DD = (DX, DY, DZ)


def gparts(g, i, j):
    """definitions: fractional difference, its wrapped multiple of the box length, displacement, distance"""
    d = [GX[k](g)[j] - GX[k](g)[i] for k in ("posx", "posy", "posz")]
    box = [GB[k](g) for k in ("boxx", "boxy", "boxz")]
    rot = [[GR["rot"](g)[a][b] for b in range(3)] for a in range(3)]
    ri = [[GR["rotinv"](g)[a][b] for b in range(3)] for a in range(3)]
    fr = [Fr[k](g, i, j) == ri[k][0] * d[0] + ri[k][1] * d[1] + ri[k][2] * d[2] for k in range(3)]
    wr = [Wr[k](g, i, j) == wrapc(Fr[k](g, i, j) * box[k], box[k]) for k in range(3)]
    s = [Wr[k](g, i, j) / box[k] for k in range(3)]
    dd = [DD[k](g, i, j) == z3.If(GT(g) == 1, rot[k][0] * s[0] + rot[k][1] * s[1] + rot[k][2] * s[2], wrapc(d[k], box[k])) for k in range(3)]
    di = [Dist(g, i, j) == norm([DX(g, i, j), DY(g, i, j), DZ(g, i, j)])]
    return fr, wr, dd, di


def gdef(g, i, j):
    return sum(gparts(g, i, j), [])


def boxpos(c):
    o = c.old
    return [("box lengths are positive", And(o("boxx") > 0, o("boxy") > 0, o("boxz") > 0))]


def symmetry_axioms():
    """proved as lemmas below"""
    g = z3.Const("g_", Geo)
    i, j = ints("i_ j_")
    bp = And(*[GB[k](g) > 0 for k in GB])
    out = []
    for D in (DX, DY, DZ):
        out.append(FA([g, i, j], imp(bp, D(g, j, i) == -D(g, i, j)), [D(g, i, j)]))
    out.append(FA([g, i, j], imp(bp, Dist(g, j, i) == Dist(g, i, j)), [Dist(g, i, j)]))
    return out


def lemma_symmetry():
    g = z3.Const("g_", Geo)
    i, j = ints("i_ j_")
    bp = [GB[k](g) > 0 for k in GB]
    A, B_ = gparts(g, i, j), gparts(g, j, i)
    out = []
    fr = [Fr[k](g, j, i) == -Fr[k](g, i, j) for k in range(3)]
    wr = [Wr[k](g, j, i) == -Wr[k](g, i, j) for k in range(3)]
    dd = [DD[k](g, j, i) == -DD[k](g, i, j) for k in range(3)]

    def sub(fs, eqs):
        """replace equals by equals"""
        return [z3.substitute(f, *[(e.arg(0), e.arg(1)) for e in eqs]) for f in fs]
    for k in range(3):
        out.append(("fractional difference %d antisymmetric" % k, [A[0][k], B_[0][k]], fr[k]))
    for k in range(3):
        out.append(("wrapped difference %d antisymmetric" % k, bp + [A[1][k]] + sub([B_[1][k]], fr), wr[k]))
    for k in range(3):
        out.append(("displacement %d antisymmetric" % k, bp + [A[2][k]] + sub([B_[2][k]], wr), dd[k]))
    out.append(("distance symmetric", A[3] + sub(B_[3], dd), Dist(g, j, i) == Dist(g, i, j)))
    return out


def lemma_minimum():
    """orthogonal boxes: no periodic image is closer (positions inside the box, any image)"""
    v, L, x = z3.Reals("v L x")
    k = z3.Int("k")
    w = wrapc(v, L)
    hyp = [L > 0, v >= -L, v <= L]
    kL = z3.ToReal(k) * L
    far = z3.Or(k == 0, kL >= L, kL <= -L)
    return [("wrapped component at most half the box", hyp, And(w <= L / 2, w >= -L / 2)),
            ("wrapped component is an image", hyp, z3.Or(w == v, w == v - L, w == v + L)),
            ("whole multiples up", [L > 0, x >= 1], x * L >= L),
            ("whole multiples down", [L > 0, x <= -1], x * L <= -L),
            ("no other image is closer", hyp + [far, imp(k == 0, kL == 0)], minimal(v, L, k))]


def minimal(v, L, k):
    w = wrapc(v, L)
    x = z3.Real("img")
    # img = v + k L; w^2 <= img^2 shown through |w| <= |img|
    aw = z3.If(w >= 0, w, -w)
    kk = z3.ToReal(k)
    im = v + kk * L
    ai = z3.If(im >= 0, im, -im)
    return aw <= ai


def lemma_triclinic():
    """triclinic boxes: the displacement is the raw one plus whole cell vectors, and its
    fractional coordinates are at most 1/2"""
    n = [z3.Real("n%d" % k) for k in range(3)]
    d = [z3.Real("d%d" % k) for k in range(3)]
    L = [z3.Real("L%d" % k) for k in range(3)]
    rot = [[z3.Real("r%d%d" % (a, b)) for b in range(3)] for a in range(3)]
    ri = [[z3.Real("i%d%d" % (a, b)) for b in range(3)] for a in range(3)]
    u = [z3.Real("u%d" % k) for k in range(3)]
    out = []
    # one component: fractional value u, wrapped value s = wrapc(u L)/L
    s = wrapc(u[0] * L[0], L[0]) / L[0]
    hyp = [L[0] > 0, u[0] >= -1, u[0] <= 1]
    out.append(("fractional component at most one half", hyp, And(s <= z3.Q(1, 2), s >= -z3.Q(1, 2))))
    out.append(("fractional component shifted by a whole number", hyp, z3.Or(s == u[0], s == u[0] - 1, s == u[0] + 1)))
    # rot (rotinv d + n) = d + rot n, given rot rotinv = 1
    ident = []
    for a in range(3):
        for b in range(3):
            e = sum((rot[a][k] * ri[k][b] for k in range(1, 3)), rot[a][0] * ri[0][b])
            ident.append((a, b, e))
    for a in range(3):
        lhs = sum((rot[a][k] * (sum((ri[k][b] * d[b] for b in range(1, 3)), ri[k][0] * d[0]) + n[k]) for k in range(1, 3)),
                  rot[a][0] * (sum((ri[0][b] * d[b] for b in range(1, 3)), ri[0][0] * d[0]) + n[0]))
        rhs = d[a] + sum((rot[a][k] * n[k] for k in range(1, 3)), rot[a][0] * n[0])
        hyps = [z3.simplify((e - (1 if x == b else 0)) * d[b], som=True) == 0 for x, b, e in ident if x == a]
        out.append(("component %d: displacement differs from the raw one by cell vectors" % a, hyps,
                    z3.simplify(lhs - rhs, som=True) == 0))
    return out


def pre_dist(c):
    o = c.old
    return boxpos(c) + [("indices of atoms", And(rng(c.p(0), 0, o.raw("atoms.#len")), rng(c.p(1), 0, o.raw("atoms.#len"))))]


def post_dist(c):
    g = geo(c.old)
    i, j = c.p(0), c.p(1)
    return [("x component of the minimum image", c.out(2) == DX(g, i, j), ["C01"]),
            ("y component of the minimum image", c.out(3) == DY(g, i, j), ["C01"]),
            ("z component of the minimum image", c.out(4) == DZ(g, i, j), ["C01"]),
            ("minimum image distance", c.res == Dist(g, i, j), ["C01"])]


def setup_dist(c):
    return gdef(geo(c.old), c.p(0), c.p(1))


def atom_diff(c):
    s = c.stold
    a, b = c.p(0), c.p(1)
    return [c.ex.read(s, a.fld(k, "real")) - c.ex.read(s, b.fld(k, "real")) for k in ("posx", "posy", "posz")]


def sysbox(o):
    return ([o("boxx"), o("boxy"), o("boxz")], o("triclinic"),
            [[o("rot[][]", z3.IntVal(a), z3.IntVal(b)) for b in range(3)] for a in range(3)],
            [[o("rotinv[][]", z3.IntVal(a), z3.IntVal(b)) for b in range(3)] for a in range(3)])


def post_dist2(c):
    w = wrapvec(atom_diff(c), *sysbox(c.old))
    return [("distance of two atom objects is the minimum image distance", c.res == norm(w), ["C01"])]


def post_vec(c):
    w = wrapvec(atom_diff(c), *sysbox(c.old))
    return [("three components", c.rlen() == 3, ["C01"])] + [
        ("component %d of the distance vector" % k, c.r(z3.IntVal(k)) == w[k], ["C01"]) for k in range(3)]


def post_remap(c):
    o = c.old
    ln, at = c.pvec(0)
    d = [at(z3.IntVal(k)) for k in range(3)]
    box, tri, rot, ri = sysbox(o)
    w = wrapvec(d, box, tri, rot, ri)
    orth = [z3.If(d[k] < 0, d[k] + box[k], z3.If(d[k] >= box[k], d[k] - box[k], d[k])) for k in range(3)]
    return [("three components", c.rlen() == 3)] + [
        ("component %d remapped" % k, c.r(z3.IntVal(k)) == z3.If(tri == 1, w[k], orth[k])) for k in range(3)]


def pre_vec3(k):
    def f(c):
        ln, at = c.pvec(k)
        return [("three components", ln == 3)]
    return f


def pre_mat(c, k):
    ln, at = c.pvec(k)
    ex = c.ex
    inner = ex.get(c.stold, c.args[k].path + ("[]", "#len"))
    return [("3x3 matrix", And(ln == 3, *[inner[z3.IntVal(j)] == 3 for j in range(3)]))]


def post_sbox(c):
    s = c.new
    ln, at = c.pvec(0)
    out = []
    iv = z3.IntVal
    for i in range(3):
        for j in range(3):
            out.append(("box vector %d component %d stored" % (i, j), s("box[][]", iv(i), iv(j)) == at(iv(i), iv(j))))
        sq = sum((at(iv(i), iv(j)) * at(iv(i), iv(j)) for j in range(1, 3)), at(iv(i), iv(0)) * at(iv(i), iv(0)))
        out.append(("length of box vector %d" % i, s(("boxx", "boxy", "boxz")[i]) == Sqrt(sq)))
    return out


def post_tric(c):
    s = c.new
    l1, a1 = c.pvec(0)
    l2, a2 = c.pvec(1)
    iv = z3.IntVal
    out = [("triclinic flag set", s("triclinic") == 1)]
    for i in range(3):
        for j in range(3):
            out.append(("rot[%d][%d]" % (i, j), s("rot[][]", iv(i), iv(j)) == a1(iv(i), iv(j))))
            out.append(("rotinv[%d][%d]" % (i, j), s("rotinv[][]", iv(i), iv(j)) == a2(iv(i), iv(j))))
    return out


def post_mat(field):
    def f(c):
        iv = z3.IntVal
        out = [("three rows", c.rlen() == 3)]
        inner = c.ex.get(c.stnew, c.res.path + ("[]", "#len"))
        for i in range(3):
            out.append(("row %d length" % i, sel(inner, *(list(c.res.idx) + [iv(i)])) == 3))
            for j in range(3):
                out.append(("entry %d,%d" % (i, j), c.r(iv(i), iv(j)) == c.old(field, iv(i), iv(j))))
        return out
    return f


def sph_def(x, y, z):
    r = Sqrt(x * x + y * y + z * z)
    return [SphR(x, y, z) == r, SphTheta(x, y, z) == UF("Acos", R, R)(z / r), SphPhi(x, y, z) == UF("Atan2", R, R, R)(y, x)]


def post_sph(c):
    x, y, z = c.p(0), c.p(1), c.p(2)
    return [("radius", c.out(3) == SphR(x, y, z), ["C05"]), ("azimuth", c.out(4) == SphPhi(x, y, z), ["C05"]),
            ("polar angle", c.out(5) == SphTheta(x, y, z), ["C05"])]


DIST = "System::get_abs_distance(int,int,real&,real&,real&)"
CONTRACTS = [
    Contract("System::get_abs_distance", sig=DIST, pre=pre_dist, post=post_dist, setup=setup_dist, props=["C01"]),
    Contract("System::get_abs_distance", sig="System::get_abs_distance(Atom,Atom)", pre=boxpos, post=post_dist2, props=["C01"]),
    Contract("System::get_distance_vector", pre=boxpos, post=post_vec, props=["C01"]),
    Contract("System::remap_atom", pre=lambda c: boxpos(c) + pre_vec3(0)(c), post=post_remap, props=["C11", "C01"]),
    Contract("System::sbox", pre=lambda c: pre_mat(c, 0), post=post_sbox, modifies=["box", "boxdims", "boxx", "boxy", "boxz"], props=["C01"]),
    Contract("System::gbox", post=post_mat("box[][]"), props=["C01"]),
    Contract("System::assign_triclinic_params", pre=lambda c: pre_mat(c, 0) + pre_mat(c, 1), post=post_tric,
             modifies=["rot", "rotinv", "triclinic"], props=["C01"]),
    Contract("System::get_triclinic_params", post=post_mat("rot[][]"), props=["C01"]),
    Contract("System::convert_to_spherical_coordinates", post=post_sph, props=["C05"],
             setup=lambda c: sph_def(c.p(0), c.p(1), c.p(2))),
]
LEMMAS = [("symmetry of displacement and distance", ["C01", "C02", "C03", "C04", "C05"], lemma_symmetry),
          ("nearest image", ["C01"], lemma_minimum), ("tilted cells", ["C01"], lemma_triclinic)]


def THEORY(ex):
    return symmetry_axioms() + [hint_axiom()]
