"""C22 independence of what was calculated before"""
from common import *
import warnings
from c02 import cut_for

GET = ["pos", "id", "type", "neighbors", "neighbor_distance", "neighbor_vector", "neighbor_weights", "coordination", "local_angles"]
VORO = ["volume", "avg_volume", "face_vertices", "face_perimeters", "vertex_numbers", "vertex_vectors", "vertex_positions"]


def canon(x):
    """rounded and, with -0 mapped to 0, comparable"""
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x
    if isinstance(x, complex):
        return (canon(x.real), canon(x.imag))
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    return [canon(v) for v in x]


def differ(a, b, tol=1e-9):
    if isinstance(a, float) or isinstance(b, float):
        if a != a and b != b:
            return False
        if a == b:
            return False
        return not abs(a - b) <= tol * max(1, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) != len(b) or any(differ(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) != set(b) or any(differ(a[k], b[k], tol) for k in a)
    return a != b


def props(s, names):
    return {k: canon([getattr(a, k) for a in s.atoms]) for k in names}


class Ops:
    """every calculation: documented preparation, run, results"""

    def __init__(self, cut, box_kind):
        self.cut = cut
        self.kind = box_kind
        c = cut
        self.find = {
            "cutoff": dict(method="cutoff", cutoff=c), "cutoff_s": dict(method="cutoff", cutoff=c * .8), "type": dict(method="cutoff", cutoff=c, filter="type"),
            "type_r": dict(method="cutoff", cutoff=c, filter="type_r"), "adaptive": dict(method="cutoff", cutoff="adaptive"), "zero": dict(method="cutoff", cutoff=0, padding=1.3, nlimit=8),
            "sann": dict(method="cutoff", cutoff="sann", threshold=3), "number": dict(method="number", nmax=13), "number_n": dict(method="number", nmax=12, assign_neighbor=False),
            "voronoi": dict(method="voronoi"), "voronoi2": dict(method="voronoi", voroexp=2)}

    FIND = ["cutoff", "cutoff_s", "type", "type_r", "adaptive", "zero", "sann", "number", "number_n", "voronoi", "voronoi2"]
    # name: (neighbor kinds allowed or None, read attributes)
    CALC = ["q", "q_list", "aq", "only_aq", "q_cond", "q_cond_keep", "solids", "solids_f", "solids_left", "cluster", "cna", "acna", "diamond", "diamond_no", "centro", "entropy", "entropy_l", "entropy_a", "entropy_s",
            "disorder", "disorder_a", "sro", "pmsro", "chi", "angular", "rdf", "vorovector", "avgvol", "atomcut", "store", "invalid", "dnb", "pair", "conc"]
    NEED_VORO = ("vorovector", "avgvol")
    OWN = ("cna", "acna", "diamond", "centro", "dnb")

    def do_find(self, s, f):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.find_neighbors(**self.find[f])
        p = props(s, GET + (VORO if f.startswith("voronoi") else []))
        # the cutoff is only defined for atoms with neighbors
        p["cutoff"] = [float(a.cutoff) if a.coordination else 0.0 for a in s.atoms]
        return p

    def do(self, s, name, par):
        n = s.natoms
        ret = None
        names = []
        if name == "q":
            s.calculate_q(par["l"]); ret = s.get_qvals(par["l"]); 
            ret = [ret, [a.get_qlm(par["l"]) for a in s.atoms]]
        elif name == "q_list":
            s.calculate_q([4, par["l"]]); ret = s.get_qvals([4, par["l"]])
        elif name == "aq":
            s.calculate_q(par["l"], averaged=True); ret = [s.get_qvals(par["l"]), s.get_qvals(par["l"], averaged=True)]
        elif name == "only_aq":
            s.calculate_q(par["l"]); s.calculate_q(par["l"], only_averaged=True); ret = s.get_qvals(par["l"], averaged=True)
        elif name == "q_cond":
            s.calculate_q(par["l"], averaged=True, condition=lambda a: a.type == 1); ret = [s.get_qvals(par["l"]), s.get_qvals(par["l"], averaged=True)]
            s.calculate_q(par["l"], clear_condition=True)
        elif name == "q_cond_keep":
            # the condition applies until neighbors are calculated again
            s.calculate_q(par["l"], averaged=True, condition=lambda a: a.type == 1); ret = [s.get_qvals(par["l"]), s.get_qvals(par["l"], averaged=True)]
        elif name == "solids":
            ret = s.find_solids(bonds=par["b"], threshold=.4, avgthreshold=.4, q=par["l"]); names = ["solid", "sij", "avg_sij", "cluster", "largest_cluster"]
        elif name == "solids_f":
            ret = s.find_solids(bonds=.5, threshold=.4, avgthreshold=.4, cluster=False); names = ["solid", "sij", "avg_sij"]
        elif name == "solids_left":
            ret = s.find_solids(bonds=par["b"], threshold=.7, avgthreshold=.7, right=False, q=par["l"], cutoff=self.cut * .9); names = ["solid", "sij", "avg_sij", "cluster", "largest_cluster"]
        elif name == "cluster":
            ret = s.cluster_atoms(lambda a: a.type == 1, largest=True, cutoff=par["c"] * self.cut); names = ["cluster", "largest_cluster"]
        elif name == "cna":
            ret = s.calculate_cna(lattice_constant=par["a"]); names = ["structure"]
        elif name == "acna":
            ret = s.calculate_cna(); names = ["structure"]
        elif name == "diamond":
            ret = s.identify_diamond(); names = ["structure"]
        elif name == "diamond_no":
            s.find_neighbors(method="number", nmax=4, assign_neighbor=False, threshold=3)
            ret = s.identify_diamond(find_neighbors=False); names = ["structure"]
        elif name == "dnb":
            s.find_diamond_neighbors(); names = ["neighbors", "neighbor_distance", "next_neighbors"]
        elif name == "centro":
            ret = s.calculate_centrosymmetry(nmax=par["n"]); names = ["centrosymmetry"]
        elif name == "entropy":
            s.calculate_entropy(self.cut, h=.02); names = ["entropy"]
        elif name == "entropy_l":
            s.calculate_entropy(self.cut, h=.02, local=True); names = ["entropy"]
        elif name == "entropy_a":
            s.calculate_entropy(self.cut, h=.02, sigma=.25, averaged=True); names = ["entropy", "avg_entropy"]
        elif name == "entropy_s":
            s.calculate_entropy(self.cut, h=.02, averaged=True, switching_function=True, ra=self.cut); names = ["entropy", "avg_entropy"]
        elif name == "disorder":
            s.calculate_q(par["l"]); s.calculate_disorder(q=par["l"]); names = ["disorder"]
        elif name == "disorder_a":
            s.calculate_q(par["l"]); s.calculate_disorder(q=par["l"], averaged=True); names = ["disorder", "avg_disorder"]
        elif name == "sro":
            ret = s.calculate_sro(reference_type=par["t"], shells=1, average=False); names = ["sro"]
        elif name == "pmsro":
            ret = s.calculate_pmsro(reference_type=par["t"], compare_type=2, shells=1, average=False); names = ["sro"]
        elif name == "chi":
            s.calculate_chiparams(); names = ["chiparams"]
        elif name == "angular":
            s.calculate_angularcriteria(); names = ["angular"]
        elif name == "rdf":
            ret = [list(map(float, x)) for x in s.calculate_rdf(histobins=20)]
        elif name == "pair":
            ret = sorted(s.get_pairdistances())[:200]
        elif name == "conc":
            ret = {k: int(v) for k, v in s.get_concentration().items()}
        elif name == "vorovector":
            s.calculate_vorovector(); names = ["vorovector"]
        elif name == "avgvol":
            s.find_average_volume(); names = ["volume", "avg_volume"]
        elif name == "atomcut":
            s.set_atom_cutoff(1.1); names = ["cutoff"]
        elif name == "store":
            s.atoms = s.atoms
        elif name == "invalid":
            for fn in (lambda: s.calculate_q(1), lambda: s.find_neighbors(method="number", threshold=.1), lambda: s.find_solids(threshold=2.), lambda: s.calculate_centrosymmetry(nmax=3)):
                try:
                    fn()
                    raise AssertionError("accepted")
                except (ValueError, TypeError, RuntimeError):
                    pass
        ret = canon(ret)
        p = props(s, names)
        if name in ("sro", "pmsro"):
            # only defined for atoms of the reference type
            p["sro"] = [v if a.type == par["t"] else [] for v, a in zip(p["sro"], s.atoms)]
        return [ret, p]


def cases(seed, tier):
    q = tier == "quick"
    for k in range(16 if q else 150):
        d = [{"kind": "gas", "n": 204}, {"kind": "fcc", "reps": [4, 4, 4], "noise": .03}, {"kind": "gas", "n": 22}, {"kind": "bcc", "reps": [5, 5, 5], "noise": .02}, {"kind": "dia", "reps": [3, 3, 3], "noise": .01},
             {"kind": "fcc", "reps": [2, 2, 2], "noise": .02}][k % 6]
        yield dict(d, what="history", seed=seed * 1000 + k, box=["ortho", "ortho", "tri"][k % 3] if d["kind"] == "gas" else ["ortho", "one"][k % 5 == 0], types=2, steps=7 if q else 20)


def params(r):
    return {"l": int(r.randint(2, 13)), "b": [6, .5, 1][r.randint(3)], "c": [0, .8, 1.1][r.randint(3)], "a": float(r.uniform(.8, 1.2)), "n": [4, 12, 8][r.randint(3)], "t": int(r.randint(1, 3))}


def run(c, ctx):
    err = []
    r = rng("c22", c["seed"])
    s, box, pos, types = build(c)
    n = s.natoms
    F = Full(s, box, n)
    cut = cut_for(F, 14) if c["kind"] == "gas" else {"dia": .85, "bcc": 1.2, "fcc": .88}[c["kind"]]
    ops = Ops(cut, c["box"])
    base = [(a.pos, a.id, a.type) for a in s.atoms]
    # results without neighbors
    cnt = {}
    log = []
    finds = list(Ops.FIND)
    if n < 100:
        pass

    def frac(name, f, par):
        """same calculation on a fresh system"""
        t, _, _, _ = build(c)
        if f is not None:
            got = ops.do_find(t, f)
            if name is None:
                return got
        return ops.do(t, name, par)

    def pick(f):
        ok = [x for x in Ops.CALC if f is not None or x in Ops.OWN + ("rdf", "store", "pair", "conc", "invalid", "diamond_no")]
        ok = [x for x in ok if not (x in Ops.NEED_VORO and not f.startswith("voronoi"))] if f else ok
        if f == "number_n":
            ok = [x for x in ok if x in Ops.OWN + ("rdf", "store", "pair", "conc", "invalid", "diamond_no")]
        else:
            bad = []
            if f in ("type", "type_r"):
                bad += ["angular", "vorovector", "entropy_s", "entropy_a", "sro", "pmsro", "disorder_a"]
            ok = [x for x in ok if x not in bad]
        return ok[r.randint(len(ok))]

    f = None
    for step in range(c["steps"]):
        # a few calculations building up history
        for _ in range(r.randint(0, 3)):
            if r.rand() < .45:
                f = finds[r.randint(len(finds))]
                log.append(f)
                ops.do_find(s, f)
            else:
                x = pick(f)
                log.append(x)
                ops.do(s, x, params(r))
                if x in Ops.OWN + ("diamond_no",):
                    f = None
        f = finds[r.randint(len(finds))]
        par = params(r)
        name = pick(f)
        log.append("[%s %s]" % (f, name))
        if r.rand() < .3 and f is not None:
            ops.do_find(s, "cutoff")
            ops.do(s, "q_cond_keep", params(r))
            log.append("cutoff q_cond_keep")
        got = ops.do_find(s, f)
        exp = frac(None, f, par)
        ctx["count"] += 1
        for k in got:
            if differ(got[k], exp[k]):
                i = [i for i in range(n) if differ(got[k][i], exp[k][i])][:1]
                err.append("%s: find_neighbors %s: %s of atom %s: %s instead of %s" % (log, f, k, i, [str(got[k][j])[:300] for j in i], [str(exp[k][j])[:300] for j in i]))
                return err
        exp = frac(name, f, par)
        got = ops.do(s, name, par)
        again = ops.do(s, name, par)
        ctx["count"] += 1
        for tag, g in (("after other calculations", got), ("when repeated", again)):
            if differ(g, exp):
                txt = ""
                if g[0] != exp[0]:
                    txt = "%s instead of %s" % (str(g[0])[:300], str(exp[0])[:300])
                for k in g[1]:
                    for i in range(n):
                        if differ(g[1][k][i], exp[1][k][i]):
                            txt = "%s of atom %d: %s instead of %s" % (k, i, str(g[1][k][i])[:200], str(exp[1][k][i])[:200])
                            break
                err.append("%s: %s %s with %s differs: %s" % (log, name, tag, par, txt))
                return err
        if name in Ops.OWN + ("diamond_no",):
            f = None
        if name == "store":
            f = None
            ops.do_find(s, "cutoff")
            f = "cutoff"
        if [(a.pos, a.id, a.type) for a in s.atoms] != base:
            err.append("%s: positions, ids or types changed" % log)
        if np.abs(np.array(s.box) - box).max() > 1e-12:
            err.append("%s: box changed" % log)
        if err:
            break
    return err
