"""C23 rejection of invalid requests"""
from common import *
import os, tempfile, shutil
from c21 import snap
from c02 import cut_for
from pyscal.crystal_structures import make_crystal
import pyscal.traj_process as ptp
import pyscal.trajectory as pt

NAN, INF = float("nan"), float("inf")


def cases(seed, tier):
    q = tier == "quick"
    for k in range(14 if q else 120):
        yield {"what": "requests", "kind": "gas", "n": [205, 9, 40][k % 3], "box": ["ortho", "tri"][k % 2], "seed": seed * 1000 + k, "types": 2, "prep": ["none", "cutoff", "q", "voronoi", "number", "sann"][k % 6]}


def state(s, clust=True):
    al = s.get_all_atoms()
    step = max(1, len(al) // 12)
    out = [[sorted(snap(a).items()) for a in al[::step]], [(a.pos, a.id, a.type, a.coordination, a.cutoff, a.condition, a.mask, a.solid, a.cluster, a.ghost, a.loc, a.structure) for a in al], np.array(s.box).tolist(), np.array(s._box).tolist(), s.natoms, s.ntotal, s.neighbors_found, bool(s.triclinic)]
    return repr(out)


def run(c, ctx):
    err = []
    r = rng("c23", c["seed"])
    s, box, pos, types = build(c)
    n = s.natoms
    F = Full(s, box, n)
    cut = cut_for(F, 14)
    prep = c["prep"]
    if prep == "voronoi":
        s.find_neighbors(method="voronoi")
    elif prep == "number":
        s.find_neighbors(method="number", nmax=12)
    elif prep == "sann":
        s.find_neighbors(method="cutoff", cutoff="sann", threshold=3)
    elif prep != "none":
        s.find_neighbors(method="cutoff", cutoff=cut)
    found = prep != "none"
    if found:
        s.calculate_q([4, 6], averaged=True)
    st0 = [state(s)]
    E = (ValueError, TypeError, RuntimeError, KeyError, IndexError, FileNotFoundError, AttributeError, OSError)

    def bad(tag, fn, kinds=E):
        if r.rand() > c.get("p", .35):
            return
        ctx["count"] += 1
        try:
            v = fn()
        except kinds:
            pass
        else:
            err.append("%s (%s): accepted, result %s" % (tag, prep, str(v)[:100]))
        now = state(s)
        if now != st0[0]:
            err.append("%s (%s): rejected, but the system was modified" % (tag, prep))
            st0[0] = now

    def good(tag, fn):
        ctx["count"] += 1
        try:
            return fn()
        except E as e:
            err.append("%s (%s): valid request rejected: %r" % (tag, prep, e))
        finally:
            st0[0] = state(s)

    # --- q values
    for l in (-1, 0, 1, 13, 14, 100, -6):
        bad("calculate_q(%d)" % l, lambda: s.calculate_q(l))
        bad("calculate_q([6, %d])" % l, lambda: s.calculate_q([6, l]))
        bad("calculate_q([%d, 4], averaged)" % l, lambda: s.calculate_q([l, 4], averaged=True))
        bad("calculate_q(%d, only_averaged)" % l, lambda: s.calculate_q(l, only_averaged=True))
        bad("get_qvals(%d)" % l, lambda: s.get_qvals(l))
        bad("get_qvals([4,%d])" % l, lambda: s.get_qvals([4, l]))
        bad("get_qvals(%d, averaged)" % l, lambda: s.get_qvals(l, averaged=True))
        bad("get_qvals([%d], averaged)" % l, lambda: s.get_qvals([l], averaged=True))
        bad("find_solids(q=%d)" % l, lambda: s.find_solids(q=l))
        bad("calculate_disorder(q=%d)" % l, lambda: s.calculate_disorder(q=l))
    # --- neighbor search
    for th in (.99, 0, -1, .5, NAN, -INF):
        if th != th:
            continue
        bad("number, threshold=%r" % th, lambda: s.find_neighbors(method="number", threshold=th))
        bad("number_n, threshold=%r" % th, lambda: s.find_neighbors(method="number", threshold=th, assign_neighbor=False, nmax=4))
        for cu in ("sann", "adaptive", 0):
            bad("cutoff=%r, threshold=%r" % (cu, th), lambda: s.find_neighbors(method="cutoff", cutoff=cu, threshold=th))
    # --- solids
    if not found:
        bad("find_solids without neighbors", lambda: s.find_solids())
        bad("calculate_sro without neighbors", lambda: s.calculate_sro())
        bad("calculate_pmsro without neighbors", lambda: s.calculate_pmsro())
    for key in ("threshold", "avgthreshold"):
        for v in (-1e-9, 1.0000001, -1, 2, 1.5, "0.5", None, [0.5], NAN, INF):
            bad("find_solids(%s=%r)" % (key, v), lambda: s.find_solids(**{key: v}))
    for v in (-.1, 1.0000001, 5.0, -1e-12, "6", None, [6], NAN, INF):
        bad("find_solids(bonds=%r)" % (v,), lambda: s.find_solids(bonds=v))
    for v in (6.0, "6", None, [6]):
        bad("find_solids(q=%r)" % (v,), lambda: s.find_solids(q=v))
    # --- sro
    if found:
        for t in (0, 3, -1, 7):
            bad("calculate_sro(reference_type=%d)" % t, lambda: s.calculate_sro(reference_type=t))
            bad("calculate_pmsro(reference_type=%d)" % t, lambda: s.calculate_pmsro(reference_type=t))
            bad("calculate_pmsro(compare_type=%d)" % t, lambda: s.calculate_pmsro(compare_type=t))
    # --- centrosymmetry
    for m in (0, -1, -2, -12, 1, 3, 5, 11, 13):
        bad("centrosymmetry(%d)" % m, lambda: s.calculate_centrosymmetry(nmax=m))
    # --- conditions
    if found:
        for cond in (lambda a: 3, lambda a: "x", "nosuchkey", "pos", lambda a: 1 / 0, 17):
            bad("cluster_atoms condition", lambda: s.cluster_atoms(cond))
            bad("calculate_q condition", lambda: s.calculate_q(6, condition=cond))
    # --- crystals and files
    for name in ("xyz", "FCC", "", "dia", None, 3):
        bad("make_crystal(%r)" % (name,), lambda: make_crystal(name))
    tmp = tempfile.mkdtemp(dir=os.getcwd(), prefix="c23_")
    try:
        f = os.path.join(tmp, "a.dump")
        missing = os.path.join(tmp, "missing.dump")
        s.to_file(f)
        bad("read of a missing file", lambda: s.read_inputfile(missing))
        bad("read of a missing file", lambda: s.read_inputfile(missing + ".gz"))
        bad("read of a missing file", lambda: s.read_inputfile(missing, format="poscar"))
        bad("split of a missing file", lambda: ptp.split_trajectory(missing))
        bad("trajectory of a missing file", lambda: pt.Trajectory(missing))
        for fm in ("nonsense", "lammps", "LAMMPS-dump"):
            bad("read_inputfile(format=%r)" % fm, lambda: s.read_inputfile(f, format=fm))
            bad("split_trajectory(format=%r)" % fm, lambda: ptp.split_trajectory(f, format=fm))
        for fm in ("nonsense", "lammps"):
            bad("to_file(format=%r)" % fm, lambda: s.to_file(os.path.join(tmp, "o"), format=fm, species=["Cu", "Al"]))
        bad("custom key missing in file", lambda: s.read_inputfile(f, customkeys=["nokey"]))
        bad("custom key missing in file", lambda: s.read_inputfile(f, customkeys=["id", "nokey"]))
        bad("custom key missing in atoms", lambda: s.to_file(os.path.join(tmp, "o2"), customkeys=["nokey"]))
        bad("wrong shape of customvals", lambda: s.to_file(os.path.join(tmp, "o3"), customkeys=["a"], customvals=[[1, 2]] * n))
        bad("wrong shape of customvals", lambda: s.to_file(os.path.join(tmp, "o4"), customkeys=["a", "b"], customvals=[[1, 2]] * (n - 1)))
        bad("q out of range as custom key", lambda: s.to_file(os.path.join(tmp, "o5"), customkeys=["q13"]))
    finally:
        shutil.rmtree(tmp)
    # --- atoms without a box
    e = pc.System()
    bad("atoms before the box", lambda: setattr(e, "atoms", make_atoms(pos[:5], types[:5])))

    # --- ends of the documented ranges are valid
    good("threshold 1.0", lambda: s.find_neighbors(method="cutoff", cutoff=cut, threshold=1.0))
    good("threshold .1 is not used for a fixed cutoff", lambda: s.find_neighbors(method="cutoff", cutoff=cut, threshold=.1))
    good("calculate_q(2..12)", lambda: s.calculate_q(list(range(2, 13)), averaged=True))
    for l in (2, 12):
        good("calculate_q(%d)" % l, lambda: s.calculate_q(l, averaged=True))
        v = good("get_qvals(%d)" % l, lambda: s.get_qvals(l))
        if v is not None and len(v) != n:
            err.append("get_qvals gives %d values" % len(v))
        good("get_qvals(%d)" % l, lambda: s.get_qvals([l], averaged=True))
        good("find_solids(q=%d)" % l, lambda: s.find_solids(q=l))
        good("disorder(q=%d)" % l, lambda: s.calculate_disorder(q=l))
    for v in (0, 1, 0.0, 1.0):
        good("find_solids(threshold=%r)" % v, lambda: s.find_solids(threshold=v, cluster=False))
        good("find_solids(avgthreshold=%r)" % v, lambda: s.find_solids(avgthreshold=v, cluster=False))
        good("find_solids(bonds=%r)" % v, lambda: s.find_solids(bonds=v, cluster=False))
    good("find_solids(bonds=20)", lambda: s.find_solids(bonds=20))
    for t in (1, 2):
        if len(set(types)) == 2:
            good("sro(%d)" % t, lambda: s.calculate_sro(reference_type=t, shells=1, average=False))
            good("pmsro(%d)" % t, lambda: s.calculate_pmsro(reference_type=t, compare_type=3 - t, shells=1, average=False))
    for m in (2, 4, 14):
        v = good("centrosymmetry(%d)" % m, lambda: s.calculate_centrosymmetry(nmax=m))
    for k in range(2):
        good("number, threshold 1.9", lambda: s.find_neighbors(method="number", nmax=4, threshold=[1.9, 3][k]))
    return err[:5]
