"""C24 LAMMPS dump files"""
from common import *
import gzip, os, shutil, tempfile, contextlib
import pyscal.traj_process as ptp
import pyscal.formats.lammps as pl


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=os.getcwd(), prefix="dump_")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def cases(seed, tier):
    q = tier == "quick"
    r = rng("c24", seed)
    for k in range(60 if q else 600):
        yield {"what": "roundtrip", "kind": "gas", "n": [1, 2, 7, 60, 201, 230][k % 6], "box": ["ortho", "lmp", "lmp1", "lmpneg"][k % 4], "seed": seed * 1000 + k, "types": 4,
               "L": [[3.0, 7.5, 20.0], [12.0, 11.0, 13.0]][k % 2], "gz": k % 3}
    for k in range(80 if q else 800):
        yield {"what": "layout", "n": int(r.randint(1, 30)), "box": ["ortho", "lmp", "lmp1", "lmpneg"][k % 4], "scaled": bool(k % 2), "origin": bool(k % 3), "gz": k % 5 == 0, "seed": seed * 1000 + k}
    for k in range(25 if q else 200):
        yield {"what": "split", "n": int(r.randint(1, 40)), "frames": int(r.randint(1, 8)), "gz": k % 3 == 0, "tilt": bool(k % 2), "seed": seed * 1000 + k}


def lbox(kind, L, r):
    b = np.diag(np.array(L, float))
    if kind == "ortho":
        return b
    t = np.array([r.uniform(-.45, .45) * L[0], r.uniform(-.45, .45) * L[0], r.uniform(-.45, .45) * L[1]])
    if kind == "lmpneg":
        t = -np.abs(t)
    if kind == "lmp1":
        m = np.zeros(3)
        m[r.randint(3)] = 1
        t = t * m
    b[1, 0], b[2, 0], b[2, 1] = np.round(t, 6)
    return b


def run(c, ctx):
    err = []
    r = rng("c24", c["seed"], c["what"])
    with scratch() as tmp:
        {"roundtrip": roundtrip, "layout": layout, "split": split}[c["what"]](c, ctx, r, tmp, err)
    return err[:4]


def close_box(a, b, tol=3e-6):
    return np.abs(np.array(a) - np.array(b)).max() <= tol


def roundtrip(c, ctx, r, tmp, err):
    n = c["n"]
    box = lbox(c["box"], c["L"], r)
    pos = r.uniform(0, 1, (n, 3)).dot(box)
    types = r.randint(1, 5, n)
    ids = [int(x) for x in r.permutation(10 * n)[:n] + 1]
    s = pc.System()
    s.box = box.tolist()
    atoms = make_atoms(pos, types, ids)
    for i, a in enumerate(atoms):
        a.custom = {"mass": float(np.round(r.normal(), 4)), "tag": "t%d" % i}
        a.solid = bool(r.randint(2))
        a.allq = [float(x) for x in np.round(r.uniform(size=11), 5)]
    s.atoms = atoms
    f = os.path.join(tmp, ["a.dump", "a.dump.gz", "a.data"][c["gz"]])
    kw = dict(compressed=bool(c["gz"]))
    keys = ["mass", "solid", "q6", "volume", "tag"]
    keys = [keys[i] for i in r.permutation(5)[:r.randint(0, 6)]]
    ext = bool(r.randint(2)) and len(keys) > 0
    vals = None
    if ext:
        vals = [[float(np.round(v, 3)) for v in r.normal(size=len(keys))] for _ in range(n)]
    ts = int(r.randint(0, 10 ** 6))
    s.to_file(f, customkeys=keys or None, customvals=vals, timestep=ts, **kw)
    raw = open(f, "rb").read()
    if (raw[:2] == b"\x1f\x8b") != bool(c["gz"]):
        err.append("compressed=%s not respected" % bool(c["gz"]))
        return
    lines = (gzip.decompress(raw) if c["gz"] else raw).decode().splitlines()
    if len(lines) != n + 9 or int(lines[1]) != ts or int(lines[3]) != n:
        err.append("file has %d lines, timestep %s, atoms %s" % (len(lines), lines[1], lines[3]))
    t = pc.System()
    t.read_inputfile(f, customkeys=keys or None, compressed=bool(c["gz"] == 2))
    ctx["count"] += n
    if t.natoms != n:
        err.append("%d atoms instead of %d" % (t.natoms, n))
        return
    if not close_box(t.box, box):
        err.append("box %s instead of %s" % (np.array(t.box).tolist(), box.tolist()))
    b = t.atoms
    if [x.id for x in b] != ids or [x.type for x in b] != types.tolist():
        err.append("ids, types or order")
    d = np.abs(np.array([x.pos for x in b]) - pos).max()
    if d > 2e-6:
        err.append("positions differ by %r" % d)
    for i, x in enumerate(b):
        want = vals[i] if ext else [dict(atoms[i].custom, solid=atoms[i].solid, q6=atoms[i].get_q(6), volume=0.0)[k] for k in keys]
        for k, w in zip(keys, want):
            g = x.custom[k]
            ok = (g == str(w)) or (isinstance(w, (float, bool)) and g[:1] in "-0123456789" and abs(float(g) - w) < 1e-9)
            if not ok:
                err.append("custom value %s of atom %d is %r instead of %r" % (k, i, g, w))
                return
        if sorted(x.custom) != sorted(keys):
            err.append("custom values %s" % sorted(x.custom))
    # distances are those of the periodic system
    if n > 1 and not err:
        for _ in range(5):
            i, j = r.randint(0, n, 2)
            if abs(s.get_distance(s.get_atom(int(i)), s.get_atom(int(j))) - t.get_distance(t.get_atom(int(i)), t.get_atom(int(j)))) > 5e-5:
                err.append("distances differ")
    # writing again gives the same file
    g = os.path.join(tmp, "b.dump")
    t.to_file(g, customkeys=keys or None, timestep=ts)
    l2 = open(g).read().splitlines()
    if len(l2) != len(lines):
        err.append("second file differs")
    with open(os.path.join(tmp, "obj"), "w") as fo:
        s.to_file(fo, customkeys=keys or None, customvals=vals, timestep=ts)
    if open(os.path.join(tmp, "obj")).read().splitlines() != lines:
        err.append("writing to an open file differs")


def frame(r, n, box, origin, scaled, ts, extra, tri):
    """lines, positions relative to the origin of the cell"""
    frac = r.uniform(0, 1, (n, 3))
    rel = frac.dot(box)
    ab = rel + origin
    names = ["id", "type"] + (["xs", "ys", "zs"] if scaled else ["x", "y", "z"]) + extra
    order = [names[i] for i in r.permutation(len(names))]
    ids = [int(x) for x in r.permutation(3 * n)[:n] + 1]
    types = [int(x) for x in r.randint(1, 6, n)]
    vals = [["%.4f" % v for v in r.normal(size=len(extra))] for _ in range(n)]
    rows = []
    for i in range(n):
        d = dict(id=str(ids[i]), type=str(types[i]))
        for a, nm in enumerate("xyz"):
            d[nm] = "%.9f" % ab[i, a]
            d[nm + "s"] = "%.9f" % frac[i, a]
        d.update(zip(extra, vals[i]))
        rows.append(" ".join(d[k] for k in order))
    lo, hi = origin.copy(), origin + np.diag(box)
    xy, xz, yz = box[1, 0], box[2, 0], box[2, 1]
    if tri:
        lo[0] += min(0, xy, xz, xy + xz)
        hi[0] += max(0, xy, xz, xy + xz)
        lo[1] += min(0, yz)
        hi[1] += max(0, yz)
    head = ["ITEM: TIMESTEP", str(ts), "ITEM: NUMBER OF ATOMS", str(n), "ITEM: BOX BOUNDS %spp pp pp" % ("xy xz yz " if tri else "")]
    t = [xy, xz, yz]
    for a in range(3):
        head.append("%.9f %.9f" % (lo[a], hi[a]) + (" %.9f" % t[a] if tri else ""))
    head.append("ITEM: ATOMS " + " ".join(order))
    return head + rows, rel, ids, types, vals


def layout(c, ctx, r, tmp, err):
    n = c["n"]
    box = lbox(c["box"], [r.uniform(3, 20) for _ in range(3)], r)
    tri = c["box"] != "ortho" or bool(r.randint(2))
    origin = r.uniform(-10, 10, 3) if c["origin"] and (tri or c["scaled"]) else np.zeros(3)
    extra = [["vx", "c_q", "f_1[2]", "mol", "mass"][i] for i in r.permutation(5)[:r.randint(0, 5)]]
    lines, rel, ids, types, vals = frame(r, n, box, origin, c["scaled"], 17, extra, tri)
    f = os.path.join(tmp, "x.dump" + (".gz" if c["gz"] else ""))
    if c["gz"]:
        gzip.open(f, "wt").write("\n".join(lines) + "\n")
    else:
        open(f, "w").write("\n".join(lines) + "\n")
    want = [extra[i] for i in r.permutation(len(extra))[:r.randint(0, len(extra) + 1)]]
    src = [f, [x + "\n" for x in lines]][r.randint(2)] if not c["gz"] else f
    s = pc.System()
    s.read_inputfile(src, customkeys=want or None)
    ctx["count"] += n
    if s.natoms != n:
        err.append("%d atoms instead of %d" % (s.natoms, n))
        return
    at = s.atoms
    if not close_box(s.box, box, 1e-7):
        err.append("box %s instead of %s" % (np.array(s.box).tolist(), box.tolist()))
    if [a.id for a in at] != ids or [a.type for a in at] != types:
        err.append("ids, types or order")
    d = np.abs(np.array([a.pos for a in at]) - rel).max()
    if d > 1e-6:
        err.append("positions differ by %r (scaled %s, tilted %s)" % (d, c["scaled"], tri))
    for i, a in enumerate(at):
        if a.custom != {k: vals[i][extra.index(k)] for k in want}:
            err.append("custom values %s instead of %s" % (a.custom, vals[i]))
            break
    atoms, b, t = pl.read_snap(f, check_triclinic=True)
    if len(atoms) != n or bool(t) != tri:
        err.append("read_snap: %d atoms, triclinic %s" % (len(atoms), t))
    if not (isinstance(src, list)) and n > 1:
        # only the first time slice of a longer file is read
        more = frame(r, n, box * 1.5, origin, c["scaled"], 18, extra, tri)[0]
        g = os.path.join(tmp, "y.dump")
        open(g, "w").write("\n".join(lines + more) + "\n")
        atoms, b = pl.read_snap(g)
        if [a.id for a in atoms] != ids or not close_box(b, box, 1e-7):
            err.append("first slice of two: %d atoms" % len(atoms))


def split(c, ctx, r, tmp, err):
    n = c["n"]
    frames = []
    for k in range(c["frames"]):
        box = lbox("lmp" if c["tilt"] else "ortho", [r.uniform(3, 20) for _ in range(3)], r)
        frames.append(frame(r, n, box, np.zeros(3), False, 100 * k, ["vx"], c["tilt"])[0])
    text = "".join(x + "\n" for fr in frames for x in fr)
    f = os.path.join(tmp, "tr.dump" + (".gz" if c["gz"] else ""))
    if c["gz"]:
        gzip.open(f, "wt").write(text)
    else:
        open(f, "w").write(text)
    stray = 0
    if r.rand() < .2 and not c["gz"]:
        open(f, "a").write("ITEM: TIMESTEP\n")
        stray = 1
    before = sorted(os.listdir(tmp))
    out = ptp.split_trajectory(f)
    ctx["count"] += len(frames)
    if len(out) != len(frames):
        err.append("%d files for %d slices" % (len(out), len(frames)))
        return
    if sorted(os.listdir(tmp)) != sorted(before + [os.path.basename(x) for x in out]) or len(set(out)) != len(out):
        err.append("files %s" % sorted(os.listdir(tmp)))
    for x, fr in zip(out, frames):
        if open(x).read() != "".join(l + "\n" for l in fr):
            err.append("%s has not the lines of its slice" % os.path.basename(x))
        s = pc.System()
        s.read_inputfile(x)
        if s.natoms != n:
            err.append("slice with %d atoms" % s.natoms)
