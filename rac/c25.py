"""C25 trajectories"""
from common import *
import os, random
from c24 import scratch, frame, lbox
import pyscal.trajectory as pt


def cases(seed, tier):
    q = tier == "quick"
    r = rng("c25", seed)
    for k in range(45 if q else 700):
        yield {"what": "access", "n": [1, 2, 5, 25][k % 4], "frames": int(r.randint(1, 9)), "tilt": bool(k % 3 == 0), "seed": seed * 1000 + k}
    for k in range(45 if q else 600):
        yield {"what": "modify", "n": [1, 3, 30][k % 3], "frames": int(r.randint(1, 7)), "tilt": False, "seed": seed * 1000 + k, "steps": 14}


def make(c, r, tmp, name):
    n = c["n"]
    frames, data = [], []
    for k in range(c["frames"]):
        box = lbox("lmp" if c["tilt"] else "ortho", [r.uniform(3, 20) for _ in range(3)], r)
        l, rel, ids, types, vals = frame(r, n, box, np.zeros(3), False, 100 * k + int(r.randint(100)), ["vx"], c["tilt"])
        frames.append([x + "\n" for x in l])
        data.append((box, rel, ids, types, vals))
    f = os.path.join(tmp, name)
    with open(f, "w", newline="") as fo:
        for fr in frames:
            fo.write("".join(fr))
        if r.rand() < .3:
            fo.write("ITEM: TIMESTEP\n77\n")
    return f, frames, data


def check_systems(err, tag, systems, want, n):
    if len(systems) != len(want):
        err.append("%s: %d systems instead of %d" % (tag, len(systems), len(want)))
        return
    for s, (box, rel, ids, types, vals) in zip(systems, want):
        if s.natoms != n or [a.id for a in s.atoms] != ids or [a.type for a in s.atoms] != types or np.abs(np.array([a.pos for a in s.atoms]) - rel).max() > 1e-6 or np.abs(np.array(s.box) - box).max() > 1e-6:
            err.append("%s: wrong slice" % tag)
            return


def run(c, ctx):
    err = []
    r = rng("c25", c["seed"], c["what"])
    with scratch() as tmp:
        {"access": access, "modify": modify}[c["what"]](c, ctx, r, tmp, err)
    return err[:4]


def access(c, ctx, r, tmp, err):
    n, m = c["n"], c["frames"]
    f, frames, data = make(c, r, tmp, "a.dump")
    t = pt.Trajectory(f)
    if t.nblocks != m or t.natoms != n:
        err.append("%d blocks of %d atoms instead of %d of %d" % (t.nblocks, t.natoms, m, n))
        return
    for i in range(-m, m):
        if t.get_block(i) != frames[i]:
            err.append("block %d" % i)
    for i in (m, m + 3, -m - 1, -m - 5):
        for fn in (lambda: t[i], lambda: t.get_block(i), lambda: t[i].to_system()):
            try:
                fn()
                err.append("index %d of %d accepted" % (i, m))
            except IndexError:
                pass

    def sl():
        f = lambda: None if r.rand() < .3 else int(r.randint(-m - 2, m + 3))
        st = [None, 1, 2, 3, -1, -2][r.randint(6)]
        return slice(f(), f(), st)

    def pick():
        if r.rand() < .4:
            i = int(r.randint(-m, m))
            return t[i], [i % m], i
        s = sl()
        return t[s], list(range(m))[s], s

    out = os.path.join(tmp, "o.dump")
    for _ in range(8):
        sel, want, ex = pick()
        tag = "%s of %d slices" % (ex, m)
        ctx["count"] += 1
        if r.rand() < .5:
            check_systems(err, tag, sel.to_system(), [data[i] for i in want], n)
        sel.to_file(out)
        if open(out, newline="").read() != "".join("".join(frames[i]) for i in want):
            err.append("%s: written lines differ" % tag)
        d = sel.to_dict()
        if len(d) != len(want) or any(not np.allclose(x["atoms"]["x"], data[i][1][:, 0], atol=1e-8) or not np.array_equal(x["atoms"]["id"], data[i][2]) for x, i in zip(d, want)):
            err.append("%s: to_dict" % tag)
        if any(t.loadlist) or any(x is not None for x in t.data):
            err.append("%s: data left in memory" % tag)
        k = len(set(data[want[0]][3])) if len(want) == 1 else 0
        if k and max(data[want[0]][3]) == k:
            a = sel.to_ase(species=["H", "He", "Li", "Be", "B"][:k])
            if len(a) != 1 or len(a[0]) != n:
                err.append("%s: to_ase" % tag)
    # sums
    c2 = dict(c, frames=int(r.randint(1, 5)))
    f2, frames2, data2 = make(c2, r, tmp, "b.dump")
    t2 = pt.Trajectory(f2)
    for _ in range(4):
        parts, want = [], []
        for _ in range(r.randint(2, 5)):
            if r.rand() < .3:
                i = int(r.randint(-t2.nblocks, t2.nblocks))
                parts.append((t2[i], [(frames2[i], data2[i])]))
            else:
                s, w, _ = pick()
                parts.append((s, [(frames[i], data[i]) for i in w]))
        want = [x for p in parts for x in p[1]]
        objs = [p[0] for p in parts]
        mode = r.randint(3)
        if mode == 0:
            tot = sum(objs)
        elif mode == 1:
            tot = objs[0]
            for o in objs[1:]:
                tot = tot + o
        else:
            tot = objs[-1]
            for o in objs[-2::-1]:
                tot = o + tot
        ctx["count"] += 1
        tot.to_file(out)
        if open(out, newline="").read() != "".join("".join(w[0]) for w in want):
            err.append("sum: written lines differ")
        if r.rand() < .3:
            check_systems(err, "sum", tot.to_system(), [w[1] for w in want], n)
        # operands are as before
        for o, w in parts:
            o.to_file(out)
            if open(out, newline="").read() != "".join("".join(x[0]) for x in w):
                err.append("sum: operand changed")
        # appending
        o, w = parts[0]
        tot.to_file(out)
        o.to_file(out, mode="a")
        if open(out, newline="").read() != "".join("".join(x[0]) for x in want + w):
            err.append("append to a file")
    # iteration
    for method in ("ascending", "descending", "random"):
        for k in (None, 1, m, max(1, m - 1)):
            random.seed(int(r.randint(1000)))
            got = [int(x) for x in t.iter(method=method, n_slices=k)]
            kk = m if k is None else k
            ctx["count"] += 1
            if method == "ascending" and got != list(range(m))[:kk] or method == "descending" and got != list(range(m))[::-1][:kk] \
                    or method == "random" and (len(got) != kk or len(set(got)) != kk or not set(got) <= set(range(m))):
                err.append("iter %s %s gives %s of %d" % (method, k, got, m))
        got = list(t.iter(method=method, output="system"))
        if method != "random":
            check_systems(err, "iter " + method, got, data if method == "ascending" else data[::-1], n)
        elif sorted(tuple(a.id for a in s.atoms) + tuple(np.round(s.box, 5).ravel()) for s in got) != sorted(tuple(d[2]) + tuple(np.round(d[0], 5).ravel()) for d in data):
            err.append("iter random: systems")
    try:
        list(t.iter(method="sideways"))
        err.append("iter: unknown method accepted")
    except ValueError:
        pass


def parse(lines):
    box = [[float(x) for x in l.split()] for l in lines[5:8]]
    head = lines[8].split()[2:]
    rows = [l.split() for l in lines[9:]]
    return np.array(box), head, {h: np.array([float(x[i]) for x in rows]) for i, h in enumerate(head)}


def modify(c, ctx, r, tmp, err):
    n, m = c["n"], c["frames"]
    f, frames, data = make(c, r, tmp, "a.dump")
    raw = open(f, "rb").read()
    t = pt.Trajectory(f)
    loaded = {}
    out = os.path.join(tmp, "o.dump")
    for step in range(c["steps"]):
        op = r.randint(5)
        i = int(r.randint(m))
        ctx["count"] += 1
        if op == 0:
            t.load(i)
            b, h, col = parse(frames[i])
            loaded[i] = {"box": b, "atoms": col}
        elif op == 1 and loaded:
            i = sorted(loaded)[r.randint(len(loaded))]
            keys = list(loaded[i]["atoms"])
            k = ["x", "vx", "y", "type", "box", "z"][r.randint(6)]
            if k == "box":
                t.data[i]["box"][1, 1] = loaded[i]["box"][1, 1] = 33.25
            elif k == "type":
                v = r.randint(1, 9, n).astype(float)
                t.data[i]["atoms"][k] = v.copy()
                loaded[i]["atoms"][k] = v
            else:
                v = np.round(r.normal(size=n), 6)
                if r.randint(2):
                    t.data[i]["atoms"][k] = v.copy()
                else:
                    t.data[i]["atoms"][k][:] = v
                loaded[i]["atoms"][k] = v.copy()
        elif op == 2:
            t.unload(i)
            loaded.pop(i, None)
        elif op == 3:
            d = t[i].to_dict()[0]
            e = loaded.get(i) or dict(zip(("box", "h", "atoms"), parse(frames[i])))
            if not np.allclose(d["box"], e["box"]) or any(not np.allclose(d["atoms"][k], e["atoms"][k]) for k in e["atoms"]):
                err.append("step %d: to_dict of slice %d" % (step, i))
        a, b = sorted(r.randint(0, m + 1, 2))
        sel = t[int(a):int(b)]
        want = list(range(m))[a:b]
        sel.to_file(out)
        lines = open(out, newline="").read().splitlines(True)
        if len(lines) != (n + 9) * len(want):
            err.append("step %d: %d lines written for %d slices" % (step, len(lines), len(want)))
            return
        for k, j in enumerate(want):
            bl = lines[k * (n + 9):(k + 1) * (n + 9)]
            if j not in loaded:
                if bl != frames[j]:
                    err.append("step %d: unmodified slice %d is not written as in the file" % (step, j))
                    return
            else:
                bb, h, col = parse(bl)
                e = loaded[j]
                if int(bl[3]) != n or not np.allclose(bb, e["box"]) or set(col) != set(e["atoms"]) or any(not np.allclose(col[q], e["atoms"][q], rtol=1e-12, atol=0) for q in col):
                    err.append("step %d: loaded slice %d is written wrong" % (step, j))
                    return
        if [bool(x) for x in t.loadlist] != [j in loaded for j in range(m)]:
            err.append("step %d: loadlist %s, loaded %s" % (step, t.loadlist, sorted(loaded)))
        if err:
            return
        # a file with modified slices can be read again
        if want and r.rand() < .3:
            u = pt.Trajectory(out)
            s = u[0].to_system()[0]
            j = want[0]
            e = loaded[j]["atoms"] if j in loaded else parse(frames[j])[2]
            P = np.array([x.pos for x in s.atoms])
            if s.natoms != n or not np.allclose(P, np.array([e["x"], e["y"], e["z"]]).T):
                err.append("step %d: written slice %d read back wrong" % (step, j))
    if open(f, "rb").read() != raw:
        err.append("file modified")
