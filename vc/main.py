"""main.py PROPERTY OUT.json TIER: discharge the obligations of the contracts a property depends on,
generated from the current sources of /repo."""
import importlib, json, os, pickle, select, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import z3
import front, verify
from verify import Solver

MODULES = ["geo", "nbr", "nbt", "cel", "nin", "qpar", "clu", "cna"]
NPROC = int(os.environ.get("PV_VCPROC", "4"))
ASSUMPTIONS = [
    "C++ double arithmetic is treated as exact real arithmetic; NaN, infinities and rounding are outside the proofs (the run-time checks execute the real floating point code)",
    "int and size_t are treated as mathematical integers (no overflow); a conversion of a negative value to unsigned is not modelled",
    "libm functions (sqrt, cbrt, acos, atan2, cos, sin, exp, log, pow) are uninterpreted functions: only equality of their arguments is used",
    "termination of loops and recursion is not proved",
    "vectors do not run out of memory; std::sort yields an ordered permutation for the comparator of the code",
    "reference parameters do not alias members of the object or each other",
    "clang 18's AST of the sources with the stub pybind11 headers of vc/stub is the code that is compiled",
    "the conversion of Python objects by pybind11 is not modelled",
]


def job(prog, contracts, con, theory, budget):
    try:
        others = {k: v for k, v in contracts.items() if v is not con or v.recursive}
        return verify.verify(prog, others, con, theory, budget)
    except Exception:
        return dict(function=con.name, props=con.props, obligations=[], status="undecided", reason=traceback.format_exc()[-800:], time=0, used=[], inlined=[])


def lemma_job(name, fn):
    t = time.time()
    s = Solver()
    out = []
    for nm, hyp, goal in fn():
        class E:
            axioms = []
        st, be, sec, txt = s.prove(E, hyp, goal)
        out.append(dict(name=nm, line=None, kind="lemma", props=None, status=st, backend=be, s=round(sec, 3), output=txt))
    return dict(function="lemma " + name, obligations=out, status="ok", used=[], inlined=[], time=time.time() - t, solver_s=time.time() - t, vacuous=False)


def run_jobs(jobs):
    """jobs: list of (key, thunk); forked, NPROC at a time"""
    todo, live, res = list(jobs), {}, {}
    while todo or live:
        while todo and len(live) < NPROC:
            key, fn = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    data = pickle.dumps(fn())
                except BaseException:
                    data = pickle.dumps(dict(function=key, obligations=[], status="undecided", reason=traceback.format_exc()[-800:], used=[], inlined=[], time=0))
                with os.fdopen(w, "wb") as fh:
                    fh.write(data)
                os._exit(0)
            os.close(w)
            live[r] = (pid, key, [])
        ready, _, _ = select.select(list(live), [], [])
        for r in ready:
            pid, key, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                res[key] = pickle.loads(b"".join(buf))
            except Exception:
                res[key] = dict(function=key, obligations=[], status="undecided", reason="the worker died", used=[], inlined=[], time=0)
    return res


def load():
    """contracts with the definitions (theory) of their module and the modules it builds on"""
    mods = [importlib.import_module("specs." + m) for m in MODULES]
    own = {"specs." + n: m for n, m in zip(MODULES, mods)}
    contracts, lemmas, theories = {}, [], {}

    def closure(m, seen):
        if m.__name__ in seen:
            return []
        seen.add(m.__name__)
        out = []
        for line in open(m.__file__):
            w = line.split()
            if len(w) > 2 and w[0] == "from" and w[1] in own:
                out += closure(own[w[1]], seen)
        t = m.__dict__.get("THEORY")
        if t is not None and t.__module__ == m.__name__ and t not in out:
            out.append(t)
        return out
    for m in mods:
        ts = closure(m, set())
        for c in m.CONTRACTS:
            contracts[c.name] = c
            theories[c.name] = lambda ex, ts=ts: [a for t in ts for a in t(ex)]
        lemmas += m.__dict__.get("LEMMAS", []) if not (m.__name__ != "specs.geo" and m.__dict__.get("LEMMAS") is mods[0].LEMMAS) else []
    return contracts, lemmas, theories


def main():
    prop, out, tier = sys.argv[1:4]
    t0 = time.time()
    contracts, lemmas, theories = load()
    res = dict(obligations=[], functions=[], assumptions=list(ASSUMPTIONS), trusted=[], solver_s=0.0, uncovered=[], vacuity=[])
    mine = [c for c in contracts.values() if prop in c.props and not c.trusted]
    mylem = [(n, f) for n, ps, f in lemmas if prop in ps]
    if not mine and not mylem:
        json.dump(res, open(out, "w"))
        return
    prog = front.Program()
    budget = 330 if tier == "quick" else 900
    done = {}
    want = {c.name: c for c in mine}
    first = True
    while True:
        jobs = []
        if first:
            jobs += [("lemma " + n, lambda n=n, f=f: lemma_job(n, f)) for n, f in mylem]
        jobs += [(k, lambda c=c: job(prog, contracts, c, theories[c.name], budget)) for k, c in sorted(want.items(), key=lambda x: -x[1].heavy) if k not in done]
        first = False
        if not jobs:
            break
        done.update(run_jobs(jobs))
        # the contracts used at calls
        for k in list(done):
            for u in done[k].get("used", []):
                if u in contracts and not contracts[u].trusted:
                    want[u] = contracts[u]
    for k, r in done.items():
        con = contracts.get(k)
        direct = con is None or prop in con.props
        if r["status"] != "ok":
            res["uncovered"].append("%s: %s" % (r["function"], r.get("reason", "")[:300]))
            continue
        n = 0
        for o in r["obligations"]:
            if direct and o["props"] and prop not in o["props"]:
                continue
            n += 1
            res["obligations"].append(dict(name=o["name"], function=r["function"], line=o["line"], kind=o["kind"], status=o["status"], backend=o["backend"], s=o["s"], output=o["output"]))
        res["functions"].append(dict(name=r["function"], obligations=n, inlined=r.get("inlined", []), calls_by_contract=r.get("used", []), seconds=round(r["time"], 2),
                                     inferred_invariants=(r.get("houdini") or [0, 0])[1]))
        res["solver_s"] += r.get("solver_s", 0)
        if r.get("vacuous"):
            res["vacuity"].append(r["function"])
            res["obligations"].append(dict(name="the contract is not vacuous", function=r["function"], line=None, kind="vacuity", status="failed", backend="z3", s=0, output="precondition or every return path is contradictory"))
        for t in r.get("used", []):
            if t in contracts and contracts[t].trusted and t not in res["trusted"]:
                res["trusted"].append(t)
    res["wall"] = time.time() - t0
    res["solver_s"] = round(res["solver_s"], 2)
    json.dump(res, open(out, "w"), indent=1)


if __name__ == "__main__":
    main()
