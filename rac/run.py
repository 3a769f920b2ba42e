"""Run-time contract checks of one property on a scratch build of the real code.

usage: run.py PROPERTY PKGDIR OUT.json [--seed N] [--tier quick|thorough] [--replay FILE]
"""
import importlib, json, os, sys, time, traceback

here = os.path.dirname(os.path.abspath(__file__))


def clean(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, np.ndarray):
        return clean(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    return o


def main():
    prop, pkg, out = sys.argv[1:4]
    opt = dict(zip(sys.argv[4::2], sys.argv[5::2]))
    seed = int(opt.get("--seed", 1))
    tier = opt.get("--tier", "quick")
    budget = float(opt.get("--budget", 60 if tier == "quick" else 500))
    os.chdir(os.path.dirname(os.path.abspath(out)))
    sys.path.insert(0, pkg)
    sys.path.insert(1, here)
    import pyscal.core
    assert os.path.abspath(pyscal.core.__file__).startswith(os.path.abspath(pkg) + os.sep), pyscal.core.__file__
    import pyscal.csystem
    assert os.path.abspath(pyscal.csystem.__file__).startswith(os.path.abspath(pkg) + os.sep)
    mod = importlib.import_module("c%s" % prop[1:].lower())
    if "--replay" in opt:
        case = json.load(open(opt["--replay"]))["case"]
        cases = [case]
    else:
        cases = mod.cases(seed, tier)
    part, parts = [int(x) for x in opt.get("--part", "0/1").split("/")]
    cases = [c for i, c in enumerate(cases) if i % parts == part]
    t0 = time.time()
    res = {"property": prop, "failures": [], "known": {}, "evaluations": 0, "cases": 0, "samples": [], "kinds": {}}
    cur = out + ".cur"
    for case in cases:
        case = clean(case)
        with open(cur, "w") as f:
            json.dump(case, f)
        ctx = {"known": {}, "count": 0}
        try:
            errs = mod.run(case, ctx)
        except MemoryError:
            raise
        except Exception:
            tb = traceback.format_exc()
            errs = ["unexpected error: " + tb.strip().splitlines()[-1] + "\n" + tb]
        res["cases"] += 1
        res["evaluations"] += ctx["count"]
        k = str(case.get("what", case.get("kind", "")))
        res["kinds"][k] = res["kinds"].get(k, 0) + 1
        if len(res["samples"]) < 4 and (not res["samples"] or k not in [str(s.get("what")) for s in res["samples"]]):
            res["samples"].append(case)
        for kk, v in ctx["known"].items():
            res["known"].setdefault(kk, v)
        if errs:
            res["failures"].append({"case": case, "errors": [str(e) for e in errs][:10]})
            if len(res["failures"]) >= 3:
                break
        if time.time() - t0 > budget:
            res["stopped"] = "time budget reached"
            break
    res["wall_s"] = time.time() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(clean(res), f, indent=1)
    os.replace(out + ".tmp", out)


main()
