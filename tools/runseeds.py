#!/usr/bin/env python3
"""Run checks against planted bugs, in private mount namespaces over copies of /repo and /verif.
usage: runseeds.py [--tier quick] [--all-checks] [ID ...]"""
import sys, os, subprocess, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def one(sid, patch=None, props=None):
    patch = patch or "%s/seeded/%s/patch.diff" % (V, sid)
    if props is None:
        props = [json.load(open("%s/seeded/%s/meta.json" % (V, sid)))["property"]]
    w = "/tmp/rs_%s" % sid
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    try:
        sh("cp -a /repo %s/repo; mkdir %s/verif; cd /verif && cp -a $(ls -A | grep -v -e '^.git$' -e '^seeded$') %s/verif/" % (w, w, w))
        r = sh("cd %s/repo && git checkout -q -- . && git apply %s" % (w, patch))
        if r.returncode: return sid, [("apply", r.stdout)]
        res = []
        for p in props:
            t = time.time()
            r = subprocess.run(["unshare", "-m", "bash", "-c",
              "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check %s --tier quick" % (w, w, p)],
              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            f = ""
            ev = "%s/verif/evidence/replay/%s.json" % (w, p)
            if r.returncode and os.path.exists(ev): f = open(ev).read()[:400].replace("\n", " ")
            res.append((p, r.returncode, round(time.time()-t), v[:1] or (r.stdout[-300:] if r.returncode else ""), f))
        return sid, res
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    ids = args or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(3) as ex:
        for sid, res in ex.map(one, ids):
            for x in res: print(sid, *x, flush=True)
