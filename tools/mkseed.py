#!/usr/bin/env python3
"""Make and confirm planted bugs.

usage: mkseed.py SPEC.py [ID ...]
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)], demo being the
text of a Python program (run with cwd /repo) that exits non-zero with the change and 0 without it.
Everything is built and run in a private mount namespace on a copy of /repo; /repo itself is not touched.
"""
import os, sys, subprocess, json, shutil, re, runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def ns(copy, cmd, timeout=1500):
    full = ("mount --bind %s/repo /repo && mount --bind %s/vp /opt/vp && cd /repo && %s" % (copy, copy, cmd))
    return subprocess.run(["unshare", "-m", "bash", "-c", full], stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)

def one(s):
    sid = s["id"]
    copy = "/tmp/seedcopy_%s" % sid
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(copy)
    sh("cp -a /repo %s/repo; cp -a /opt/vp %s/vp; git -C %s/repo checkout -q -- ." % (copy, copy, copy))
    log = []
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(copy, "repo", f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = t.count(old)
            if n != 1:
                return sid, False, "edit matches %d times in %s: %r" % (n, f, old)
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run("git -C %s/repo diff --no-color" % copy, shell=True, stdout=subprocess.PIPE).stdout
        # removed lines must be from the original repository
        cur = None; ln = 0; bad = []; removed = 0
        for raw in diff.split(b"\n"):
            l = raw.decode("latin1")
            m = re.match(r"^--- a/(.*)", l)
            if m: cur = m.group(1).strip(); continue
            m = re.match(r"^@@ -(\d+)", l)
            if m: ln = int(m.group(1)); continue
            if l.startswith("+++") or l.startswith("diff") or l.startswith("index"): continue
            if l.startswith("-"):
                removed += 1
                b = sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout
                if not b.startswith("^d074442"): bad.append(b.strip())
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if bad and not s.get("allow_new"):
            return sid, False, "changes lines of own commits: %s" % bad
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # clean demo
        r = ns(copy, "git stash -q && bash /opt/vp/build.sh >/tmp/b_%s.log 2>&1; bash %s/demo.sh" % (sid, d))
        clean = r.returncode
        if clean != 0:
            return sid, False, "demo fails on clean tree: " + r.stdout[-1500:]
        r = ns(copy, "git stash pop -q && bash /opt/vp/build.sh >/tmp/b_%s.log 2>&1" % sid)
        if r.returncode != 0:
            return sid, False, "build fails: " + r.stdout[-1000:] + open("/tmp/b_%s.log" % sid).read()[-2000:]
        r = ns(copy, "bash %s/demo.sh" % d)
        if r.returncode == 0:
            return sid, False, "demo passes with the patch: " + r.stdout[-1500:]
        demo_out = r.stdout[-300:]
        r = ns(copy, "bash /opt/vp/test.sh /tmp/t_%s.json" % sid)
        t = json.load(open("/tmp/t_%s.json" % sid))
        base = json.load(open("/opt/vp/BASELINE.json"))
        def passed(x):
            for k in ("stable", "passed", "pass", "passing"):
                if isinstance(x, dict) and k in x: return set(x[k])
            raise SystemExit("unknown format %s" % list(x)[:5])
        miss = passed(base) - passed(t)
        if miss:
            return sid, False, "tests fail: %s" % sorted(miss)[:5]
        return sid, True, "ok; demo: " + demo_out.strip().replace("\n", " / ")
    finally:
        shutil.rmtree(copy, ignore_errors=True)

if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    from concurrent.futures import ThreadPoolExecutor
    seeds = [s for s in seeds if not want or s["id"] in want]
    with ThreadPoolExecutor(4) as ex:
        for sid, ok, msg in ex.map(one, seeds):
            print(("OK   " if ok else "FAIL ") + sid, msg, flush=True)
            if not ok:
                shutil.rmtree(os.path.join(V, "seeded", sid), ignore_errors=True)
