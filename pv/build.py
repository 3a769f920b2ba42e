"""Build the real code of /repo's working tree in a scratch directory.

The C++ sources and python files are taken from /repo/src/pyscal as they are; the two extension
modules are compiled with assertions of the standard library switched on. Nothing is written in /repo.
"""
import hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("PV_REPO", "/repo")
PY = "/opt/venv/bin/python"
CACHE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".cache")
FLAGS = ["-O1", "-std=c++17", "-fPIC", "-fvisibility=hidden", "-w", "-D_GLIBCXX_ASSERTIONS"]


class BuildError(Exception):
    pass


def includes():
    r = subprocess.run([PY, "-m", "pybind11", "--includes"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    return r.stdout.split() + ["-I%s/lib/voro++" % REPO]


def suffix():
    return subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                          capture_output=True, text=True).stdout.strip()


def _digest(src):
    h = hashlib.sha256(" ".join(FLAGS).encode())
    files = [src]
    d = os.path.join(REPO, "src/pyscal")
    if "/voro++/" in src:
        d = os.path.join(REPO, "lib/voro++")
        files += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cc", ".hh")))
    else:
        files += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".h"))
        d = os.path.join(REPO, "lib/voro++")
        files += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".hh"))
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def _compile(args):
    src, obj, inc = args
    key = os.path.join(CACHE, _digest(src) + ".o")
    if os.path.exists(key):
        shutil.copy(key, obj)
        return
    r = subprocess.run(["g++"] + FLAGS + inc + ["-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-3000:]))
    try:
        os.makedirs(CACHE, exist_ok=True)
        tmp = key + ".%d" % os.getpid()
        shutil.copy(obj, tmp)
        os.replace(tmp, key)
    except OSError:
        pass


def build(dest):
    """dest/pyscal becomes an importable copy of the package. Returns dest."""
    pk = os.path.join(dest, "pyscal")
    src = os.path.join(REPO, "src/pyscal")
    shutil.copytree(src, pk, ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.o"))
    inc = includes()
    objd = os.path.join(dest, "obj")
    os.makedirs(objd)
    units = [os.path.join(src, n + ".cpp") for n in ("system", "system_binding", "atom", "atom_binding")]
    units.append(os.path.join(REPO, "lib/voro++/voro++.cc"))
    jobs = [(u, os.path.join(objd, os.path.basename(u) + ".o"), inc) for u in units]
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(_compile, jobs))
    o = lambda *n: [os.path.join(objd, x + ".o") for x in n]
    suf = suffix()
    links = [("catom", o("atom.cpp", "atom_binding.cpp")),
             ("csystem", o("system.cpp", "system_binding.cpp", "atom.cpp", "voro++.cc"))]
    for name, objs in links:
        r = subprocess.run(["g++", "-shared", "-o", os.path.join(pk, name + suf)] + objs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
    shutil.rmtree(objd)
    return dest


if __name__ == "__main__":
    import time
    t = time.time()
    build(sys.argv[1])
    print("built in %.1f s" % (time.time() - t))
