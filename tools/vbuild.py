#!/usr/bin/env python3
"""Build /repo's current working tree for the simulator, into /verif/build.

Content-addressed: every object is keyed by (compile command, bytes of the
source and of every header it included), so that a changed file is always
recompiled and an unchanged one never is, whatever the mtimes say.

  vbuild.py pkg      -> prints the package root (contains awkward/) to put on PYTHONPATH
  vbuild.py preload  -> prints the path of the preload library (allocation + stdio seams)
  vbuild.py native   -> prints the path of the native simulator binary
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OBJ = os.path.join(BUILD, "obj")
PY = "/opt/vp/venv/bin/python"
CXX = "g++"
JOBS = int(os.environ.get("VERIF_BUILD_JOBS", "8"))


class BuildError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


_hash_cache = {}


def file_sha(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def parse_dep(path):
    with open(path) as f:
        txt = f.read()
    txt = txt.replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [t for t in txt.split() if t]


def in_repo(p):
    return p.startswith(REPO + "/")


def compile_one(src, flags):
    """Return path of the object for src compiled with flags."""
    cmd = [CXX] + flags + ["-c", src]
    base = sha(json.dumps([cmd, file_sha(src)]).encode())[:32]
    d = os.path.join(OBJ, base[:2])
    man = os.path.join(d, base + ".json")
    if os.path.exists(man):
        try:
            with open(man) as f:
                entries = json.load(f)
        except ValueError:
            entries = []
        for e in entries:
            if all(file_sha(p) == h for p, h in e["deps"]) and os.path.exists(e["obj"]):
                return e["obj"]
    else:
        entries = []
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "%s.%d.tmp" % (base, os.getpid()))
    r = subprocess.run(cmd + ["-o", tmp + ".o", "-MMD", "-MF", tmp + ".d"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    deps = sorted(set(os.path.normpath(os.path.join(REPO, p)) for p in parse_dep(tmp + ".d")))
    deps = [p for p in deps if in_repo(p) or p.startswith(VERIF + "/")]
    pairs = [[p, file_sha(p)] for p in deps]
    okey = sha(json.dumps([base, pairs]).encode())[:32]
    obj = os.path.join(d, okey + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    entries.append({"deps": pairs, "obj": obj})
    with open(man + ".tmp", "w") as f:
        json.dump(entries[-8:], f)
    os.replace(man + ".tmp", man)
    return obj


def compile_all(jobs):
    """jobs: list of (src, flags) -> list of objects"""
    # biggest first
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
    out = [None] * len(jobs)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, *jobs[i]): i for i in order}
        err = None
        for f in cf.as_completed(futs):
            try:
                out[futs[f]] = f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err
    return out


def link(objs, extra, name):
    key = sha(json.dumps([objs, extra, name]).encode())[:32]
    d = os.path.join(BUILD, "lib", key)
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    rsp = tmp + ".rsp"
    with open(rsp, "w") as f:
        f.write("\n".join(objs))
    r = subprocess.run([CXX, "-o", tmp, "@" + rsp] + extra,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    os.unlink(rsp)
    if r.returncode != 0:
        raise BuildError("link failed: %s\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
    os.replace(tmp, out)
    return out


def version():
    with open(os.path.join(REPO, "VERSION_INFO")) as f:
        return f.read().strip()


def sources():
    k = sorted(glob.glob(REPO + "/src/cpu-kernels/*.cpp"))
    l = sorted(glob.glob(REPO + "/src/libawkward/**/*.cpp", recursive=True))
    p = sorted(glob.glob(REPO + "/src/python/*.cpp"))
    return k, l, p


INC = ["-I" + REPO + "/include", "-I" + REPO + "/rapidjson/include",
       "-I" + REPO + "/dlpack/include", "-I/opt/vp/cmake/include"]


def base_flags(opt):
    return ["-DVERSION_INFO=\"%s\"" % version()] + INC + [
        "-Wno-error", "-w", opt, "-DNDEBUG", "-fPIC",
        "-fvisibility=hidden", "-fvisibility-inlines-hidden"]


def build_pkg():
    k, l, p = sources()
    opt = "-O1"
    fk = base_flags(opt)
    fl = base_flags(opt) + ["-DLIBAWKWARD_EXPORT_SYMBOL=EXPORT_SYMBOL"]
    fp = base_flags(opt) + ["-D_ext_EXPORTS", "-isystem", "/usr/include/python3.12"]
    jobs = [(s, fk) for s in k] + [(s, fl) for s in l] + [(s, fp) for s in p]
    objs = compile_all(jobs)
    ok, ol, op = objs[:len(k)], objs[len(k):len(k) + len(l)], objs[len(k) + len(l):]
    libk = link(ok, ["-shared"], "libawkward-cpu-kernels.so")
    liba = link(ol + ok, ["-shared", "-ldl"], "libawkward.so")
    ext = link(op + ol + ok, ["-shared", "-ldl"], "_ext.cpython-312-x86_64-linux-gnu.so")
    # package tree, keyed by content
    pyfiles = []
    root = os.path.join(REPO, "src/awkward")
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x != "__pycache__")
        for f in sorted(fn):
            if f.endswith((".pyc", ".so")):
                continue
            pyfiles.append(os.path.relpath(os.path.join(dp, f), root))
    key = sha(json.dumps([[f, file_sha(os.path.join(root, f))] for f in pyfiles]
                         + [libk, liba, ext]).encode())[:24]
    pkg = os.path.join(BUILD, "pkg", key)
    if not os.path.exists(os.path.join(pkg, ".done")):
        tmp = pkg + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        for f in pyfiles:
            dst = os.path.join(tmp, "awkward", f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(root, f), dst)
        for so in (libk, liba, ext):
            os.link(so, os.path.join(tmp, "awkward", os.path.basename(so)))
        r = subprocess.run([PY, "-c", "import compileall;compileall.compile_dir('awkward',quiet=2)"],
                           cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        open(os.path.join(tmp, ".done"), "w").close()
        shutil.rmtree(pkg, ignore_errors=True)
        os.rename(tmp, pkg)
    return pkg


def build_preload():
    src = os.path.join(VERIF, "native", "preload.cpp")
    o = compile_one(src, ["-O1", "-fPIC", "-w", "-std=c++14"])
    return link([o], ["-shared", "-ldl", "-lpthread"], "libvsim.so")


# Objects for the native simulator: libawkward and the kernels compiled with the
# compiler's memory-access instrumentation, whose callbacks are the simulator's
# own (native/nsim_rt.cpp), not ThreadSanitizer's runtime.
WRAP = ["memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "free", "__cxa_allocate_exception",
        "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once"]


def build_native():
    k, l, _ = sources()
    base = [f for f in base_flags("-O1") if not f.startswith("-fvisibility")] + ["-DLIBAWKWARD_EXPORT_SYMBOL=EXPORT_SYMBOL"]
    fi = base + ["-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]
    rt = os.path.join(VERIF, "native", "nsim_rt.cpp")
    main = os.path.join(VERIF, "native", "nsim_main.cpp")
    jobs = [(s, fi) for s in k + l]
    jobs += [(rt, ["-O1", "-g", "-fPIC", "-w", "-std=c++14"])]
    jobs += [(main, base + ["-std=c++14", "-I" + VERIF + "/native"])]
    objs = compile_all(jobs)
    return link(objs, ["-rdynamic", "-ldl", "-lpthread"] + ["-Wl,--wrap=" + w for w in WRAP], "nsim")


def prune(days=2):
    """Drop package trees and libraries not used recently, to bound disk use."""
    now = time.time()
    for pat in ("pkg/*", "lib/*"):
        ds = sorted(glob.glob(os.path.join(BUILD, pat)), key=os.path.getmtime)
        for d in ds[:-24]:
            shutil.rmtree(d, ignore_errors=True)


def build(what):
    os.makedirs(OBJ, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _hash_cache.clear()
        out = {"pkg": build_pkg, "preload": build_preload, "native": build_native}[what]()
        os.utime(os.path.dirname(out) if os.path.isfile(out) else out)
        prune()
    return out


if __name__ == "__main__":
    t0 = time.time()
    try:
        for w in sys.argv[1:]:
            print(build(w))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
    print("built %s in %.1f s" % (" ".join(sys.argv[1:]), time.time() - t0), file=sys.stderr)
