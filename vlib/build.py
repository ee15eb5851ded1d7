"""Builds the engine from /repo's current working tree against the stand-ins.

Objects are cached under /verif/build and are rebuilt when the contents of the source or of
any header it includes changed (contents, not time stamps).
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CXX = os.environ.get("VERIF_CXX", "g++")

COMMON = ["-std=c++17", "-fno-omit-frame-pointer", "-pthread", "-mcx16", "-w",
          "-DSHIRAKAMI_LINUX", "-DINDEX_YAKUSHIMA", "-DYAKUSHIMA_EPOCH_TIME=40", "-DPWAL",
          '-DPROJECT_ROOT="/nonexistent"', "-DKVS_MAX_PARALLEL_THREADS=112",
          "-DYAKUSHIMA_MAX_PARALLEL_SESSIONS=300", "-DPARAM_EPOCH_TIME=0", "-DPARAM_RETRY_READ=0",
          "-DPARAM_SNAPSHOT_EPOCH=25", "-DPARAM_CHECKPOINT_REST_EPOCH=40",
          "-DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000", "-DPARAM_CPR_DIFF_SET_RESERVE_NUM=0",
          "-DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1",
          "-DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1",
          "-DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1"]

VARIANTS = {
    # engine flags, harness flags, link flags
    "plain": (["-O1", "-g1", "-fsanitize-coverage=trace-pc"], ["-O2", "-g1"], ["-g1"]),
    "asan": (["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
              "-fno-sanitize-recover=undefined"],
             ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
              "-fno-sanitize-recover=undefined"],
             ["-fsanitize=address,undefined", "-g1"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-O1", "-g1", "-fsanitize=thread"],
             ["-fsanitize=thread", "-g1"]),
}

INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
       "-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "third_party"),
       "-I" + os.path.join(VERIF, "standin")]
HINC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "standin"),
        "-I" + os.path.join(VERIF, "harness")]
LIBS = ["-lglog", "-lgflags", "-lboost_filesystem", "-ltbb", "-latomic", "-lpthread"]


class BuildError(Exception):
    pass


_hash_cache = {}


def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [x for x in txt.split() if x and not x.startswith(("/usr/", "/app/", "/opt/"))]


def uptodate(obj, cmd):
    st = obj + ".json"
    if not (os.path.exists(obj) and os.path.exists(st)):
        return False
    try:
        s = json.load(open(st))
    except ValueError:
        return False
    if s["cmd"] != cmd:
        return False
    return all(fhash(p) == h for p, h in s["deps"].items())


def compile_one(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = [CXX] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    if uptodate(obj, cmd):
        return False
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("compilation of %s failed:\n%s" % (src, p.stdout[-4000:]))
    deps = {d: fhash(d) for d in parse_dep(obj + ".d")}
    json.dump({"cmd": cmd, "deps": deps}, open(obj + ".json", "w"))
    return True


def engine_sources():
    return sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True))


def build(variant, progs=("vdrv",), quiet=True):
    """Builds variant; returns {prog: path}."""
    eflags, hflags, lflags = VARIANTS[variant]
    vdir = os.path.join(BUILD, variant)
    os.makedirs(vdir, exist_ok=True)
    with open(os.path.join(BUILD, "." + variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []
        objs = []
        for s in engine_sources():
            o = os.path.join(vdir, "engine", os.path.relpath(s, REPO) + ".o")
            jobs.append((s, o, COMMON + eflags + INC))
            objs.append(o)
        for s in sorted(glob.glob(os.path.join(VERIF, "standin/src/*.cpp"))):
            o = os.path.join(vdir, "standin", os.path.basename(s) + ".o")
            jobs.append((s, o, COMMON + hflags + INC))
            objs.append(o)
        hobjs = {}
        for s in sorted(glob.glob(os.path.join(VERIF, "harness/*.cpp"))):
            o = os.path.join(vdir, "harness", os.path.basename(s) + ".o")
            jobs.append((s, o, COMMON + hflags + HINC))
            hobjs[os.path.basename(s)] = o
        changed = False
        # long compilations first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(lambda j: compile_one(*j), jobs):
                changed = changed or r
        out = {}
        exe = os.path.join(vdir, "vdrv")
        cmd = [CXX] + lflags + ["-o", exe] + objs + sorted(hobjs.values()) + LIBS
        st = exe + ".json"
        old = None
        if os.path.exists(st) and os.path.exists(exe):
            try:
                old = json.load(open(st))
            except ValueError:
                old = None
        sig = {"cmd": cmd, "objs": {o: json.load(open(o + ".json"))["deps"] for o in objs + sorted(hobjs.values())}}
        sig = hashlib.sha256(json.dumps(sig, sort_keys=True).encode()).hexdigest()
        if changed or old != sig:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError("link failed:\n" + p.stdout[-4000:])
            json.dump(sig, open(st, "w"))
        out["vdrv"] = exe
        return out


if __name__ == "__main__":
    for v in (sys.argv[1:] or ["plain", "asan", "tsan"]):
        try:
            print(v, build(v))
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
