"""Content-addressed incremental builder: every object is keyed by the compiler command and
the content of the source and of every file it included, so a check always judges /repo's
current working tree, and identical inputs are never compiled twice."""
import hashlib, json, os, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
JOBS = int(os.environ.get("VP_JOBS", os.cpu_count() or 8))

COMMON = ["-std=c++20", "-w", "-DDOTTORRENT_USE_OPENSSL", "-DFMT_HEADER_ONLY", "-DOPENSSL_SUPPRESS_DEPRECATED",
          "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(VERIF, "shim/include"), "-I" + os.path.join(VERIF, "engine"),
          "-I" + os.path.join(REPO, "include")]
MODES = {
    # sequential exploration, with AddressSanitizer
    "asan": ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # the same plus UBSan, for small header-only harnesses
    "ubsan": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    # controlled scheduler: the compiler's thread instrumentation, linked with our own runtime
    "sched": ["-O1", "-g1", "-fsanitize=thread", "--param=tsan-distinguish-volatile=0", "-DVP_SCHED"],
    "plain": ["-O1", "-g1"],
    # UBSan only (AddressSanitizer rejects aligned_alloc sizes that glibc accepts)
    "ub": ["-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
}
LINK = {
    "asan": ["-fsanitize=address"],
    "ubsan": ["-fsanitize=address,undefined"],
    "sched": ["-rdynamic"],
    "plain": [],
    "ub": ["-fsanitize=undefined"],
}
LIBS = ["-lcrypto", "-lpthread", "-ldl"]


class BuildError(Exception):
    pass


_hash_memo = {}


def fhash(p):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size)
        if k not in _hash_memo:
            with open(p, "rb") as f:
                _hash_memo[k] = hashlib.sha256(f.read()).hexdigest()
        return _hash_memo[k]
    except OSError:
        return None


_cc = None


def cc_id():
    global _cc
    if _cc is None:
        _cc = subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout.splitlines()[0]
    return _cc


def compile_one(src, flags):
    """Returns the object path for src compiled with flags."""
    cmd = ["g++"] + flags + ["-include", os.path.join(VERIF, "shim/prelude.hpp")]
    key = hashlib.sha256(json.dumps([cc_id(), cmd, os.path.abspath(src)]).encode()).hexdigest()[:32]
    man = os.path.join(CACHE, key + ".json")
    src_h = fhash(src)
    if src_h is None:
        raise BuildError("missing source " + src)
    try:
        with open(man) as f:
            entries = json.load(f)
    except Exception:
        entries = []
    for e in entries:
        if all(fhash(p) == h for p, h in e["deps"].items()) and os.path.exists(os.path.join(CACHE, e["obj"])):
            return os.path.join(CACHE, e["obj"])
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=CACHE)
    try:
        o, d = os.path.join(tmp, "o.o"), os.path.join(tmp, "o.d")
        r = subprocess.run(cmd + ["-MMD", "-MF", d, "-c", src, "-o", o], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
        # -MMD leaves out system headers, which do not change here
        txt = open(d).read().replace("\\\n", " ").split(":", 1)[1]
        deps = {os.path.abspath(p): None for p in txt.split()}
        deps[os.path.abspath(src)] = None
        for p in list(deps):
            deps[p] = fhash(p)
        oh = hashlib.sha256(json.dumps([key, deps], sort_keys=True).encode()).hexdigest()[:32]
        obj = oh + ".o"
        os.replace(o, os.path.join(CACHE, obj))
        entries = [e for e in entries if e["obj"] != obj][-5:] + [{"deps": deps, "obj": obj}]
        t2 = man + ".tmp%d" % os.getpid()
        with open(t2, "w") as f:
            json.dump(entries, f)
        os.replace(t2, man)
        return os.path.join(CACHE, obj)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def repo_sources(group):
    if group == "none":
        return []
    backends = sorted(glob.glob(os.path.join(REPO, "src/hasher/backends/*.cpp")))
    if group == "crypto":
        return backends
    if group == "all":
        return sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True))
    raise ValueError(group)


def build(name, spec):
    """spec: dict(mode, lib, srcs, extra). Returns the path of the executable."""
    mode = spec["mode"]
    flags = MODES[mode] + COMMON + spec.get("extra", []) + ["-I" + os.path.join(VERIF, d) for d in spec.get("inc", [])]
    eng_flags = ["-O1", "-g1"] + COMMON
    jobs = []
    for s in spec["srcs"]:
        jobs.append((os.path.join(VERIF, s), flags, "h"))
    # the engine is never instrumented, so that its own shared state is invisible to the checks
    jobs.append((os.path.join(VERIF, "engine/vp.cpp"), eng_flags, "e"))
    for s in spec.get("engine", []):
        jobs.append((os.path.join(VERIF, s), eng_flags, "e"))
    for s in repo_sources(spec["lib"]):
        jobs.append((s, flags, "r"))
    failed = []

    def one(j):
        try:
            return compile_one(j[0], j[1])
        except BuildError as e:
            # a library source that does not compile only matters if something needs it
            if j[2] != "r":
                raise
            failed.append(str(e))
            return None

    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, jobs))
    jobs = [j for j, o in zip(jobs, objs) if o]
    objs = [o for o in objs if o]
    # one executable per exact set of objects
    hk = hashlib.sha256(json.dumps([name, mode, sorted(objs), spec.get("libs", [])]).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, "%s-%s" % (name, hk))
    if os.path.exists(exe):
        return exe
    tmpexe = exe + ".tmp%d" % os.getpid()
    direct = [o for o, j in zip(objs, jobs) if j[2] in "he"]
    lib = [o for o, j in zip(objs, jobs) if j[2] == "r"]
    cmd = ["g++"] + LINK[mode] + direct
    ar = None
    if lib:
        ar = tmpexe + ".a"
        if os.path.exists(ar):
            os.unlink(ar)
        r = subprocess.run(["ar", "rcs", ar] + lib, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        cmd += [ar]
    cmd += ["-o", tmpexe] + spec.get("libs", []) + LIBS
    r = subprocess.run(cmd, capture_output=True, text=True)
    if ar:
        os.unlink(ar)
    if r.returncode:
        raise BuildError("\n".join(failed + ["linking %s failed:\n%s" % (name, r.stderr[-6000:])]))
    os.replace(tmpexe, exe)
    # drop older executables of the same harness
    for old in glob.glob(os.path.join(CACHE, name + "-*")):
        if old != exe and not old.endswith(".o"):
            try:
                os.unlink(old)
            except OSError:
                pass
    return exe
