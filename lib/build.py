"""Builds the drivers and programs from /repo's working tree.

Objects and executables are cached in /verif/build by the content of everything below /repo and /verif
they were made from (not by time stamps), so a change in /repo is always seen and nothing else is recompiled."""
import concurrent.futures, fcntl, glob, hashlib, json, os, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = os.path.join(VERIF, "build")
INC = ["-I/usr/include/eigen3", "-I/usr/include/libfccp", f"-I{REPO}/src", f"-I{VERIF}/drivers", f"-I{REPO}"]
STRICT = ["-include", f"{VERIF}/drivers/strict.hpp", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # as shipped
    "plain": dict(cxx="g++", flags=["-O2", "-g1", "-DNDEBUG"], ld=[]),
    # memory errors and undefined behaviour
    "san": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                                  "-fno-sanitize-recover=all"] + STRICT,
                ld=["-fsanitize=address,undefined,float-cast-overflow"]),
    # OpenMP on, data race detection; linked with our own OpenMP runtime (drivers/gompshim.cpp)
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fopenmp", "-fsanitize=thread"], ld=["-fsanitize=thread"]),
    # as shipped, with every uninitialised local variable filled with one pattern or another
    "fill0": dict(cxx="g++", flags=["-O2", "-g1", "-DNDEBUG", "-ftrivial-auto-var-init=zero"], ld=[]),
    "fill1": dict(cxx="g++", flags=["-O2", "-g1", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"], ld=[]),
    # OpenMP on, no sanitizer, own OpenMP runtime
    "omp": dict(cxx="g++", flags=["-O2", "-g1", "-DNDEBUG", "-fopenmp"], ld=[]),
}
BASE = ["-std=gnu++17", "-pthread", "-w"]


class BuildError(Exception):
    pass


_hash = {}
def file_hash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f: h = hashlib.blake2b(f.read(), digest_size=16).hexdigest()
        except OSError: h = "missing"
        _hash[path] = h
    return h


def _key(*parts):
    return hashlib.blake2b(json.dumps(parts).encode(), digest_size=16).hexdigest()


def compile_one(src, variant, extra=(), plainflags=False):
    v = VARIANTS[variant]
    cmd = [v["cxx"]] + BASE + (["-O2", "-g1"] if plainflags else v["flags"]) + list(extra) + INC + ["-c", src]
    depfile = os.path.join(OUT, "deps", _key(cmd) + ".json")
    def obj_for(deps):
        return os.path.join(OUT, "obj", _key(cmd, [(d, file_hash(d)) for d in deps]) + ".o")
    try:
        with open(depfile) as f: deps = json.load(f)
        o = obj_for(deps)
        if os.path.exists(o): return o
    except (OSError, ValueError): pass
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.join(OUT, "obj")); os.close(fd)
    r = subprocess.run(cmd + ["-o", tmp, "-MD", "-MF", tmp + ".d"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: 
        os.unlink(tmp)
        raise BuildError(f"compiling {src} ({variant}) failed:\n{r.stdout[-3000:]}")
    with open(tmp + ".d") as f: text = f.read().replace("\\\n", " ")
    os.unlink(tmp + ".d")
    deps = sorted({os.path.normpath(d) for d in text.split(":", 1)[1].split() if d.startswith((REPO, VERIF))} | {src})
    o = obj_for(deps)
    os.replace(tmp, o)
    with open(depfile + f".{os.getpid()}", "w") as f: json.dump(deps, f)
    os.replace(depfile + f".{os.getpid()}", depfile)
    return o


def repo_sources(main=False):
    srcs = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    return srcs if main else [s for s in srcs if s != f"{REPO}/src/main.cpp"]


# name -> variant, drivers (compiled like the repository), oracle sources (compiled without sanitizer), repository sources, link flags
def _targets():
    d = f"{VERIF}/drivers/"
    T = {}
    wrap = ["-Wl,--wrap=exit"]
    for name in ("step", "nbr", "refv", "io"):
        src = f"{d}drv_{name}.cpp"
        if os.path.exists(src):
            T[f"drv_{name}"] = dict(variant="san", drv=[src, d + "harness.cpp"], oracle=[d + "oracle.cpp"], repo=repo_sources(), ld=wrap + ["-lyaml-cpp"])
    T["mps_plain"] = dict(variant="plain", drv=[], oracle=[], repo=repo_sources(True), ld=["-lyaml-cpp"])
    for v in ("fill0", "fill1"): T["mps_" + v] = dict(variant=v, drv=[], oracle=[], repo=repo_sources(True), ld=["-lyaml-cpp"])
    T["mps_san"] = dict(variant="san", drv=[], oracle=[], repo=repo_sources(True), ld=["-lyaml-cpp"])
    gs = sorted(glob.glob(f"{REPO}/generator/generator_src/**/*.cpp", recursive=True))
    for g in ("dambreak", "hydrostatic"):
        T[f"gen_{g}"] = dict(variant="san", drv=[], oracle=[], repo=[f"{REPO}/generator/generate_{g}.cpp"] + gs + repo_sources(), ld=["-lyaml-cpp"])
    T["drv_gen"] = dict(variant="san", drv=[d + "drv_gen.cpp"], oracle=[], repo=gs + repo_sources(), ld=["-lyaml-cpp"])
    if os.path.exists(d + "drv_omp.cpp"):
        for v in ("tsan", "omp"):
            T[f"drv_{v}"] = dict(variant=v, drv=[d + "drv_omp.cpp"], oracle=[d + "gompshim.cpp", d + "harness.cpp", d + "oracle.cpp"], repo=repo_sources(), ld=wrap + ["-lyaml-cpp"])
        T["mps_omp"] = dict(variant="omp", drv=[], oracle=[], repo=repo_sources(True), ld=["-lyaml-cpp", "-fopenmp"])
    T["faultrun"] = dict(variant="plain", drv=[], oracle=[d + "faultrun.cpp"], repo=[], ld=[])
    T["watch"] = dict(variant="plain", drv=[], oracle=[d + "watch.cpp"], repo=[], ld=["-shared", "-ldl"], extra=["-fPIC", "-fno-builtin"], so=True)
    return T


def build(names):
    """Builds the named targets; returns {name: path}."""
    for s in ("obj", "deps", "exe"): os.makedirs(os.path.join(OUT, s), exist_ok=True)
    T = _targets()
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = {}
        for n in names:
            t = T[n]
            for s in t["drv"] + t["repo"]: jobs[(s, t["variant"], False, tuple(t.get("extra", ())))] = None
            for s in t["oracle"]: jobs[(s, t["variant"], True, tuple(t.get("extra", ())))] = None
        def work(k): return compile_one(k[0], k[1], k[3], k[2])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = {ex.submit(work, k): k for k in sorted(jobs, key=lambda k: -os.path.getsize(k[0]))}
            for f in concurrent.futures.as_completed(futs): jobs[futs[f]] = f.result()
        def link(n):
            t = T[n]; v = VARIANTS[t["variant"]]
            e = tuple(t.get("extra", ()))
            objs = [jobs[(s, t["variant"], False, e)] for s in t["drv"] + t["repo"]] + [jobs[(s, t["variant"], True, e)] for s in t["oracle"]]
            cmd = [v["cxx"], "-pthread"] + ([] if t.get("so") else v["ld"]) + objs + t["ld"]
            exe = os.path.join(OUT, "exe", n + "-" + _key(cmd))
            if not os.path.exists(exe):
                r = subprocess.run(cmd + ["-o", exe + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode: raise BuildError(f"linking {n} failed:\n{r.stdout[-3000:]}")
                for old in glob.glob(os.path.join(OUT, "exe", n + "-*")):
                    if not old.endswith(".tmp"): os.unlink(old)
                os.replace(exe + ".tmp", exe)
            return exe
        with concurrent.futures.ThreadPoolExecutor(8) as ex: return dict(zip(names, ex.map(link, names)))


def all_targets(): return list(_targets())

if __name__ == "__main__":
    print(build(sys.argv[1:] or all_targets()))
