#!/usr/bin/env python3
"""Content-hash build of /repo's libraries (variants) and of the harness drivers.

Objects live in /verif/.build (git-ignored).  An object is reused only when the content of the
source and of every header its compiler run read, and the command line, are what they were.
"""
import hashlib, json, os, subprocess, sys, glob, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LLVM = "/usr/lib/llvm-19"
COMMON = ["-std=gnu++17", "-w", "-fPIC", "-DNDEBUG", f"-isystem{LLVM}/include"]
INC = [f"-I{REPO}/include", f"-I{REPO}/src", f"-I{REPO}/athena"]
LINK = [f"-L{LLVM}/lib", "-lLLVM-19", f"-Wl,-rpath,{LLVM}/lib", "-lpthread", "-ldl", "-rdynamic"]
GUARD = "JITFUSION_VERIF_GUARD_ARENA"
VARIANTS = {
    # name: (compile flags, link flags)
    "rel": (["-O2"], []),
    "guard": (["-O2", f"-D{GUARD}", "-DVF_GUARD"], ["-Wl,--wrap=malloc", "-Wl,--wrap=free"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "asan": (["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", f"-D{GUARD}"], ["-fsanitize=address"]),
}
CLANG = {"abi3.cc"}
_hash_cache = {}


def file_hash(p):
    if p not in _hash_cache:
        try:
            with open(p, "rb") as f:
                _hash_cache[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _hash_cache[p] = "missing"
    return _hash_cache[p]


def compile_one(src, variant, extra):
    vflags, _ = VARIANTS[variant]
    # functions compiled by clang rely on more of the calling convention than those compiled by gcc
    cxx = "clang++" if os.path.basename(src) in CLANG else "g++"
    cmd = [cxx, *COMMON, *vflags, *extra, *INC, "-c", src]
    tag = hashlib.sha1((src + variant).encode()).hexdigest()[:10]
    base = os.path.join(BUILD, variant, f"{os.path.basename(src)}.{tag}")
    obj, man = base + ".o", base + ".json"
    cmd_h = hashlib.sha1(" ".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(man):
        try:
            with open(man) as f:
                m = json.load(f)
            if m["cmd"] == cmd_h and all(file_hash(p) == h for p, h in m["deps"].items()):
                return obj, None
        except (ValueError, KeyError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = f"{base}.{os.getpid()}"
    r = subprocess.run([*cmd, "-MMD", "-MF", tmp + ".d", "-o", tmp + ".o"], capture_output=True, text=True)
    if r.returncode != 0:
        return None, f"{' '.join(cmd)}\n{r.stderr[-4000:]}"
    with open(tmp + ".d") as f:
        toks = f.read().replace("\\\n", " ").split()[1:]
    # system headers are part of the image and do not change
    deps = {p: file_hash(p) for p in toks if not p.startswith("/usr/")}
    os.replace(tmp + ".o", obj)
    with open(tmp + ".json", "w") as f:
        json.dump({"cmd": cmd_h, "deps": deps}, f)
    os.replace(tmp + ".json", man)
    os.unlink(tmp + ".d")
    return obj, None


def lib_sources():
    out = []
    for d in ("src", "src/codegen", "src/function", "athena"):
        out += sorted(glob.glob(f"{REPO}/{d}/*.cc"))
    # sources in directories that do not exist today are picked up too, as the project's own glob does
    known = set(out)
    for root, dirs, files in os.walk(f"{REPO}/src"):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".cc") and p not in known:
                out.append(p)
    return out


def build(drivers, jobs=8, log=None):
    """drivers: list of (driver source basename without .cc, variant). Returns {(name, variant): exe}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    variants = sorted({v for _, v in drivers})
    tasks = [(s, v, []) for v in variants for s in lib_sources()]
    # the LLVM-heavy sources first: they take longest
    tasks.sort(key=lambda t: 0 if ("/codegen/" in t[0] or "jit" in t[0] or "parser" in t[0] or "math" in t[0]) else 1)
    tasks += [(f"{VERIF}/harness/{d}.cc", v, [f"-I{VERIF}/harness", f'-DVERIF_HARNESS_DIR="{VERIF}/harness"', "-O1", "-std=gnu++20"]) for d, v in drivers]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda t: compile_one(*t), tasks))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n")
        raise SystemExit(f"build failed: {len(errs)} source(s) do not compile")
    objs = {(s, v): o for (s, v, _), (o, _) in zip(tasks, res)}
    exes = {}

    def link(dv):
        d, v = dv
        lib = [objs[(s, v)] for s in lib_sources()]
        ins = [objs[(f"{VERIF}/harness/{d}.cc", v)], *lib]
        h = hashlib.sha1("".join(file_hash_nocache(p) for p in ins).encode()).hexdigest()
        exe = os.path.join(BUILD, v, d)
        stamp = exe + ".link"
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
            return dv, exe, None
        r = subprocess.run(["g++", *VARIANTS[v][1], "-o", exe + ".tmp", *ins, *LINK], capture_output=True, text=True)
        if r.returncode != 0:
            return dv, None, r.stderr[-4000:]
        os.replace(exe + ".tmp", exe)
        with open(stamp, "w") as f:
            f.write(h)
        return dv, exe, None

    with ThreadPoolExecutor(jobs) as ex:
        for dv, exe, err in ex.map(link, drivers):
            if err:
                sys.stderr.write(err + "\n")
                raise SystemExit("link failed")
            exes[dv] = exe
    lock.close()
    return exes


def file_hash_nocache(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


if __name__ == "__main__":
    from checks import CHECKS
    want = sorted({(c["driver"], c["variant"]) for lst in CHECKS.values() for c in lst})
    if len(sys.argv) > 1:
        want = [w for w in want if w[0] in sys.argv[1:]]
    build(want)
    print(f"built {len(want)} drivers")
