"""Builds the code under test from /repo's working tree, and the harnesses against it.

Objects are cached under /verif/build by a hash of everything that goes into them
(the file, every header of the tree, the flags, the compiler), so nothing stale is
ever used and a fresh checkout simply builds everything.
"""
import concurrent.futures, hashlib, os, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
CXX = "g++"

COMMON = ["-std=c++20", "-g1", "-w", "-DNDEBUG", "-fPIC", "-pthread"]
CONFIGS = {
    # crashes, overruns and dangling use fail loudly
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O2"],
    # memory accesses call into our own runtime (rt/), not into thread sanitizer's
    "hb": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
}
LINK = {"asan": ["-fsanitize=address"], "plain": [], "hb": []}


class BuildError(Exception):
    pass


def sh(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        lines = [l[:400] for l in p.stdout.split("\n") if "error" in l or "undefined" in l] or p.stdout.split("\n")
        raise BuildError(f"{what} failed:\n{' '.join(cmd)[:600]}\n" + "\n".join(lines[:12]))


def tree(sub, exts):
    r = []
    for d, dirs, files in os.walk(os.path.join(REPO, sub)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return r


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for e in extra:
        h.update(repr(e).encode() + b"\0")
    return h.hexdigest()[:32]


_ver = None
def version():
    global _ver
    if _ver is None:
        _ver = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE, text=True).stdout.split("\n")[0]
    return _ver


def headers():
    return tree("src", (".h", ".hpp")) + tree("third-party", (".h", ".hpp"))


def proto():
    src = os.path.join(REPO, "proto", "liblevenshtein.proto")
    out = os.path.join(BUILD, "proto-" + digest([src]))
    gen = os.path.join(out, "liblevenshtein", "proto")
    if not os.path.exists(os.path.join(gen, "done")):
        os.makedirs(gen, exist_ok=True)
        sh(["protoc", "-I", os.path.dirname(src), "--cpp_out=" + gen, src], "protoc")
        open(os.path.join(gen, "done"), "w").close()
    return out


def compile_one(src, flags, deps, incs):
    key = digest([src] + deps, flags, version())
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.dirname(obj))
        os.close(fd)
        sh([CXX, *COMMON, *flags, *incs, "-c", src, "-o", tmp], "compiling " + src)
        os.rename(tmp, obj)
    return obj


def build(name, harness, config, extra_sources=(), defines=(), extra_flags=(), libs=(), lib_sources=True):
    """Builds one executable out of the library's sources and harness sources; returns its path."""
    gen = proto()
    pb = os.path.join(gen, "liblevenshtein", "proto", "liblevenshtein.pb.cc")
    pbh = os.path.join(gen, "liblevenshtein", "proto", "liblevenshtein.pb.h")
    incs = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "third-party"), "-I" + gen,
            "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(gen, "liblevenshtein", "proto")]
    flags = CONFIGS[config]
    hdrs = headers() + [pbh]
    own = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".h")]
    jobs = []
    if lib_sources:
        for s in tree("src", (".cpp", ".cc")) + tree("third-party", (".cpp", ".cc")):
            jobs.append((s, flags, hdrs, incs))
        # generated code: never instrumented for the race runtime (its library is not either)
        jobs.append((pb, CONFIGS["plain"] if config == "hb" else flags, [pbh], incs))
    for s in extra_sources:
        jobs.append((s[0], list(s[1]), hdrs + own + tree("example", (".h",)), incs))
    for s in harness:
        jobs.append((s, list(flags) + ["-D" + d for d in defines] + list(extra_flags), hdrs + own, incs))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = os.path.join(BUILD, "bin", name + "-" + digest(objs, config))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        sh([CXX, *LINK[config], "-pthread", *objs, "-o", tmp, "-lprotobuf", "-ldl", *libs], "linking " + name)
        os.rename(tmp, exe)
    return exe
