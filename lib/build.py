#!/usr/bin/env python3
"""Incremental build of the symbolic objects of /repo/src and of the harnesses.

Objects are keyed by content: an object is fresh if the command line, the compiler plugin and every file of
/repo and /verif it was compiled from are unchanged, or if at least its preprocessed text is unchanged.
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
OBJ = os.path.join(B, "obj")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

DEFS = ["-DPRECICE_NO_MPI", "-DPRECICE_NO_PETSC", "-DPRECICE_NO_PYTHON", "-DPRECICE_NO_GINKGO", "-DPRECICE_NO_KOKKOS_KERNELS",
        "-DBOOST_ALL_DYN_LINK", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE",
        "-D_GNU_SOURCE", "-DFMT_HEADER_ONLY=1", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
OVERLAYS = ["logging/LogMacros.hpp", "utils/assertion.hpp", "com/SocketCommunication.hpp", "com/MPIPortsCommunication.hpp"]
INCS = ["-ivfsoverlay", B + "/gen/overlay.yaml", "-I" + B + "/gen", "-I" + REPO + "/src", "-I" + REPO + "/thirdparty/fmt/include",
        "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/libxml2"]
CODE = ["-std=c++17", "-O1", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-Wno-everything", "-fPIE"]
PLUGIN = B + "/sympass.so"
EXCLUDE = re.compile(r"^src/(com/(MPI|Socket).*|logging/[A-Za-z]*\.cpp|profiling/(Event|EventUtils)\.cpp|io/TXTTableWriter\.cpp)")

# compiled as with MPI: these parts exist only then, though serial runs of them make no use of MPI
MPI_ONLY = re.compile(r"^src/acceleration/(IQNIMVJAcceleration|config/AccelerationConfiguration|impl/(ParallelMatrixOperations|SVDFactorization))\.cpp$")
MPI_INCLUDE = "/usr/lib/x86_64-linux-gnu/openmpi/include"

_sha = {}
_lock = threading.Lock()


class BuildError(Exception):
    pass


def sha_file(p):
    with _lock:
        if p in _sha:
            return _sha[p]
    try:
        with open(p, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _sha[p] = h
    return h


def sha(s):
    return hashlib.sha1(s.encode() if isinstance(s, str) else s).hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("failed: %s ... %s\n%s" % (" ".join(cmd)[:300], " ".join(cmd)[-200:], r.stdout[-2500:]))
    return r.stdout


def gen():
    """Generated headers, made from /repo's templates (never taken from /repo's build tree)."""
    os.makedirs(B + "/gen/precice/impl", exist_ok=True)
    ver = re.search(r"project\(preCICE VERSION ([0-9.]+)", open(REPO + "/CMakeLists.txt").read(), re.I)
    ver = ver.group(1) if ver else "3.0.0"
    a, b, c = (ver.split(".") + ["0", "0"])[:3]

    def put(path, text):
        path = B + "/gen/" + path
        if not os.path.exists(path) or open(path).read() != text:
            with open(path, "w") as f:
                f.write(text)
    t = open(REPO + "/src/precice/Version.h.in").read()
    t = t.replace("@preCICE_VERSION_MAJOR@", a).replace("@preCICE_VERSION_MINOR@", b).replace("@preCICE_VERSION_PATCH@", c).replace("@preCICE_VERSION@", ver)
    put("precice/Version.h", t)
    put("precice/export.h", "#ifndef PRECICE_EXPORT\n#define PRECICE_EXPORT\n#define PRECICE_API\n#define PRECICE_NO_EXPORT\n#define PRECICE_DEPRECATED\n#define PRECICE_DEPRECATED_EXPORT\n#define PRECICE_DEPRECATED_NO_EXPORT\n#endif\n")
    put("overlay.yaml", json.dumps({"version": 0, "case-sensitive": "true", "use-external-names": True, "overlay-relative": False, "roots": [
        {"name": REPO + "/src/" + o, "type": "file", "external-contents": V + "/overlay/" + o} for o in OVERLAYS]}))
    t = open(REPO + "/src/precice/impl/versions.hpp.in").read()
    put("precice/impl/versions.hpp", re.sub(r"@\w+@", "0", t))
    put("versions.cpp", '#include "precice/impl/versions.hpp"\nconst char *const precice::preciceRevision="";\nconst char *const precice::versionInformation="";\n')


def engine():
    os.makedirs(OBJ, exist_ok=True)
    # pass plugin
    src = V + "/engine/pass.cpp"
    key = sha_file(src)
    stamp = PLUGIN + ".key"
    if not os.path.exists(PLUGIN) or not os.path.exists(stamp) or open(stamp).read() != key:
        flags = run(["llvm-config-18", "--cxxflags"]).split()
        run(["clang++", "-shared", "-fPIC", "-O1"] + flags + ["-std=c++17", "-fno-rtti", src, "-o", PLUGIN])
        open(stamp, "w").write(key)
    # runtime (not instrumented)
    src = V + "/engine/runtime.cpp"
    key = "local2" + sha_file(src) + sha_file(V + "/engine/sym.h")
    out = OBJ + "/runtime.o"
    if not os.path.exists(out) or not os.path.exists(out + ".key") or open(out + ".key").read() != key:
        # the runtime must never end up calling an instrumented copy of a library template: make its own copies local
        tmp = out + ".tmp.o"
        run(["g++", "-O2", "-g1", "-std=c++17", "-fno-strict-aliasing", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-c", src, "-o", tmp])
        run(["ld", "-r", "--force-group-allocation", tmp, "-o", tmp + "2"])
        weak = [l.split()[-1] for l in run(["nm", tmp + "2"]).splitlines() if len(l.split()) == 3 and l.split()[1] in "WVu"]
        with open(tmp + ".weak", "w") as f:
            f.write("\n".join(weak) + "\n")
        run(["objcopy", "--localize-symbols=" + tmp + ".weak", tmp + "2", out])
        open(out + ".key", "w").write(key)


def objname(src):
    rel = os.path.relpath(src, REPO) if src.startswith(REPO) else "verif/" + os.path.relpath(src, V)
    return OBJ + "/" + rel.replace("/", "__") + ".o"


def command(src, extra):
    return ["clang++"] + CODE + ["-fpass-plugin=" + PLUGIN] + DEFS + INCS + list(extra)


def track(p):
    return p.startswith(REPO) or p.startswith(V)


def compile_one(src, extra=()):
    """Returns (object path, rebuilt?)."""
    out = objname(src)
    cmd = command(src, extra)
    ck = sha(" ".join(cmd) + sha_file(V + "/engine/pass.cpp"))
    meta = out + ".json"
    old = None
    if os.path.exists(out) and os.path.exists(meta):
        try:
            old = json.load(open(meta))
        except ValueError:
            old = None
    if old and old["cmd"] == ck and all(sha_file(p) == h for p, h in old["deps"].items()):
        return out, False

    def pre():
        dep = out + ".d"
        pp = ["clang++"] + CODE[:1] + DEFS + INCS + list(extra) + ["-E", "-P", "-MD", "-MF", dep, src]
        r = subprocess.run(pp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise BuildError("preprocessing %s failed\n%s" % (src, r.stderr.decode()[-3000:]))
        text = open(dep).read().replace("\\\n", " ")
        deps = [os.path.normpath(x) for x in text.split(":", 1)[1].split()]
        return sha(r.stdout), {p: sha_file(p) for p in deps if track(p)}
    ph, deps = pre()
    if not (old and old["cmd"] == ck and old["pp"] == ph):
        tmp = out + ".tmp%d" % os.getpid()
        run(cmd + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
        fresh = True
    else:
        fresh = False
    json.dump({"cmd": ck, "pp": ph, "deps": deps}, open(meta, "w"))
    return out, fresh


def sources():
    text = open(REPO + "/src/sources.cmake").read()
    c = sorted(set(re.findall(r"src/[\w/.\-]+\.cpp", text)))
    return [REPO + "/" + s for s in c if not EXCLUDE.match(s) and os.path.exists(REPO + "/" + s)] + bindings()


def bindings():
    out = []
    for d in ("c", "fortran"):
        base = REPO + "/extras/bindings/" + d + "/src"
        if os.path.isdir(base):
            out += [base + "/" + f for f in sorted(os.listdir(base)) if f.endswith(".cpp")]
    return out


COMMON = [V + "/stubs/stubs.cpp", V + "/world/world.cpp", V + "/engine/symlib.cpp"]
WORLDX = ["-fno-access-control"]


def extra_for(src):
    if src.startswith(V):
        x = ["-fno-access-control"]
        head = open(src).read(2000)
        m = re.search(r"//\s*FLAGS:(.*)", head)
        return x + (m.group(1).replace("$REPO", REPO).split() if m else [])
    if src.startswith(REPO + "/extras/bindings/"):
        return ["-I" + REPO + "/extras/bindings/c/include", "-I" + REPO + "/extras/bindings/fortran/include"]
    if MPI_ONLY.match(os.path.relpath(src, REPO)):
        return ["-UPRECICE_NO_MPI", "-isystem", MPI_INCLUDE]
    return []


def build_many(srcs, verbose=False):
    """Compiles, biggest first; raises BuildError."""
    def weight(s):
        o = objname(s)
        try:
            return -os.path.getsize(o)
        except OSError:
            return -os.path.getsize(s) * 60
    todo = sorted(srcs, key=weight)
    res = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, s, extra_for(s)): s for s in todo}
        for f in cf.as_completed(futs):
            o, fresh = f.result()
            res[futs[f]] = (o, fresh)
            if verbose and fresh:
                print("built", os.path.relpath(futs[f], "/"), flush=True)
    return res


LIBS = ["-lz3", "-lgmpxx", "-lgmp", "-lxml2", "-lboost_filesystem", "-lboost_system", "-lboost_log", "-lboost_thread", "-lboost_program_options", "-lpthread", "-ldl"]


def link(harness_srcs, exe, verbose=False):
    """Links a harness against exactly the objects it needs, rebuilding those which are stale."""
    engine()
    gen()
    allsrc = sources()
    gensrc = [B + "/gen/versions.cpp"]
    lib = allsrc + gensrc + COMMON
    byobj = {objname(s): s for s in lib}
    manifest = exe + ".closure.json"
    need = set()
    if os.path.exists(manifest):
        need = {s for s in json.load(open(manifest)) if s in lib}
    res = build_many(list(harness_srcs) + sorted(need), verbose)
    rebuilt = any(v[1] for v in res.values())
    hobjs = [objname(s) for s in harness_srcs]
    keyfile = exe + ".key"

    def linkkey(objs):
        return sha(json.dumps([[o, json.load(open(o + ".json"))["pp"], json.load(open(o + ".json"))["cmd"]] for o in sorted(objs)]) + sha_file(V + "/engine/runtime.cpp") + sha_file(V + "/lib/build.py"))
    if os.path.exists(exe) and os.path.exists(keyfile) and need and open(keyfile).read() == linkkey(hobjs + [objname(s) for s in need]):
        return exe
    checked = set(need)
    while True:
        # objects that do not exist yet have to be built before linking
        missing = [s for s in lib if not os.path.exists(objname(s))]
        if missing:
            build_many(missing, verbose)
            checked |= set(missing)
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["clang++", "-fuse-ld=lld", "-pie", "-Wl,--trace", "-Wl,--wrap=_ZN7precice3xml17readValueSpecificERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERd", "-Wl,--wrap=_ZN7precice3xml17readValueSpecificERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERi", "-Wl,--wrap=_ZN7precice5utils12isKebabStyleESt17basic_string_viewIcSt11char_traitsIcEE", "-Wl,--threads=4", "-o", tmp] + hobjs + [OBJ + "/runtime.o", "-Wl,--start-lib"] + \
              [objname(s) for s in lib] + ["-Wl,--end-lib"] + LIBS
        try:
            out = run(cmd)
        except BuildError:
            if set(lib) <= checked:
                raise
            # a new symbol may live in an object that is stale but was not known to be needed
            build_many(lib, verbose)
            checked = set(lib)
            out = run(cmd)
        used = {byobj[l.strip()] for l in out.splitlines() if l.strip() in byobj}
        stale = used - checked
        if not stale:
            os.rename(tmp, exe)
            break
        build_many(sorted(stale), verbose)
        checked |= stale
    json.dump(sorted(used), open(manifest, "w"))
    open(keyfile, "w").write(linkkey(hobjs + [objname(s) for s in used]))
    return exe


if __name__ == "__main__":
    t = time.time()
    engine()
    gen()
    if len(sys.argv) > 1 and sys.argv[1] == "all":
        build_many(sources() + [B + "/gen/versions.cpp"] + COMMON, True)
    else:
        print(link([os.path.abspath(a) for a in sys.argv[2:]], os.path.abspath(sys.argv[1]), True))
    print("%.1f s" % (time.time() - t))
