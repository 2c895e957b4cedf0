"""Builds what a check needs from /repo's current working tree, into /verif/_build.

Object files are keyed by a hash of the compiler flags, the source path and the content of
every file the compilation reads, so nothing stale is ever reused."""
import glob, hashlib, os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))
GV = "/opt/gfft/venv"
PYINC = "/usr/include/python3.12"
PB11 = GV + "/lib/python3.12/site-packages/pybind11/include"
OBLAS_INC = "/usr/include/x86_64-linux-gnu/openblas-pthread"
OBLAS_LIB = "/usr/lib/x86_64-linux-gnu/openblas-pthread"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class BuildError(Exception):
    pass


def _fhash(p):
    with open(p, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


_hc = {}


def _chash(p):
    if p not in _hc:
        try:
            _hc[p] = _fhash(p)
        except OSError:
            _hc[p] = "-"
    return _hc[p]


def _compile(args):
    """Objects are keyed by flags, source path and the content of every file the last compilation of it read."""
    src, flags = args
    ident = hashlib.sha256(("\0".join(flags) + "\0" + src).encode()).hexdigest()[:20]
    dep = "%s/obj/%s.deps" % (BUILD, ident)

    def key():
        with open(dep) as f:
            return hashlib.sha256("\0".join(d + _chash(d) for d in f.read().split("\n")).encode()).hexdigest()[:24]

    name = os.path.splitext(os.path.basename(src))[0]
    if os.path.exists(dep):
        o = "%s/obj/%s-%s-%s.o" % (BUILD, name, ident, key())
        if os.path.exists(o):
            return o
    cc = "gcc" if src.endswith(".c") else "g++"
    tmp = "%s/obj/%s-%d-%s" % (BUILD, name, os.getpid(), ident)
    r = subprocess.run([cc] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(d for d in txt.split(":", 1)[1].split() if d.startswith((REPO + "/", VERIF + "/"))))
    os.remove(tmp + ".d")
    with open(dep, "w") as f:
        f.write("\n".join(deps))
    o = "%s/obj/%s-%s-%s.o" % (BUILD, name, ident, key())
    os.replace(tmp + ".o", o)
    return o


def compile_all(jobs):
    """jobs: list of (src, flags). Longest first. Returns the object paths."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(_compile, jobs))


def link(objs, out, ldflags, shared=True):
    key = hashlib.sha256("\0".join(sorted(objs) + ldflags).encode()).hexdigest()
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp"
    r = subprocess.run(["g++"] + (["-shared"] if shared else []) + ["-o", tmp] + objs + ldflags, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (out, r.stdout[-4000:]))
    os.replace(tmp, out)
    with open(stamp, "w") as f:
        f.write(key)
    return out


SHIM_FLAGS = ["-std=gnu++17", "-g0", "-w", "-fPIC", "-I" + REPO + "/src", "-I" + REPO + "/src/nrlib", "-I" + OBLAS_INC,
              "-DHAS_BOOST_FILESYSTEM", "-DUSE_BOOST", "-DFLENS_FIRST_INDEX=0"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
SHIM_LD = ["-L" + OBLAS_LIB, "-lfftw3", "-lfftw3f", "-lopenblas", "-llapacke", "-lboost_filesystem", "-lboost_system"]


def nrlib_sources(mods):
    out = []
    for m in mods:
        if m == "+flens":
            out += sorted(glob.glob(REPO + "/src/flens/*.cc"))
        elif m.endswith(".cpp"):
            out.append(REPO + "/src/nrlib/" + m)
        else:
            out += sorted(glob.glob(REPO + "/src/nrlib/" + m + "/*.cpp"))
    return [s for s in out if not s.endswith("pchheader.cpp")]


def build_shim(name, mods, asan=True, opt="-O1"):
    """pybind11 module `name` from /verif/shims/name.cpp + nrlib sources."""
    extra = ASAN if asan else []
    lib = [opt, "-D_GLIBCXX_ASSERTIONS"] + SHIM_FLAGS + extra
    sh = ["-O0", "-D_GLIBCXX_ASSERTIONS", "-isystem", PYINC, "-isystem", PB11, "-I" + VERIF + "/shims",
          "-fvisibility=hidden"] + SHIM_FLAGS + extra
    jobs = [(VERIF + "/shims/" + name + ".cpp", sh + ["-DSHIM_COMMON=" + _fhash(VERIF + "/shims/common.hpp")[:8]])]
    srcs = nrlib_sources(mods)
    srcs.sort(key=lambda s: -os.path.getsize(s))
    jobs += [(s, lib) for s in srcs]
    objs = compile_all(jobs)
    return link(objs, BUILD + "/py/" + name + ".so", SHIM_LD + (["-fsanitize=address"] if asan else []))


def build_exe(name, mods):
    """Program `name` with AddressSanitizer from /verif/fuzz/name.cpp + nrlib sources, asserts off as in a release."""
    fl = ["-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"] + SHIM_FLAGS + ASAN
    srcs = nrlib_sources(mods)
    srcs.sort(key=lambda s: -os.path.getsize(s))
    objs = compile_all([(VERIF + "/fuzz/" + name + ".cpp", fl)] + [(s, fl) for s in srcs])
    return link(objs, BUILD + "/fuzz/" + name, SHIM_LD + ["-fsanitize=address"], shared=False)


EXT_SRC = ["src/gaussfftinterface.cpp", "src/gaussfft.cpp"]


def ext_sources():
    """Like the project's CMake: the nrlib sources reachable from the includes of the interface."""
    import re
    seen, todo, srcs = set(), [REPO + "/" + s for s in EXT_SRC], []
    inc = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
    while todo:
        f = todo.pop()
        f = os.path.normpath(f)
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        if f.endswith(".cpp"):
            srcs.append(f)
        txt = open(f, errors="replace").read()
        for i in inc.findall(txt):
            for base in (os.path.dirname(f), REPO + "/src"):
                p = os.path.normpath(os.path.join(base, i))
                if os.path.isfile(p):
                    todo.append(p)
                    stem = os.path.splitext(p)[0]
                    if os.path.exists(stem + ".cpp"):
                        todo.append(stem + ".cpp")
                    break
    # behind a disabled #if at the pinned commit: not part of the extension
    return sorted(x for x in set(srcs) if not x.endswith(("iotools/fileio.cpp", "surface/surfaceio.cpp")))


def build_ext():
    """The real extension module with the project's own definitions, plus a copy of the package."""
    flags = ["-O1", "-DNDEBUG", "-std=gnu++17", "-w", "-fPIC", "-fvisibility=hidden",
             '-DFLENS_FIRST_INDEX="0"', "-DVECLIB", "-D_gaussianfft_EXPORTS",
             "-I" + REPO + "/src", "-I" + GV + "/include", "-I" + GV + "/include/fftw",
             "-isystem", PYINC, "-isystem", PB11]
    srcs = ext_sources()
    srcs.sort(key=lambda s: (not s.endswith("gaussfftinterface.cpp"), not s.endswith("gaussfft.cpp"), s))
    objs = compile_all([(s, flags) for s in srcs])
    d = BUILD + "/ext"
    link(objs, d + "/_gaussianfft.so",
         ["-L" + GV + "/lib", "-Wl,--start-group", "-lmkl_intel_ilp64", "-lmkl_gnu_thread", "-lmkl_core",
          "-Wl,--end-group", "-lgomp", "-lpthread", "-lm", "-ldl", "-Wl,-rpath," + GV + "/lib"])
    pkg = d + "/gaussianfft"
    shutil.rmtree(pkg, ignore_errors=True)
    shutil.copytree(REPO + "/gaussianfft", pkg, ignore=shutil.ignore_patterns("__pycache__", "_version.py"))
    with open(pkg + "/_version.py", "w") as f:
        f.write('__version__ = version = "0.1.dev0"\n')
    return d


def build_ref():
    objs = compile_all([(VERIF + "/ref/refrng.c", ["-O2", "-fPIC", "-w"])])
    return link(objs, BUILD + "/ref/librefrng.so", ["-lm"])


def build_targets(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_ref()
        for t in targets:
            if t == "ext":
                build_ext()
            elif t != "ref" and "exe" in t:
                build_exe(t["exe"], t["mods"])
            elif t != "ref":
                build_shim(t["shim"], t["mods"], t.get("asan", True), t.get("opt", "-O1"))
        # bound the object cache
        objs = sorted(glob.glob(BUILD + "/obj/*.o"), key=os.path.getmtime)
        tot = sum(os.path.getsize(o) for o in objs)
        while objs and tot > 3 << 30:
            o = objs.pop(0)
            tot -= os.path.getsize(o)
            os.remove(o)
