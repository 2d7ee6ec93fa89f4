"""Compiles /repo's C++ library and the harnesses in the variants the checks need, from the current working tree."""
import concurrent.futures, glob, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")


class BuildError(Exception):
    pass


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


VARIANTS = {
    # own OpenMP runtime (harness/gomp.cpp), optimised
    "fast": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    # AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, checked libstdc++
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-include", "pre_asan.hpp"],
    # ThreadSanitizer, with the OpenMP runtime instrumented as well
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # every memory access of the library is a possible preemption point (harness/yieldrt.cpp instead of libtsan)
    "yield": ["-O1", "-g1", "-fsanitize=thread"],
    # the Python extension module
    "python": ["-O1", "-fPIC", "-fvisibility=hidden", "-D_GLIBCXX_ASSERTIONS", "-include", "/opt/capi/include/pypy_compat.h"],
}
PYPY = "/opt/capi/pypy/bin/python"
# per harness: additional linker flags
LINK = {"ser": ["-Wl,--wrap=mmap,--wrap=munmap,--wrap=mmap64"]}
COMMON = ["-std=c++17", "-pthread", "-fopenmp", "-w", "-pipe"]


def includes():
    r = repo()
    code = r + "/capi/src/implementation/visibility_graphs/code"
    libs = r + "/capi/cpp_libs"
    return ["-I" + code, "-I" + libs + "/fmt/include", "-I" + libs + "/indicators/include", "-I" + libs + "/mio",
            "-I" + libs + "/mio/single_include", "-I/usr/include/s2", "-I" + HARNESS]


def library_sources():
    r = repo()
    code = r + "/capi/src/implementation/visibility_graphs/code"
    src = sorted(glob.glob(code + "/**/*.cpp", recursive=True))
    src = [s for s in src if "/test" not in s[len(code):]]
    if not src:
        raise BuildError("no sources under " + code)
    return src + [r + "/capi/cpp_libs/fmt/src/format.cc"]


def python_package(compiled):
    """A copy of the Python package with the module linked from the objects.  -> its top directory"""
    r = repo()
    h = hashlib.sha256("\0".join(compiled).encode())
    files = []
    for d, dirs, fs in os.walk(r + "/capi"):
        dirs[:] = sorted(x for x in dirs if x not in ("cpp_libs", "__pycache__", "code"))
        files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".py")]
    for f in files:
        h.update(f[len(r):].encode() + b"\0" + open(f, "rb").read() + b"\0")
    top = os.path.join(BUILD, "py", h.hexdigest()[:24])
    if os.path.exists(top + "/ok"):
        return top
    tmp = tempfile.mkdtemp(dir=os.path.join(BUILD, "py") if os.makedirs(os.path.join(BUILD, "py"), exist_ok=True) is None else None)
    for f in files:
        to = tmp + f[len(r):]
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copyfile(f, to)
    suffix = subprocess.run([PYPY, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True).stdout.strip()
    so = tmp + "/capi/src/implementation/visibility_graphs/_vis_graph" + suffix
    p = subprocess.run(["g++", "-shared", "-pthread"] + compiled + ["-o", so, "-Wl,--copy-dt-needed-entries", "-ls2", "-fopenmp"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("cannot link the module\n" + p.stdout[-4000:])
    open(tmp + "/ok", "w").close()
    try:
        os.rename(tmp, top)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return top


_hash_cache = {}


def headers_hash():
    r = repo()
    if r not in _hash_cache:
        h = hashlib.sha256()
        files = []
        for top in ("/capi/src/implementation/visibility_graphs/code", "/capi/cpp_libs"):
            for d, dirs, fs in os.walk(r + top):
                dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "doc", ".git"))
                files += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".ipp", ".inl", ".hxx"))]
        files += glob.glob(HARNESS + "/*.hpp")
        for f in sorted(files):
            h.update(f.encode() + b"\0" + open(f, "rb").read())
        _hash_cache[r] = h.hexdigest()
    return _hash_cache[r]


def compile_one(src, variant, extra=(), more_includes=()):
    flags = COMMON + VARIANTS[variant] + list(extra)
    key = hashlib.sha256((" ".join(flags) + headers_hash() + src).encode() + open(src, "rb").read()).hexdigest()[:32]
    out = os.path.join(BUILD, "obj", variant, os.path.basename(src) + "." + key + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    cmd = ["g++"] + flags + includes() + list(more_includes) + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("cannot compile %s\n%s" % (src, p.stdout[-4000:]))
    os.replace(tmp, out)
    return out


def prune(limit=1500 << 20):
    files = []
    for f in glob.glob(BUILD + "/**/*", recursive=True):
        try:  # another check may be at work
            if os.path.isfile(f):
                files.append((os.path.getmtime(f), os.path.getsize(f), f))
        except OSError:
            pass
    total = 0
    for _, size, f in sorted(files, reverse=True):
        total += size
        if total > limit:
            try:
                os.unlink(f)
            except OSError:
                pass


def build(targets):
    """targets: iterable of (harness source name without .cpp, variant).  Returns {(name, variant): executable}."""
    targets = sorted(set(targets))
    prune()
    pythons = [t for t in targets if t[1] == "python"]
    targets = [t for t in targets if t[1] != "python"]
    if pythons and ("pyref", "fast") not in targets:
        targets.append(("pyref", "fast"))
    jobs = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futures = {}

        def submit(src, variant):
            if (src, variant) not in futures:
                futures[src, variant] = ex.submit(compile_one, src, variant)
            return futures[src, variant]

        for name, variant in targets:
            hsrc = os.path.join(HARNESS, name + ".cpp")
            if ("h", name, variant) not in jobs:
                # harness code itself is not perturbed in the yield variant
                hv = "fast" if variant == "yield" else variant
                jobs["h", name, variant] = submit(hsrc, hv)
        if pythons:
            q = subprocess.run([PYPY, "-c", "import sysconfig, pybind11; print(sysconfig.get_paths()['include']); print(pybind11.get_include())"],
                               stdout=subprocess.PIPE, text=True).stdout.split()
            inc = ["-I" + x for x in q]
            for s in library_sources() + [repo() + "/capi/src/implementation/visibility_graphs/bindings.cpp"]:
                jobs["p", s] = ex.submit(compile_one, s, "python", (), inc)
        for variant in sorted(set(v for _, v in targets)):
            for s in library_sources():
                jobs["l", s, variant] = submit(s, "fast" if variant == "yield" and s.endswith("format.cc") else variant)
            rt = "fast" if variant == "yield" else variant
            jobs["g", variant] = submit(HARNESS + "/gomp.cpp", rt)
            if variant == "yield":
                jobs["y", variant] = submit(HARNESS + "/yieldrt.cpp", "fast")
        for j in jobs.values():
            j.result()
    exes = {}

    def link(name, variant):
        objs = [jobs["l", s, variant].result() for s in library_sources()]
        objs += [jobs["h", name, variant].result(), jobs["g", variant].result()]
        flags = [f for f in VARIANTS[variant] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        if variant == "yield":
            flags = []
        flags = flags + LINK.get(name, [])
        if variant == "yield":
            objs.append(jobs["y", variant].result())
        key = hashlib.sha256("\0".join(objs + flags).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", "%s.%s.%s" % (name, variant, key))
        if os.path.exists(out):
            os.utime(out)
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        last = ""
        for tail in ([], ["-fopenmp"]) if variant != "tsan" else ([],):
            cmd = ["g++", "-pthread", "-rdynamic"] + flags + objs + ["-o", tmp, "-Wl,--copy-dt-needed-entries", "-ls2", "-lpthread", "-ldl"] + tail
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = p.stdout
            if p.returncode == 0:
                os.replace(tmp, out)
                return out
        raise BuildError("cannot link %s\n%s" % (name, last[-4000:]))

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        fs = {t: ex.submit(link, *t) for t in targets}
        for t, f in fs.items():
            exes[t] = f.result()
    if pythons:
        top = python_package([jobs[j].result() for j in sorted(k for k in jobs if k[0] == "p")])
        for t in pythons:
            exes[t] = [PYPY, "-B", os.path.join(HARNESS, t[0] + ".py"), "--package", top, "--ref", exes["pyref", "fast"]]
    return exes


if __name__ == "__main__":
    names = sys.argv[1:] or []
    print(build([tuple(n.split(":")) for n in names]))
