"""Builds the code under test from /repo's working tree, and the harnesses.

Every build is out of tree (under /verif/.cache, git-ignored) and keyed by the
content of /repo, never by time stamps."""
import concurrent.futures, functools, hashlib, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
HARNESS = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 8

BACKENDS = {
    "nl": dict(cmake=["-DCPPDAP_USE_EXTERNAL_NLOHMANN_JSON_PACKAGE=ON"], define="CPPDAP_JSON_NLOHMANN", cflags=[], libs=[]),
    "ra": dict(cmake=["-DCPPDAP_JSON_LIBRARY=rapid", "-DCPPDAP_JSON_DIR=/usr"], define="CPPDAP_JSON_RAPID", cflags=[], libs=[]),
    "jc": dict(cmake=["-DCPPDAP_USE_EXTERNAL_JSONCPP_PACKAGE=ON"], define="CPPDAP_JSON_JSONCPP", cflags=["-I/usr/include/jsoncpp"], libs=["-ljsoncpp"]),
}
# pointer-overflow fires inside third-party rapidjson headers; vptr needs RTTI of
# types the system jsoncpp library was not instrumented for.
UBSAN = "-fsanitize=undefined -fno-sanitize=pointer-overflow,vptr -fno-sanitize-recover=undefined"
SANS = {
    "asan": f"-O0 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address {UBSAN}",
    "tsan": "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=thread",
    "fuzz": f"-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,fuzzer-no-link {UBSAN}",
}
WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock",
         "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv",
         "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "pthread_cond_clockwait", "pthread_cond_timedwait"]


class BuildError(Exception):
    pass


_locks, _locks_lock = {}, threading.Lock()
_slots = threading.Semaphore(NCPU)


def once(f):
    """Calls with the same arguments wait for one another."""
    @functools.wraps(f)
    def g(*a):
        with _locks_lock:
            l = _locks.setdefault((f.__name__,) + a, threading.Lock())
        with l:
            return f(*a)
    return g


def run(cmd, cwd=None, env=None, timeout=840):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _hash_tree(h, root, exts):
    for d, ds, fs in sorted(os.walk(root)):
        ds[:] = sorted(x for x in ds if x not in (".git", "_build", "third_party", "__pycache__"))
        for f in sorted(fs):
            if exts is None or f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass


@functools.lru_cache(None)
def repo_hash():
    h = hashlib.sha256()
    for sub in ("include", "src"):
        _hash_tree(h, os.path.join(REPO, sub), None)
    for f in ("CMakeLists.txt",):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def build_env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(CACHE, "ccache")
    e["CCACHE_MAXSIZE"] = "400M"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_BASEDIR"] = CACHE
    return e


def ccache():
    return shutil.which("ccache")


@once
def build_lib(backend, san):
    """Returns the directory with libcppdap.a for this configuration."""
    d = os.path.join(CACHE, "lib", f"{backend}-{san}")
    key = repo_hash() + hashlib.sha256((SANS[san] + repr(BACKENDS[backend])).encode()).hexdigest()[:8]
    stamp = os.path.join(d, "STAMP")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=clang++", "-DCMAKE_C_COMPILER=clang",
           "-DCMAKE_CXX_FLAGS=" + SANS[san]] + BACKENDS[backend]["cmake"]
    if ccache():
        cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=" + ccache())
    env = build_env()
    run(cmd, env=env)
    run(["ninja", "-C", d, "cppdap"], env=env)
    with open(stamp, "w") as f:
        f.write(key)
    return d


def _compile(jobs):
    """Compiles (source, object, flags) triples, up to NCPU at a time."""
    env = build_env()

    def one(j):
        src, obj, flags = j
        cmd = ([ccache()] if ccache() else []) + ["clang++", "-c"] + flags + [src, "-o", obj]
        with _slots:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return None if p.returncode == 0 else "command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:])
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        bad = [b for b in ex.map(one, jobs) if b]
    if bad:
        raise BuildError(bad[0])


def _key(san, *rest):
    h = hashlib.sha256()
    _hash_tree(h, HARNESS, None)
    h.update(repo_hash().encode())
    h.update(repr((SANS[san],) + rest).encode())
    return h.hexdigest()


def _base_flags(san):
    return ["-std=c++14", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + SANS[san].split()


@once
def build_proto(san):
    """The generated protocol visits: one set of objects for all backends."""
    from . import gen
    srcs = gen.generate()
    d = os.path.join(CACHE, "genobj", san)
    os.makedirs(d, exist_ok=True)
    objs = [os.path.join(d, os.path.basename(s) + ".o") for s in srcs]
    key = _key(san, [open(s).read() for s in srcs])
    stamp = os.path.join(d, "STAMP")
    if not (os.path.exists(stamp) and open(stamp).read() == key and all(map(os.path.exists, objs))):
        _compile([(s, o, _base_flags(san) + ["-I" + gen.OUT]) for s, o in zip(srcs, objs)])
        with open(stamp, "w") as f:
            f.write(key)
    return objs


def build_harness(name, backend, san, sources=None, wraps=(), libs=(), extra=(), proto=False):
    """Builds harness/h_<name>.cpp for this configuration; returns the binary."""
    libdir = build_lib(backend, san)
    sources = list(sources or [f"h_{name}.cpp"])
    pobjs = build_proto(san) if proto else []
    if proto:
        sources.append("codec.cpp")
    bindir = os.path.join(CACHE, "bin")
    os.makedirs(bindir, exist_ok=True)
    out = os.path.join(bindir, f"{name}-{backend}-{san}")
    key = _key(san, backend, sources, tuple(wraps), tuple(libs), tuple(extra), proto)
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    b = BACKENDS[backend]
    flags = _base_flags(san) + ["-D" + b["define"], "-I" + os.path.join(REPO, "src")] + b["cflags"] + list(extra)
    sources.append("perturb.cpp")
    jobs = [(os.path.join(HARNESS, s), out + "." + s + ".o", flags) for s in sources]
    _compile(jobs)
    objs = [j[1] for j in jobs]
    run(["clang++"] + SANS[san].split() + objs + pobjs + [os.path.join(libdir, "libcppdap.a")] + b["libs"] + list(libs) +
        ["-Wl,--wrap=" + w for w in list(WRAPS) + list(wraps)] + ["-lpthread", "-o", out])
    for o in objs:
        os.unlink(o)
    with open(stamp, "w") as f:
        f.write(key)
    return out
