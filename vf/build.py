"""Builds potion from /repo's current working tree, outside /repo, with the flags of its own Makefile.

    build.build()            -> Paths of the default (release) build, cached by the content of the sources
    build.harness(src, ...)  -> an executable linked from a harness in /verif and the objects of that build

The cache is /verif/.build/<hash>; nothing is written to /repo.
"""
import concurrent.futures, fcntl, hashlib, os, re, shutil, subprocess, sys, time

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
JOBS = min(8, os.cpu_count() or 4)

#: the directories whose content decides what is built
PARTS = ("core", "lib", "tools")
TOP = ("Makefile", "config.mak", "dist.mak", "configure")

ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C",
       "HOME": "/tmp", "GIT_CEILING_DIRECTORIES": "/"}


class BuildError(Exception):
    pass


def _files():
    out = []
    for part in PARTS:
        for d, ds, fs in os.walk(os.path.join(REPO, part)):
            ds[:] = sorted(x for x in ds if not x.startswith("."))
            for f in sorted(fs):
                if re.search(r"\.(o|opic|os|so|a|i)$", f) or f in ("syntax.c", "config.h", "version.h"):
                    continue
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    out += [f for f in TOP if os.path.isfile(os.path.join(REPO, f))]
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        p = os.path.join(REPO, f)
        if os.path.islink(p) and not os.path.exists(p):
            continue
        h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]


def _run(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL, timeout=600, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout.decode("latin1")[-4000:]))
    return p.stdout.decode("latin1")


#: other configurations of the same sources: additional compiler flags
VARIANTS = {"": [], "gc": ["-DPOTION_GC_SCHEDULE"]}


class Paths:
    def __init__(self, root, variant=""):
        self.root = root
        self.variant = variant
        self.potion = os.path.join(root, "bin/potion")
        self.greg = os.path.join(root, "bin/greg")
        self.core = os.path.join(root, "core")
        self.lib = os.path.join(root, "lib")
        self.syntax = os.path.join(root, "core/syntax.c")

    def conf(self, key):
        m = re.search(r"^%s\s*=\s*(.*)$" % key, open(os.path.join(self.root, "config.inc")).read(), re.M)
        return m.group(1).strip() if m else ""

    def cflags(self):
        defs, dbg, warn = self.conf("DEFINES"), self.conf("DEBUGFLAGS"), self.conf("WARNINGS")
        c = self.conf("CFLAGS").replace("${DEFINES}", defs).replace("${DEBUGFLAGS}", dbg).replace("${WARNINGS}", warn)
        return c.split() + ["-w"] + VARIANTS[self.variant]


def core_sources(root):
    mk = open(os.path.join(root, "Makefile")).read()
    m = re.search(r"^SRC = (.*)$", mk, re.M)
    src = m.group(1).split()
    for extra in ("core/callcc.c", "core/file.c", "core/load.c", "core/vm-x86.c"):
        if extra not in src:
            src.append(extra)
    return src


def _compile_all(p, jobs):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda c: _run(c, p.root), jobs))


def _make(root, variant):
    p = Paths(root, variant)
    for f in _files():
        s, d = os.path.join(REPO, f), os.path.join(root, f)
        if not os.path.exists(s):
            continue
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(s, d)
        shutil.copymode(s, d)
    os.makedirs(os.path.join(root, "bin"), exist_ok=True)
    _run(["make", "CC=clang", "AR=ar", "-f", "config.mak", "config"], root)
    inc = ["-I" + p.core, "-I/usr/local/include"]
    flags = p.cflags()
    src = core_sources(root)
    t = "tools/"

    def cc(s, o, extra=()):
        e = list(extra)
        if s in ("core/callcc.c",):
            e += ["-O0", "-fno-omit-frame-pointer"]
        if s == "core/potion.c":
            e += ["-O0"]
        return ["clang", "-c", "-fPIC"] + flags + e + inc + ["-o", o, s]

    # greg twice, as upstream bootstraps it: from the checked-in greg.c, then from greg.y
    def greg():
        g = ["-O3", "-DNDEBUG", "-w", "-Itools"]
        _run(["clang"] + g + ["-o", "bin/greg0", t + "greg.c", t + "compile.c", t + "tree.c"], root)
        with open(os.path.join(root, "tools/greg-new.c"), "wb") as f:
            r = subprocess.run([os.path.join(root, "bin/greg0"), "tools/greg.y"], cwd=root, stdout=f, stderr=subprocess.PIPE, env=ENV, timeout=120)
        if r.returncode:
            raise BuildError("greg tools/greg.y: %s" % r.stderr)
        _run(["clang"] + g + ["-o", "bin/greg", t + "greg-new.c", t + "compile.c", t + "tree.c"], root)
        os.makedirs(os.path.join(root, "core"), exist_ok=True)
        with open(p.syntax, "wb") as f:
            r = subprocess.run([p.greg, "core/syntax.y"], cwd=root, stdout=f, stderr=subprocess.PIPE, env=ENV, timeout=120)
        if r.returncode:
            raise BuildError("greg core/syntax.y: %s" % r.stderr)
        _run(cc("core/syntax.c", "core/syntax.opic"), root)

    def plug(name, srcs, libs):
        objs = []
        for s in srcs:
            o = s[:-2] + ".opic"
            _run(cc(s, o, ["-I" + os.path.join(root, "lib/readline")]), root)
            objs.append(o)
        return name, objs, libs

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fg = ex.submit(greg)
        plugs = [ex.submit(plug, "aio", ["lib/aio.c"], ["-luv", "-lpthread"]),
                 ex.submit(plug, "buffile", ["lib/buffile.c"], []),
                 ex.submit(plug, "database", ["lib/database.c"], ["-lsqlite3"]),
                 ex.submit(plug, "readline", ["lib/readline/readline.c", "lib/readline/linenoise.c"], [])]
        order = ["core/vm.c", "core/table.c", "core/compile.c", "core/vm-x86.c"]
        rest = [s for s in src if s not in order and s != "core/syntax.c"] + ["core/potion.c"]
        fs = [ex.submit(_run, cc(s, s[:-2] + ".opic"), root) for s in [x for x in order if x in src] + rest]
        for f in fs:
            f.result()
        fg.result()
        plugs = [f.result() for f in plugs]
    ld = p.conf("LDFLAGS").split()
    objs = [s[:-2] + ".opic" for s in src]
    rp = "-Wl,-rpath=" + p.lib
    _run(["clang", "-o", "lib/libpotion.so", "-shared", "-fpic"] + ld + [rp] + objs + ["-lm", "-ldl"], root)
    _run(["clang", "-o", "bin/potion", "core/potion.opic"] + ld + ["-Llib", rp, "-lpotion", "-lm", "-ldl"], root)
    _run(["ar", "rcs", "lib/libpotion-pic.a"] + objs, root)
    os.makedirs(os.path.join(root, "lib/potion"), exist_ok=True)
    for name, o, libs in plugs:
        try:
            _run(["clang", "-o", "lib/potion/%s.so" % name, "-shared", "-fpic"] + ld + [rp] + o + ["-Llib", "-lpotion"] + libs, root)
        except BuildError:
            if name != "aio":
                raise
    return p


def build(variant=""):
    os.makedirs(CACHE, exist_ok=True)
    h = tree_hash() + (variant and "-" + variant)
    root = os.path.join(CACHE, h)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(root, ".done")):
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(root)
            try:
                _make(root, variant)
            except BaseException:
                shutil.rmtree(root, ignore_errors=True)
                raise
            open(os.path.join(root, ".done"), "w").close()
            # keep the cache small
            old = sorted((d for d in os.listdir(CACHE) if d not in (h, "lock") and os.path.isdir(os.path.join(CACHE, d))),
                         key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
            for d in old[:-6]:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    return Paths(root, variant)


def harness(p, src, name=None, extra=(), libs=()):
    """Compiles /verif/harness/SRC against the objects of the build P; cached by content."""
    s = src if os.path.isabs(src) else os.path.join(VERIF, "harness", src)
    key = hashlib.sha256(open(s, "rb").read() + repr((extra, libs)).encode()).hexdigest()[:12]
    exe = os.path.join(p.root, "h-%s-%s" % (name or os.path.basename(s).split(".")[0], key))
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            _run(["clang"] + p.cflags() + list(extra) + ["-I" + p.core, "-I" + os.path.join(VERIF, "harness"), s, "-o", exe + ".tmp",
                  os.path.join(p.lib, "libpotion-pic.a"), "-lm", "-ldl", "-lpthread", "-Wl,--export-dynamic"] + list(libs), p.root)
            os.rename(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    t = time.time()
    p = build()
    build("gc")
    print(p.root, "%.1fs" % (time.time() - t))
