"""Runs the parts of a check over generated cases on all cores, shrinks and confirms failures, writes the evidence."""
import ctypes, hashlib, importlib, json, multiprocessing as mp, os, queue, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
from . import build as B
from .choice import Choices, shrink

ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent"}
OUT_LIMIT = 8 << 20


class Hang(Exception):
    pass


class Result:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def crashed(self):
        return self.rc < 0 or self.rc >= 128

    def text(self):
        return self.out.decode("utf-8", "backslashreplace")

    def __repr__(self):
        return "rc=%d stdout=%r stderr=%r" % (self.rc, self.out[:600].decode("latin1"), self.err[:300].decode("latin1"))


class Ctx:
    """What a check uses to reach the code under test; one per worker, with a scratch directory of its own."""

    def __init__(self, paths, extra):
        self.p = paths
        self.potion = paths.potion
        self.extra = extra          # what the module's prepare() returned
        base = os.environ.get("VF_SCRATCH", "/tmp")
        self.dir = tempfile.mkdtemp(prefix="vf-", dir=base)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def fresh(self, name="d"):
        d = os.path.join(self.dir, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def write(self, name, data):
        f = os.path.join(self.dir, name)
        with open(f, "wb") as h:
            h.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
        return f

    def run(self, argv, stdin=None, cwd=None, timeout=8, env=None):
        e = ENV if env is None else dict(ENV, **env)
        for t in (timeout, 40):
            p = subprocess.Popen(argv, cwd=cwd or self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, start_new_session=True)
            try:
                out, err = p.communicate(stdin, timeout=t)
                return Result(p.returncode, out[:OUT_LIMIT], err[:OUT_LIMIT])
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.communicate()
            except BaseException:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                raise
        raise Hang("no result after 40 s: %r" % (argv[-1][:300],))

    def src(self, code, mode="-B", args=(), timeout=8, name="t.pn", opts=()):
        """runs CODE from a file"""
        f = self.write(name, code)
        return self.run([self.potion, mode] + list(opts) + [f] + list(args), timeout=timeout)


class Part:
    """One generator with its oracle.

    gen(c) -> case (JSON-able); check(ctx, case) -> None or what is wrong; nontrivial(case) -> bool
    """

    def __init__(self, name, gen, check, quick, thorough, nontrivial=None, show=None, cases=(), rule="", prio=0):
        self.name, self.gen, self.check, self.quick, self.thorough = name, gen, check, quick, thorough
        self.nontrivial = nontrivial or (lambda case: True)
        self.show = show or (lambda case: case)
        self.cases = list(cases)
        self.rule = rule


def safe_check(part, ctx, case):
    try:
        return part.check(ctx, case)
    except Hang as e:
        return "HANG: %s" % e


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except ValueError:
        pass
    try:  # the same addresses in every run
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def _worker(modname, paths, extra, seed, tasks, results, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _limits()
    mod = importlib.import_module(modname)
    parts = {p.name: p for p in mod.PARTS}
    ctx = Ctx(paths, extra)
    seen = set()
    try:
        while not stop.is_set():
            t = tasks.get()
            if t is None:
                break
            name, lo, hi, explicit = t
            part = parts[name]
            ev = nt = 0
            tags = {}
            hashes = []
            samples = []
            fail = None
            odd = []
            for i in range(lo, hi):
                if stop.is_set():
                    break
                if explicit:
                    case, taken, ctags = part.cases[i], None, {}
                else:
                    c = Choices(seed="%s/%s/%s/%d" % (seed, mod.ID, name, i))
                    case = part.gen(c)
                    taken, ctags = c.taken, c.tags
                ev += 1
                for k, v in ctags.items():
                    tags[k] = tags.get(k, 0) + v
                if part.nontrivial(case):
                    h = hashlib.blake2b(json.dumps(case, sort_keys=True, ensure_ascii=True).encode(), digest_size=8).digest()
                    hashes.append(h)
                    if len(samples) < 2 and i % 97 == 5 % 97 or explicit and i == 0:
                        samples.append(part.show(case))
                msg = safe_check(part, ctx, case)
                if msg:
                    if msg.startswith("HANG") or confirm(part, ctx, case):
                        fail = (name, i, explicit, case, taken, msg)
                        break
                    odd.append("%s/%d failed once and not again: %s" % (name, i, msg[:300]))
            results.put(("done", name, ev, hashes, tags, samples, fail, odd))
            if fail:
                break
    except BaseException:
        results.put(("error", traceback.format_exc()))
    finally:
        ctx.close()


def confirm(part, ctx, case, times=5, need=2):
    n = 0
    last = None
    for k in range(times):
        m = safe_check(part, ctx, case)
        if m:
            n += 1
            last = m
            if n >= need:
                return last
    return None


def run_cases(modname, paths, extra, tier, seed, budget):
    mod = importlib.import_module(modname)
    tasks = mp.Queue()
    results = mp.Queue()
    stop = mp.Event()
    total = 0
    jobs = []
    for part in mod.PARTS:
        if part.cases:
            for i in range(0, len(part.cases), 20):
                jobs.append((0.0, (part.name, i, min(len(part.cases), i + 20), True)))
        n = part.quick if tier == "quick" else part.thorough
        n = int(n * float(os.environ.get("VF_SCALE", "1")))
        step = max(1, min(100, n // 64))
        for i in range(0, n, step):
            jobs.append(((i + 1) / n, (part.name, i, min(n, i + step), False)))
    jobs.sort(key=lambda j: j[0])
    workers = int(os.environ.get("VF_JOBS", str(min(8, os.cpu_count() or 4))))
    for _, j in jobs:
        tasks.put(j)
    for _ in range(workers):
        tasks.put(None)
    ps = [mp.Process(target=_worker, args=(modname, paths, extra, seed, tasks, results, stop)) for _ in range(workers)]
    for p in ps:
        p.start()
    agg = {}
    fail = None
    error = None
    unconfirmed = []
    pending = len(jobs)
    done = 0
    t0 = time.monotonic()
    exhausted = False
    while done < pending:
        try:
            r = results.get(timeout=1.0)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                try:
                    r = results.get(timeout=0.5)
                except queue.Empty:
                    if not stop.is_set():
                        error = error or "a worker died"
                    break
            else:
                if budget and time.monotonic() - t0 > budget:
                    exhausted = True
                    stop.set()
                continue
        if r[0] == "error":
            error = r[1]
            stop.set()
            break
        _, name, ev, hashes, tags, samples, f, odd = r
        unconfirmed += odd
        done += 1
        a = agg.setdefault(name, {"evaluations": 0, "hashes": set(), "tags": {}, "samples": []})
        a["evaluations"] += ev
        a["hashes"].update(hashes)
        for k, v in tags.items():
            a["tags"][k] = a["tags"].get(k, 0) + v
        if len(a["samples"]) < 2:
            a["samples"] += samples[:2 - len(a["samples"])]
        if f and not fail:
            fail = f
            stop.set()
            break
        if budget and time.monotonic() - t0 > budget:
            exhausted = True
            stop.set()
            break
    stop.set()
    for p in ps:
        p.join(timeout=20)
        if p.is_alive():
            p.terminate()
            p.join(timeout=5)
            if p.is_alive():
                p.kill()
    tasks.cancel_join_thread()
    results.cancel_join_thread()
    return agg, fail, error, exhausted, unconfirmed


def load_known(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid and k.get("status") == "known"]


def write_replay(mod, part, case, msg, taken=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    f = os.path.join(d, "%s-%s.json" % (mod.ID, h))
    with open(f, "w") as o:
        json.dump({"property": mod.ID, "part": part.name, "case": case, "message": msg, "shown": part.show(case)}, o, indent=1)
    return f


def main(argv):
    pid = argv[1]
    what = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    modname = "vf.checks.%s" % pid.lower()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module(modname)
    if os.environ.get("VF_PARTS"):  # for development: only the parts named
        mod.PARTS = [p for p in mod.PARTS if p.name in os.environ["VF_PARTS"].split(",")]
    parts = {p.name: p for p in mod.PARTS}
    paths = B.build()
    tb = time.time() - t0
    extra = mod.prepare(paths) if hasattr(mod, "prepare") else None
    if what == "replay":
        _limits()
        r = json.load(open(argv[3]))
        ctx = Ctx(paths, extra)
        try:
            m = confirm(parts[r["part"]], ctx, r["case"])
        finally:
            ctx.close()
        print(m or "held")
        if m:
            print("VIOLATION property=%s replay=%s" % (mod.ID, argv[3]))
        return 1 if m else 0
    tier = what
    budget = float(os.environ.get("VF_BUDGET", "420" if tier == "quick" else "0")) or None
    agg, fail, error, exhausted, odd = run_cases(modname, paths, extra, tier, seed, budget)
    if error:
        print(error)
        return 2
    known_lines = []
    kviol = None
    rc = 0
    old = resource.getrlimit(resource.RLIMIT_AS)
    _limits()
    ctx = Ctx(paths, extra)
    violations = 0
    for o in odd:
        print("unconfirmed: " + o)
    replay = None
    try:
        for k in load_known(mod.ID):
            m = safe_check(parts[k["part"]], ctx, k["case"])
            if m:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
        if fail:
            name, i, explicit, case, taken, msg = fail
            part = parts[name]
            m = msg
            if True:
                if taken and not m.startswith("HANG"):
                    def fails(t):
                        try:
                            cs = part.gen(Choices(replay=t))
                        except Exception:
                            return False
                        try:
                            mm = safe_check(part, ctx, cs)
                        except Exception:
                            return False
                        return bool(mm) and not mm.startswith("HANG")
                    best = shrink(taken, fails, budget=float(os.environ.get("VF_SHRINK", "40")))
                    cs = part.gen(Choices(replay=best))
                    mm = confirm(part, ctx, cs)
                    if mm:
                        case, m = cs, mm
                violations = 1
                replay = write_replay(mod, part, case, m)
                print("%s/%s case %d: %s" % (mod.ID, name, i, m))
                print("shown: %s" % (json.dumps(part.show(case), ensure_ascii=True)[:1500],))
    finally:
        ctx.close()
    ev = sum(a["evaluations"] for a in agg.values())
    nt = sum(len(a["hashes"]) for a in agg.values())
    samples = []
    for name, a in agg.items():
        for s in a["samples"]:
            samples.append({"part": name, "case": s})
    evidence = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": mod.RULE,
            "samples": samples[:12],
            "parts": {n: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["hashes"]), "classes": dict(sorted(a["tags"].items()))}
                      for n, a in sorted(agg.items())},
            "stopped_by_budget": exhausted, "unconfirmed": odd[:20],
            "build_s": round(tb, 1),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % mod.ID), "w") as o:
        json.dump(evidence, o, indent=1, ensure_ascii=True)
    for l in known_lines:
        print(l)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s" % (mod.ID, tier, seed, ev, nt, time.time() - t0,
          " (budget used up)" if exhausted else ""))
    if violations:
        print("VIOLATION property=%s replay=%s" % (mod.ID, replay))
        return 1
    return 0
