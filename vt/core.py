"""Runtime-monitoring harness.

A check module (``vt/checks/cNN.py``) defines:

    PROPERTY   the property id
    RULE       how cases are made and what makes one non-trivial
    STREAMS    dict: stream name -> Stream(case_function, quick_n, thorough_n)
    NEED       counters that must be non-zero (the deciding monitors)
    ANCHORS    module names (under quickly) whose execution is reported

A case function is called with ``(rng, mon)``: ``rng`` is a
:class:`random.Random` seeded from (seed, property, stream, index) and ``mon`` a
:class:`Monitor`, on which it reports what it observed.  The case function
drives the real code in /repo, the oracles report violations with
``mon.fail(key, message, **witness)``.  An exception escaping from the case
is a violation as well (no property allows the library to fail on the
workloads the cases produce).

Exit codes: 0 held on everything observed, 1 violation, 2 inconclusive (the
monitors observed nothing) or harness error.
"""

import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

Stream = collections.namedtuple("Stream", "func quick thorough")

CPU_BUDGET = 25.0           # cpu seconds for one case before steps are counted
STEP_LIMIT = 3_000_000      # python-level steps allowed after that
SOFT_DEADLINE = {"quick": 600, "thorough": 800}   # no new cases started after
MAX_FAILS = 3


class Violation(Exception):
    def __init__(self, key, message, witness=None):
        super().__init__(message)
        self.key = key
        self.message = message
        self.witness = witness or {}


class StepLimit(BaseException):
    """Too many logical steps in a single case."""


class Monitor:
    """Collects what the monitors observed."""
    def __init__(self):
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = {}
        self.fails = []
        self.stream = None
        self.index = None
        self.known = ()
        self.matched = collections.Counter()

    def ev(self, kind, n=1):
        """Count n observations of a kind."""
        self.counts[kind] += n

    def nontrivial(self, *key):
        """Note that this case is non-trivial, distinct by key."""
        h = hashlib.blake2b(repr((self.stream,) + key).encode("utf-8", "replace"), digest_size=8).digest()
        self.distinct.add(h)

    def sample(self, value):
        """Keep the case as a sample (the first two per stream)."""
        l = self.samples.setdefault(self.stream, [])
        if len(l) < 2:
            l.append((self.index, value if len(str(value)) < 900 else str(value)[:900] + "..."))

    def fail(self, key, message, **witness):
        if key in self.known:
            # a recorded finding: count it and continue the case
            self.matched[key] += 1
            return
        raise Violation(key, message, witness)

    def check(self, cond, key, message, **witness):
        if not cond:
            self.fail(key, message, **witness)


def setup_path():
    sys.pycache_prefix = "/nonexistent/pycache"     # never read stale bytecode
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


class Reach:
    """Cheap line reach monitor over the repository code (sys.monitoring)."""
    TOOL = 3

    def __init__(self):
        self.seen = set()
        self.prefix = os.path.join(REPO, "quickly") + os.sep

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "vt-reach")
        def line(code, lineno):
            if code.co_filename.startswith(self.prefix):
                self.seen.add((code.co_filename[len(self.prefix):], lineno))
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)


class Watchdog:
    """When a case uses an exceptional amount of cpu time, start counting
    logical steps (calls, jumps), and stop the case after STEP_LIMIT."""
    TOOL = 4

    def __init__(self):
        self.steps = 0
        self.on = False

    def install(self):
        signal.signal(signal.SIGVTALRM, self.tick)

    def tick(self, sig, frame):
        if not self.on:
            self.on = True
            self.steps = 0
            m = sys.monitoring
            m.use_tool_id(self.TOOL, "vt-watchdog")
            def step(*args):
                self.steps += 1
                if self.steps > STEP_LIMIT:
                    self.stop()
                    raise StepLimit("more than {} steps".format(STEP_LIMIT))
            for e in (m.events.PY_START, m.events.JUMP, m.events.PY_RESUME):
                m.register_callback(self.TOOL, e, step)
            m.set_events(self.TOOL, m.events.PY_START | m.events.JUMP | m.events.PY_RESUME)

    def start(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET)

    def stop(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if self.on:
            self.on = False
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)


def case_rng(seed, prop, stream, index):
    h = hashlib.sha256("{}:{}:{}:{}".format(seed, prop, stream, index).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def run_case(mod, seed, stream, index, mon, dog=None):
    """Run one case; return None or a failure dict."""
    mon.stream, mon.index = stream, index
    rng = case_rng(seed, mod.PROPERTY, stream, index)
    func = mod.STREAMS[stream].func
    try:
        if dog:
            dog.start()
        try:
            func(rng, mon)
        finally:
            if dog:
                dog.stop()
    except Violation as e:
        return dict(key=e.key, message=e.message, witness=e.witness)
    except StepLimit as e:
        return dict(key="no-termination", message=str(e), witness={"traceback": traceback.format_exc()[-2500:]})
    except (Exception, RecursionError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "?"
        for f in reversed(tb):
            if os.path.join(REPO, "quickly") in f.filename:
                where = os.path.basename(f.filename) + ":" + f.name
                break
        return dict(key="exception:{}:{}".format(type(e).__name__, where),
                    message="{}: {} in {}".format(type(e).__name__, str(e)[:300], where),
                    witness={"traceback": traceback.format_exc()[-3000:]})
    return None


def worker(mod, seed, tier, w, nw, deadline, out):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(3000)
    sys.stdout = open(os.devnull, "w")      # the reader prints about unknown tokens
    mon = Monitor()
    reach = Reach()
    reach.start()
    dog = Watchdog()
    dog.install()
    fails = []
    executed = collections.Counter()
    skipped = 0
    mon.known = known = known_keys(mod.PROPERTY)
    matched = mon.matched
    for stream, s in mod.STREAMS.items():
        n = s.quick if tier == "quick" else s.thorough
        for i in range(w, n, nw):
            if time.monotonic() > deadline:
                skipped += 1
                continue
            f = run_case(mod, seed, stream, i, mon, dog)
            executed[stream] += 1
            if f:
                if f["key"] in known:
                    matched[f["key"]] += 1
                    continue
                f.update(stream=stream, index=i)
                fails.append(f)
                if len(fails) >= MAX_FAILS:
                    break
        if len(fails) >= MAX_FAILS:
            break
    pickle.dump(dict(counts=mon.counts, distinct=mon.distinct, samples=mon.samples,
                     reach=reach.seen, fails=fails, executed=executed, skipped=skipped,
                     matched=matched), out)


def known_findings(prop):
    """Yield (key, text) for the recorded (not repaired) findings."""
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property={} ".format(prop)):
                    rest = line.split(" ", 2)[2]
                    key, text = rest.split(" ", 1)
                    yield key[4:], text
    except FileNotFoundError:
        pass


def known_keys(prop):
    return {k for k, t in known_findings(prop)}


def run(prop, tier, seed):
    t0 = time.monotonic()
    mod = importlib.import_module("vt.checks." + prop.lower())
    nw = int(os.environ.get("VT_JOBS", 0)) or max(1, min(8, os.cpu_count() or 1))
    deadline = t0 + SOFT_DEADLINE[tier]
    children = []
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                with os.fdopen(wr, "wb") as out:
                    worker(mod, seed, tier, w, nw, deadline, out)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        children.append((pid, r))
    total = Monitor()
    reach, fails, executed, skipped = set(), [], collections.Counter(), 0
    matched = collections.Counter()
    broken = 0
    for pid, r in children:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data:
            broken += 1
            continue
        d = pickle.loads(data)
        total.counts.update(d["counts"])
        total.distinct |= d["distinct"]
        for k, v in d["samples"].items():
            total.samples.setdefault(k, []).extend(v)
        reach |= d["reach"]
        fails += d["fails"]
        executed.update(d["executed"])
        skipped += d["skipped"]
        matched.update(d["matched"])

    by_mod = collections.Counter(f for f, l in reach)
    if os.environ.get("VT_REACH"):      # development: see tools/unreached.py
        with open(os.environ["VT_REACH"], "wb") as f:
            pickle.dump(reach, f)
    wall = time.monotonic() - t0
    evaluations = sum(executed.values())
    missing = [k for k in getattr(mod, "NEED", ()) if not total.counts.get(k)]
    samples = []
    for stream in mod.STREAMS:
        for i, v in sorted(total.samples.get(stream, ()), key=lambda t: t[0])[:2]:
            samples.append({"stream": stream, "index": i, "case": v})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(total.distinct),
            "rule": mod.RULE,
            "samples": samples or ["(none)"],
            "cases_per_stream": dict(executed),
            "observations": dict(sorted(total.counts.items())),
            "repo_lines_executed": dict(sorted(by_mod.items())),
            "cases_not_started_deadline": skipped,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, default=repr)
        f.write("\n")
    os.replace(path + ".tmp", path)

    print("{} {} seed={}: {} cases, {} distinct non-trivial, {} observations, {} repo lines, {:.1f}s".format(
        prop, tier, seed, evaluations, len(total.distinct), sum(total.counts.values()), len(reach), wall))
    for k, v in sorted(total.counts.items()):
        print("   observed {:<42} {}".format(k, v))
    for key, text in known_findings(prop):
        print("KNOWN-FINDING: property={} {} (key={}, observed {} times in this run)".format(prop, text, key, matched[key]))
    if fails:
        fails.sort(key=lambda f: (list(mod.STREAMS).index(f["stream"]), f["index"]))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for f in fails:
            if f["key"] in seen:
                continue
            seen.add(f["key"])
            rp = os.path.join(rdir, "{}-{}-{}-{}.json".format(prop, f["stream"], seed, f["index"]))
            with open(rp, "w") as fp:
                json.dump(dict(property=prop, tier=tier, seed=seed, **f), fp, indent=1, default=repr)
            print("  [{}] stream={} index={}: {}".format(f["key"], f["stream"], f["index"], f["message"][:1500]))
            for k, v in f["witness"].items():
                print("      {} = {}".format(k, v if k == "traceback" else repr(v)[:1500]))
            print("VIOLATION property={} replay={}".format(prop, rp))
        return 1
    if broken:
        print("INCONCLUSIVE: {} worker(s) did not report".format(broken))
        return 2
    if missing or not evaluations or not total.distinct:
        print("INCONCLUSIVE: nothing observed for: {}".format(", ".join(missing) or "all"))
        return 2
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module("vt.checks." + d["property"].lower())
    mon = Monitor()
    mon.known = known_keys(mod.PROPERTY)
    sys.setrecursionlimit(3000)
    f = run_case(mod, d["seed"], d["stream"], d["index"], mon)
    if f:
        print("[{}] {}".format(f["key"], f["message"]))
        for k, v in f["witness"].items():
            print("   {} = {}".format(k, v if isinstance(v, str) else repr(v)))
        print("VIOLATION property={} replay={}".format(d["property"], path))
        return 1
    print("replay: no violation")
    return 0


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run(prop, tier, seed)
