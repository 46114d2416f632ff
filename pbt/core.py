"""Campaign runner shared by all checks.

A property is a `Prop` subclass: it says how cases are generated (`enum`: a
deterministic enumeration; `strategies`: Hypothesis strategies) and how one
case - a plain JSON value - is judged (`run`).  `run` returns
(nontrivial, labels) when the case holds and raises `Violation` when it does
not.  Everything else - seeding, sharding over worker processes, counting,
shrinking, replay files, evidence, exit codes - lives here.
"""
import ast
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("H800_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("VERIF_WORKERS", "6"))

CASE_ALARM = 30.0       # CPU seconds before a case is re-run, counting steps
STEP_BUDGET = 60_000_000    # lines of the code under test that are too many
OUTPUT_BUDGET = 30_000_000  # characters printed in one case
MEMORY = 4 << 30            # bytes per worker
SHRINK_SECONDS = 45.0
SOFT_LIMIT = {"quick": 240.0, "thorough": 3000.0}


class Violation(Exception):
    """The code under test broke the property on this case.  `case` may give
    a smaller case that breaks it in the same way."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.case = case


class HarnessError(Exception):
    """The harness itself could not do its job."""


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Prop:
    id = ""
    title = ""
    rule = ""                   # how cases are made / what is non-trivial
    modules = ()                # modules of the code under test to preload
    examples = {"quick": 150, "thorough": 3000}     # per worker and strategy
    assumptions = []
    exhaustive_note = None      # set when enum() covers a finite space whole
    shrink_keys = ("ops",)

    def strategies(self, tier):
        "[(name, strategy, share)]; share scales the number of examples."
        return []

    def enum(self, tier, seed):
        "Deterministic stream of cases."
        return ()

    def run(self, case):
        raise NotImplementedError

    def finish(self, report):
        "Hook run once in the parent after a clean campaign."


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_raises(exc, fn, what):
    "fn() must raise exc (any other outcome is a violation)."
    try:
        res = fn()
    except exc as e:
        return e
    except Exception as e:
        raise Violation("%s: expected %s, got %s: %s" % (
            what, getattr(exc, "__name__", exc), type(e).__name__, e))
    raise Violation("%s: accepted (result %r)" % (what, res))


# --------------------------------------------------------------------------
# Code under test

def load_repo():
    """Put the working tree of the code under test on the path, ignoring any
    stale byte code beside it."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(),
                                      "no-such-pycache-%d" % os.getpid())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)
    import warnings
    warnings.simplefilter("ignore")
    import h800
    where = os.path.abspath(os.path.dirname(h800.__file__))
    if where != os.path.join(os.path.abspath(REPO), "h800"):
        raise HarnessError("h800 imported from %s" % where)


def mod(name):
    "A module of the code under test."
    return importlib.import_module(name)


def _const(node):
    "Value of a constant integer expression, or None."
    if isinstance(node, ast.Constant):
        v = node.value
        return v if type(v) is int and abs(v) < 1 << 80 else None
    if isinstance(node, ast.BinOp):
        a, b = _const(node.left), _const(node.right)
        if a is None or b is None:
            return None
        if isinstance(node.op, ast.Add):
            return a + b
        if isinstance(node.op, ast.Sub):
            return a - b
        if isinstance(node.op, ast.Mult):
            return a * b
        if isinstance(node.op, ast.Pow) and 0 <= b <= 80 and abs(a) <= 64:
            return a ** b
        if isinstance(node.op, ast.LShift) and 0 <= b <= 80:
            return a << b
    return None


_DICT = None


def dictionary():
    """Integer and short string literals occurring in the code under test;
    they seed the generators the way a fuzzing dictionary does."""
    global _DICT
    if _DICT is not None:
        return _DICT
    ints, strs = set(), set()
    for sub in ("h800", "tools"):
        d = os.path.join(REPO, sub)
        for name in sorted(os.listdir(d)):
            if not name.endswith(".py") or name.endswith("_test.py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, name), "rb").read())
            except SyntaxError:
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 16 and \
                            v.isprintable() and v.isascii():
                        strs.add(v)
                elif isinstance(node, ast.BinOp):
                    v = _const(node)
                    if v is not None and abs(v) < 1 << 80:
                        ints.add(v)
    near = set()
    for v in ints:
        near.update((v - 1, v, v + 1))
    _DICT = (sorted(near), sorted(strs))
    return _DICT


def dict_ints(lo, hi):
    return [v for v in dictionary()[0] if lo <= v <= hi] or [lo]


# --------------------------------------------------------------------------
# Running one case

def _key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _hash(case):
    return int.from_bytes(hashlib.blake2b(_key(case).encode(),
                                          digest_size=8).digest(), "big")


def _in_repo(tb):
    root = os.path.abspath(REPO) + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


class Output(io.StringIO):
    "Collects what is printed, up to a limit."
    size = 0

    def write(self, s):
        self.size += len(s)
        if self.size > OUTPUT_BUDGET:
            raise Violation("endless output, the last of it %r" % s[-80:])
        return super().write(s)


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


class Stream(io.TextIOBase):
    """A standard stream that stays the same object while what it leads to
    changes, so that code may keep a reference to it."""
    encoding = "utf-8"

    def __init__(self):
        self.target = _Sink()

    def write(self, s):
        return self.target.write(s)

    def writable(self):
        return True


STDOUT, STDERR = Stream(), Stream()


def _run_raw(prop, case):
    try:
        if any(n.startswith("/@@/") for n in [
                *(case.get("files") or ()), case.get("name") or ""]):
            from .sandbox import expand
            case = expand(case)
        return prop.run(case)
    except (Violation, HarnessError):
        raise
    except (CaseTimeout, StepBudget):
        raise
    except BaseException as e:          # incl. SystemExit from the code
        if isinstance(e, KeyboardInterrupt):
            raise
        if isinstance(e, (OSError, MemoryError)) and \
                not _in_repo(e.__traceback__):
            raise HarnessError("%s: %s" % (type(e).__name__, e)) from e
        mod = type(e).__module__ or ""
        if mod.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.lineno)
                          for f in tb[-3:])
        raise Violation("unexpected %s: %s (at %s)" % (
            type(e).__name__, e, where)) from e


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_stepped(prop, case):
    "Decide a slow case deterministically: does it exceed the step budget?"
    count = 0
    repo = os.path.join(os.path.abspath(REPO), "")

    def step(frame, event, arg):
        nonlocal count
        if event == "line":
            count += 1
            if count > STEP_BUDGET:
                raise StepBudget()
        return step

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(repo):
            return step
    sys.settrace(tracer)
    try:
        return _run_raw(prop, case)
    except StepBudget:
        raise Violation("did not finish within %d steps" % STEP_BUDGET)
    finally:
        sys.settrace(None)


def execute(prop, case):
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_ALARM)
    try:
        return _run_raw(prop, case)
    except CaseTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return _run_stepped(prop, case)


# --------------------------------------------------------------------------
# Worker

class Stop(Exception):
    pass


class Worker:
    def __init__(self, prop, tier, seed, index, nworkers):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.index, self.nworkers = index, nworkers
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.by_source = {}
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.truncated = False
        self.failure = None         # (case, message, source)
        self.fail_time = None

    def over_time(self):
        return time.monotonic() - self.t0 > SOFT_LIMIT[self.tier]

    def account(self, case, res, source):
        self.evaluations += 1
        self.by_source[source] = self.by_source.get(source, 0) + 1
        nontrivial, labels = res if res is not None else (True, ())
        for lab in labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if nontrivial:
            n = len(self.nontrivial)
            self.nontrivial.add(_hash(case))
            if len(self.nontrivial) > n:
                k = len(self.nontrivial)
                if k in (1, 7, 40, 200, 1000):
                    text = _key(case)
                    self.samples.append(text if len(text) <= 1500
                                        else text[:1500] + "...")

    def note_failure(self, case, msg, source):
        if self.failure is None or \
                len(_key(case)) <= len(_key(self.failure[0])):
            self.failure = (case, msg, source)
        if self.fail_time is None:
            self.fail_time = time.monotonic()

    # enumeration -----------------------------------------------------------
    def run_enum(self):
        for i, case in enumerate(self.prop.enum(self.tier, self.seed)):
            if i % self.nworkers != self.index:
                continue
            if self.over_time():
                self.truncated = True
                return
            try:
                res = execute(self.prop, case)
            except Violation as v:
                self.note_failure(v.case or case, str(v), "enumeration")
                self.shrink_lists()
                return
            self.account(case, res, "enumeration")

    def shrink_lists(self):
        "Delta-debug the operation lists of an enumerated failing case."
        case, msg, source = self.failure
        t_end = time.monotonic() + SHRINK_SECONDS

        def fails(c):
            try:
                execute(self.prop, c)
            except Violation as v:
                return str(v)
            return None
        if not isinstance(case, dict):
            return
        paths = []
        for key in self.prop.shrink_keys:
            v = case.get(key)
            if isinstance(v, list):
                paths.append((key,))
            elif isinstance(v, dict):
                paths += [(key, k) for k in v if isinstance(v[k], list)]

        def get(c, path):
            for k in path:
                c = c[k]
            return c

        def put(c, path, v):
            c = dict(c)
            c[path[0]] = v if len(path) == 1 else put(c[path[0]], path[1:], v)
            return c
        for path in paths:
            items = get(case, path)
            n = max(1, len(items) // 2)
            while n >= 1 and time.monotonic() < t_end:
                i, progress = 0, False
                while i < len(items) and time.monotonic() < t_end:
                    less = items[:i] + items[i + n:]
                    cand = put(case, path, less)
                    m = fails(cand)
                    if m:
                        case, items, msg, progress = cand, less, m, True
                    else:
                        i += n
                if n == 1 and not progress:
                    break
                n = max(1, n // 2) if not progress or n > 1 else 1
        self.failure = (case, msg, source)

    # Hypothesis -------------------------------------------------------------
    def run_hypothesis(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        base = self.prop.examples[self.tier]
        for n, (name, strat, share) in enumerate(
                self.prop.strategies(self.tier)):
            if self.failure or self.over_time():
                self.truncated = self.truncated or self.over_time()
                return
            cases = max(1, int(base * share))
            source = "hypothesis:" + name

            def body(case):
                if self.failure is not None:
                    # Shrinking: stop evaluating once its time is used up.
                    if time.monotonic() - self.fail_time > SHRINK_SECONDS:
                        if _key(case) == _key(self.failure[0]):
                            raise Violation(self.failure[1])
                        return
                elif self.over_time():
                    self.truncated = True
                    return
                try:
                    res = execute(self.prop, case)
                except Violation as v:
                    self.note_failure(v.case or case, str(v), source)
                    raise
                self.account(case, res, source)

            test = settings(max_examples=cases, database=None, deadline=None,
                            derandomize=False, print_blob=False,
                            report_multiple_bugs=False,
                            verbosity=Verbosity.quiet,
                            suppress_health_check=list(HealthCheck),
                            phases=(Phase.generate, Phase.shrink))(
                                given(strat)(body))
            test = hypothesis.seed(
                (self.seed * 1009 + self.index) * 31 + n)(test)
            try:
                test()
            except HarnessError:
                raise
            except BaseException:
                if self.failure is None:
                    raise
                return

    def result(self, error=None):
        return {
            "index": self.index, "evaluations": self.evaluations,
            "by_source": self.by_source, "nontrivial": self.nontrivial,
            "labels": self.labels, "samples": self.samples,
            "truncated": self.truncated, "failure": self.failure,
            "error": error,
        }


def contain():
    "No input to wait for, and no more memory than the sandbox can give."
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    os.close(null)


SCRATCH = None


def enter(scratch):
    "Work in a scratch directory."
    global SCRATCH
    os.chdir(scratch)
    SCRATCH = os.getcwd()


def _worker_main(prop_cls, tier, seed, index, nworkers, out, scratch):
    contain()
    enter(scratch)
    sys.stdout, sys.stderr = STDOUT, STDERR
    w = None
    err = None
    try:
        load_repo()
        prop = prop_cls()
        for m in prop.modules:
            importlib.import_module(m)
        w = Worker(prop, tier, seed, index, nworkers)
        w.run_enum()
        if not w.failure:
            w.run_hypothesis()
    except BaseException:
        err = traceback.format_exc()
    res = w.result(err) if w else {"index": index, "error": err,
                                   "failure": None}
    with open(out + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out + ".tmp", out)
    os._exit(0)


# --------------------------------------------------------------------------
# Parent

def _write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def run_check(prop_cls, tier, seed, known=None):
    """Run the campaign; return the exit code."""
    t0 = time.monotonic()
    pid = prop_cls.id
    nworkers = WORKERS
    scratch = tempfile.mkdtemp(prefix="h800-%s-" % pid)
    ctx = multiprocessing.get_context("fork")
    results = {}
    try:
        procs = []
        for i in range(nworkers):
            wdir = os.path.join(scratch, "w%d" % i)
            os.mkdir(wdir)
            out = os.path.join(scratch, "r%d.pickle" % i)
            p = ctx.Process(target=_worker_main, args=(
                prop_cls, tier, seed, i, nworkers, out, wdir))
            p.start()
            procs.append((p, out))
        hard = SOFT_LIMIT[tier] * 2 + 200
        grace = None
        while True:
            alive = [p for p, _ in procs if p.is_alive()]
            for i, (p, out) in enumerate(procs):
                if i not in results and os.path.exists(out):
                    with open(out, "rb") as f:
                        results[i] = pickle.load(f)
            if not alive and len(results) == len(
                    [1 for _, o in procs if os.path.exists(o)]):
                break
            now = time.monotonic()
            if grace is None and any(r["failure"] for r in results.values()):
                grace = now + 15
            if (grace and now > grace) or now - t0 > hard:
                for p in alive:
                    p.kill()
                for p in alive:
                    p.join()
                if not grace:
                    break
            time.sleep(0.05)
        return _report(prop_cls, tier, seed, nworkers, results, t0,
                       complete=grace is not None or
                       len(results) == nworkers)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _report(prop_cls, tier, seed, nworkers, results, t0, complete):
    pid = prop_cls.id
    evaluations = sum(r.get("evaluations", 0) for r in results.values())
    nontrivial = set()
    labels, by_source, samples = {}, {}, []
    for i in sorted(results):
        r = results[i]
        nontrivial |= r.get("nontrivial", set())
        for src, dst in (("labels", labels), ("by_source", by_source)):
            for k, v in r.get(src, {}).items():
                dst[k] = dst.get(k, 0) + v
        samples += r.get("samples", [])
    truncated = any(r.get("truncated") for r in results.values())
    failures = [(i, results[i]["failure"]) for i in sorted(results)
                if results[i]["failure"]]
    errors = [results[i]["error"] for i in sorted(results)
              if results[i]["error"]]
    code = 0
    replay = None
    if failures:
        # Prefer the smallest counterexample found by any worker.
        i, (case, msg, source) = min(
            failures, key=lambda f: (len(_key(f[1][0])), f[0]))
        replay = _save_replay(pid, tier, seed, nworkers, i, case, msg, source)
        code = 1
    elif errors or not complete:
        code = 2
    known = []
    if code == 0:
        known = known_lines(prop_cls)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(nontrivial),
        "rule": prop_cls.rule,
        "samples": samples[:12],
        "evaluations_by_source": by_source,
        "classes": dict(sorted(labels.items())),
        "workers": nworkers,
        "truncated_by_time": truncated,
    }
    if prop_cls.exhaustive_note:
        coverage["enumerated_completely"] = prop_cls.exhaustive_note
    _write_json(os.path.join(VERIF, "evidence", pid + ".json"), {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": list(prop_cls.assumptions),
        "violations": 1 if code == 1 else 0,
        "wall_s": round(time.monotonic() - t0, 3),
    })
    for line in known:
        print(line)
    if code == 1:
        i, (case, msg, source) = min(
            failures, key=lambda f: (len(_key(f[1][0])), f[0]))
        print("%s: %s" % (pid, msg))
        print("case: %s" % _key(case)[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif code == 2:
        print("%s: ERROR of the check itself" % pid)
        for e in errors[:2]:
            print(e)
    else:
        print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (
            pid, evaluations, len(nontrivial), time.monotonic() - t0))
    sys.stdout.flush()
    return code


_KNOWN = None


def known_ids(pid):
    "Ids of the findings listed for a property in KNOWN_FINDINGS.txt."
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = {}
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                words = line.split()
                if words and words[0] == "finding:":
                    prop = words[1].partition("=")[2]
                    _KNOWN.setdefault(prop, set()).add(
                        words[2].partition("=")[2])
    return _KNOWN.get(pid, ())


def known_lines(prop_cls):
    fn = getattr(prop_cls, "known_findings", None)
    return fn() if fn else []


def _save_replay(pid, tier, seed, nworkers, index, case, msg, source):
    path = os.path.join(VERIF, "replays", "%s-%016x.json" % (pid, _hash(case)))
    data = {"property": pid, "kind": "case", "case": case, "message": msg,
            "found_by": source, "seed": seed, "tier": tier,
            "run": "python3-vt check.py --replay " + path}
    _write_json(path, data)
    # Does the case fail on its own, in a fresh process?
    try:
        r = subprocess.run([sys.executable,
                            os.path.join(VERIF, "check.py"),
                            "--replay", path], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=120)
        alone = r.returncode == 1
    except Exception:
        alone = False
    if not alone:
        # It needs the state left by earlier cases: replay the whole shard.
        data.update(kind="campaign", worker=index, workers=nworkers)
        _write_json(path, data)
    return path


def replay(path, props):
    with open(path) as f:
        data = json.load(f)
    prop_cls = props[data["property"]]
    scratch = tempfile.mkdtemp(prefix="h800-replay-")
    here = os.getcwd()
    out, err = sys.stdout, sys.stderr
    try:
        contain()
        enter(scratch)
        sys.stdout, sys.stderr = STDOUT, STDERR
        load_repo()
        prop = prop_cls()
        msg = None
        if data["kind"] == "campaign":
            w = Worker(prop, data["tier"], data["seed"], data["worker"],
                       data["workers"])
            w.run_enum()
            if not w.failure:
                w.run_hypothesis()
            msg = w.failure[1] if w.failure else None
        else:
            try:
                execute(prop, data["case"])
            except Violation as v:
                msg = str(v)
    finally:
        sys.stdout, sys.stderr = out, err
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    if msg is not None:
        print("%s: %s" % (data["property"], msg))
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1
    print("%s: replay holds" % data["property"])
    return 0
