"""Runner for generated-input checks.

A *suite* is (name, strategy, check).  The strategy (Hypothesis) draws a plain
JSON-able *case*; ``check(case, ctx)`` raises :class:`Violation` when the property
is broken on that case.  Everything the check does to disk happens inside
``ctx.dir`` -- a scratch directory which is also the current directory.
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field

import hypothesis
from hypothesis import HealthCheck, Phase, settings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    pass


class Skip(Exception):
    """Case outside the domain (counted, never a pass by accident)."""


HANG_S = 45


def _short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join(
        f"{os.path.basename(f.filename)}:{f.lineno}" for f in list(tb)[-4:][::-1]
    )


@contextlib.contextmanager
def sut(what):
    """Code under test: on a case inside the property's domain it must not fail."""
    try:
        yield
    except (Violation, Skip, Hang):
        raise
    except (Exception, SystemExit) as e:
        raise Violation(f"{what}: {type(e).__name__}: {str(e)[:300]} [{_short_tb(e)}]")


@contextlib.contextmanager
def oracle(what):
    """Reference parser at work: if it cannot parse, the file is malformed."""
    try:
        yield
    except (Violation, Skip, Hang):
        raise
    except Exception as e:
        raise Violation(
            f"{what}: not parseable by the reference parser: "
            f"{type(e).__name__}: {str(e)[:300]} [{_short_tb(e)}]"
        )


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@dataclass
class Suite:
    name: str
    strategy: object
    check: object
    quick: int = 300
    thorough: int = 0  # 0: 15x quick
    classify: object = None  # case -> (nontrivial, [labels])
    shards: int = 1  # quick shards (thorough: x4)
    hang_is_violation: bool = True
    hang_s: int = HANG_S


class Ctx:
    def __init__(self, base):
        self.base = base
        self.n = 0
        self.dir = None
        self.labels = {}

    def fresh(self):
        if self.dir:
            os.chdir(self.base)
            shutil.rmtree(self.dir, ignore_errors=True)
        self.n += 1
        self.dir = os.path.join(self.base, f"c{self.n}")
        os.mkdir(self.dir)
        os.chdir(self.dir)

    def path(self, name):
        return os.path.join(self.dir, name)

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1


_LIMIT = [0.0, 0.0, 1]  # start: processor time, wall clock; seconds allowed


def _alarm(signum, frame):
    cpu, wall = time.process_time() - _LIMIT[0], time.time() - _LIMIT[1]
    if cpu < 0.7 * _LIMIT[2] and wall < 6 * _LIMIT[2]:  # the machine is busy
        signal.alarm(5)
        return
    raise Hang()


def run_case(suite, case, ctx):
    """-> None (held) or message; raises on harness error."""
    ctx.fresh()
    signal.signal(signal.SIGALRM, _alarm)
    _LIMIT[:] = [time.process_time(), time.time(), suite.hang_s]
    signal.alarm(suite.hang_s)
    try:
        suite.check(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Hang as e:
        msg = f"no result after {suite.hang_s}s on a tiny input [{_short_tb(e)}]"
        if suite.hang_is_violation:
            return msg
        raise RuntimeError(msg)
    except (Skip, MemoryError):
        raise
    except Exception as e:
        # the check could not even digest what the code under test returned
        return f"unusable result: {type(e).__name__}: {str(e)[:300]} [{_short_tb(e)}]"
    finally:
        signal.alarm(0)


def seed_for(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "little")


def case_key(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True, default=str).encode(), digest_size=8
    ).digest()


@dataclass
class ShardResult:
    suite: str
    shard: int
    evaluations: int = 0
    skipped: int = 0
    nontrivial: set = field(default_factory=set)
    labels: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    failure: object = None  # (case, msg)
    history: list = field(default_factory=list)  # all cases up to the first failure
    error: str = ""
    stopped: bool = False
    wall: float = 0.0


SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "25"))


def run_shard(suite, prop, shard, nshards, n, seed, deadline, trace=None):
    res = ShardResult(suite.name, shard)
    t0 = time.time()
    base = tempfile.mkdtemp(prefix=f"mv-{prop}-")
    ctx = Ctx(base)
    state = {"first_fail": None, "best": None}
    history = []

    def body(case):
        if state["first_fail"] is None and time.time() > deadline:
            res.stopped = True
            return
        if state["first_fail"] is not None:
            if time.time() - state["first_fail"] > SHRINK_S:
                return
        res.evaluations += 1
        if state["first_fail"] is None:
            nt, labels = (True, []) if suite.classify is None else suite.classify(case)
            for lab in labels:
                res.labels[lab] = res.labels.get(lab, 0) + 1
            if nt:
                k = case_key(case)
                if k not in res.nontrivial:
                    res.nontrivial.add(k)
                    if len(res.samples) < 2 and len(res.nontrivial) in (1, 37):
                        res.samples.append(case)
            history.append(case)
        if trace:
            with open(trace, "w") as f:
                json.dump(case, f)
        try:
            msg = run_case(suite, case, ctx)
        except Skip:
            res.skipped += 1
            return
        if msg is not None:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
                res.history = list(history)
            size = len(json.dumps(case, default=str))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, msg)
            raise Violation(msg)

    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )(hypothesis.seed(seed)(hypothesis.given(suite.strategy)(body)))
    try:
        test()
    except BaseException as e:  # noqa: B036
        if state["best"] is None:
            res.error = "".join(traceback.format_exception(e))[-3000:]
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)
    for k, v in ctx.labels.items():
        res.labels[k] = res.labels.get(k, 0) + v
    if state["best"] is not None:
        res.failure = (state["best"][1], state["best"][2])
    res.wall = time.time() - t0
    return res


def _child(conn, suite, prop, shard, nshards, n, seed, deadline, trace=None):
    # the code under test prints; keep our own stdout clean
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    try:
        res = run_shard(suite, prop, shard, nshards, n, seed, deadline, trace)
    except BaseException as e:  # noqa: B036
        res = ShardResult(suite.name, shard)
        res.error = "".join(traceback.format_exception(e))[-3000:]
    conn.send_bytes(pickle.dumps(res))
    conn.close()
    os._exit(0)


def _replay_child(conn, suite, case):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    base = tempfile.mkdtemp(prefix="mv-replay-")
    try:
        try:
            ctx, out = Ctx(base), ("ok", None)
            for c in case["history"] if is_history(case) else [case]:
                try:
                    msg = run_case(suite, c, ctx)
                except Skip:
                    continue
                if msg is not None:
                    out = ("ok", msg)
                    break
        except BaseException as e:  # noqa: B036
            out = ("err", "".join(traceback.format_exception(e))[-3000:])
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)
    conn.send_bytes(pickle.dumps(out))
    conn.close()
    os._exit(0)


def is_history(case):
    return isinstance(case, dict) and list(case) == ["history"]


def minimise_history(suite, cases, limit=60):
    """Fewest cases which, one after another in one process, still end in a failure."""
    t0 = time.time()

    def fails(cs):
        kind, msg = replay_isolated(suite, {"history": cs})
        return msg if kind == "ok" else None

    msg = fails(cases)
    if msg is None:
        return None
    k = len(cases) // 2
    while k and time.time() - t0 < limit:
        i = 0
        while i < len(cases) - 1 and time.time() - t0 < limit:
            cut = cases[:i] + cases[min(i + k, len(cases) - 1):]
            m = fails(cut)
            if m is not None:
                cases, msg = cut, m
            else:
                i += k
        k = k // 2
    return {"history": cases}, msg


def find_crash(suite, prop, job, deadline):
    """The worker died: run it again, noting each case, and see whether the last one kills a process of its own."""
    ctx = mp.get_context("fork")
    _, i, k, n, sd = job
    fd, trace = tempfile.mkstemp(prefix="mv-trace-")
    os.close(fd)
    try:
        a, b = ctx.Pipe()
        p = ctx.Process(target=_child, args=(b, suite, prop, i, k, n, sd, deadline, trace))
        p.start()
        b.close()
        try:
            a.recv_bytes()
        except EOFError:
            pass
        p.join()
        with open(trace) as f:
            text = f.read()
        if not text:
            return None
        case = json.loads(text)
        return case if replay_isolated(suite, case)[0] == "died" else None
    finally:
        os.remove(trace)


def replay_isolated(suite, case):
    case = json.loads(json.dumps(case))
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe()
    p = ctx.Process(target=_replay_child, args=(b, suite, case))
    p.start()
    b.close()
    try:
        if a.poll(HANG_S * (10 if is_history(case) else 3)):
            out = pickle.loads(a.recv_bytes())
        else:
            out = ("err", "replay gave no answer")
    except EOFError:
        out = ("died", "the process died (crash of the interpreter)")
    p.kill()
    p.join()
    return out


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    with open(path) as f:
        doc = json.load(f)
    return [e for e in doc["findings"] if e["property"] == prop]


def run_property(prop, suites, rule, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    wall_limit = 540 if tier == "quick" else 3 * 3600
    deadline = t0 + wall_limit
    if only:
        suites = [s for s in suites if any(o in s.name for o in only)]
    by_name = {s.name: s for s in suites}
    jobs = []
    for s in suites:
        n = s.quick if tier == "quick" else (s.thorough or s.quick * 15)
        n = max(1, int(n * scale))
        k = s.shards if tier == "quick" else s.shards * 4
        for i in range(k):
            jobs.append((s, i, k, max(1, n // k), seed_for(seed, prop, s.name, i)))
    # long ones first
    jobs.sort(key=lambda j: -j[3])
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    running = {}
    results = []
    errors = []
    pending = list(jobs)
    stop = False
    while pending or running:
        while pending and len(running) < nproc and not stop:
            s, i, k, n, sd = pending.pop(0)
            a, b = ctx.Pipe()
            p = ctx.Process(target=_child, args=(b, s, prop, i, k, n, sd, deadline))
            p.start()
            b.close()
            running[a] = (p, s, (s, i, k, n, sd))
        if stop and not running:
            break
        ready = mp.connection.wait(list(running), timeout=1.0)
        for a in ready:
            p, s, job = running.pop(a)
            try:
                r = pickle.loads(a.recv_bytes())
            except EOFError:
                r = ShardResult(s.name, job[1])
                case = find_crash(s, prop, job, deadline)
                if case is None:
                    r.error = "worker died"
                else:
                    r.failure = (case, "the process died")
            p.join()
            results.append(r)
            if r.failure is not None:
                stop = True
                pending = []
            if r.error:
                errors.append((r.suite, r.error))
        if time.time() > deadline + 200:
            for a, (p, s, i) in running.items():
                p.kill()
                errors.append((s.name, "worker overran the deadline"))
            break

    # known findings: replay each one
    known_lines = []
    for e in load_known(prop):
        if only and e["suite"] not in by_name:
            continue
        s = by_name[e["suite"]]
        kind, msg = replay_isolated(s, e["case"])
        if kind == "ok" and msg is not None:
            known_lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")

    violations = []
    for r in results:
        if r.failure is None:
            continue
        case, msg = r.failure
        kind, msg2 = replay_isolated(by_name[r.suite], case)
        if kind == "died" or (kind == "ok" and msg2 is not None):
            violations.append((r.suite, case, msg2))
            continue
        # does it take the cases before it?  (state left behind by the code under test)
        hist = minimise_history(by_name[r.suite], r.history) if kind == "ok" and r.history and not violations else None
        if hist is not None:
            violations.append((r.suite, hist[0], f"after {len(hist[0]['history']) - 1} other case(s) in the same process: {hist[1]}"))
        elif not violations:
            errors.append((r.suite, f"failure did not replay: {msg} / {kind} {msg2}"))

    evaluations = sum(r.evaluations for r in results)
    nontriv = set()
    for r in results:
        nontriv |= {(r.suite, k) for k in r.nontrivial}
    labels = {}
    per_suite = {}
    for r in results:
        for k, v in r.labels.items():
            labels[k] = labels.get(k, 0) + v
        d = per_suite.setdefault(r.suite, [0, 0, 0, 0.0])
        d[0] += r.evaluations
        d[1] += len(r.nontrivial)
        d[2] += r.skipped
        d[3] = round(d[3] + r.wall, 1)
    samples = []
    for r in results:
        for c in r.samples:
            if len(samples) < 12:
                samples.append({"suite": r.suite, "case": _trim(c)})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontriv),
            "rule": rule,
            "samples": samples,
            "classes": dict(sorted(labels.items())),
            "per_suite_evaluations_nontrivial_skipped_cpu_s": per_suite,
            "stopped_by_wall_limit": any(r.stopped for r in results),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for line in known_lines:
        print(line)
    if os.environ.get("VERIF_STATS") or only:
        print(json.dumps(labels, indent=0))
        for k, v in per_suite.items():
            print(k, v)
    print(
        f"{prop}: {evaluations} cases, {len(nontriv)} distinct non-trivial, "
        f"{len(suites)} suites, {ev['wall_s']}s"
    )
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[1], default=str)))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for suite, case, msg in violations:
            tag = case_key(case).hex()
            path = os.path.join(ROOT, "replays", f"{prop}-{suite.replace('/', '_')}-{tag}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "suite": suite, "case": case, "message": msg},
                    f,
                    indent=1,
                )
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  suite {suite}: {msg}")
        return 1
    if errors:
        for s, e in errors:
            print(f"ERROR in suite {s}: {e}", file=sys.stderr)
        return 2
    return 0


def _trim(c):
    s = json.dumps(c, default=str)
    return c if len(s) < 1500 else s[:1500] + "..."
