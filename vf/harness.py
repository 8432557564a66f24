"""Runs the cases of one property's check, judges them and writes the evidence.

Verdicts are three-valued: exit 0 (held on what was observed), exit 1 with a VIOLATION line, and exit 2 (inconclusive: a
watchdog fired, the harness itself failed, or a monitor observed less than it must).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PACKAGE = os.path.join(REPO, "atoparser") + os.sep
MAX_SAMPLES = 5


class Violation(Exception):
    """The property is broken, with what was observed."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Inconclusive(Exception):
    """The run decides nothing."""


class Watchdog(BaseException):
    """Raised by the alarm; not an Exception, so no code under test swallows it by accident."""


def repo_frames(exc):
    """Whether the exception passed through a frame of the package under test, itself or as a cause."""
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(PACKAGE):
                return True
            tb = tb.tb_next
        todo += [e.__cause__, e.__context__]
    return False


class Ctx:
    """What a case may use: its random source, its parameters, counters, and fail()."""

    def __init__(self, pid, seed, tier, kind, params, scratch):
        self.pid, self.seed, self.tier, self.kind, self.params = pid, seed, tier, kind, params
        self.rng = random.Random("%s:%s:%s:%s" % (seed, pid, kind, json.dumps(params, sort_keys=True)))
        self.counters = collections.Counter()
        self.keys = set()
        self.samples = []
        self.scratch_root = scratch
        self._dirs = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, *key):
        """Record one distinct, non-trivial state or input."""
        text = repr(key).encode("utf-8", "surrogateescape")
        self.keys.add(hashlib.blake2b(text, digest_size=8).digest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text if isinstance(text, (str, dict)) else repr(text)[:600])

    def fail(self, message, key=None):
        raise Violation(message, key)

    def check(self, condition, message, *args):
        if not condition:
            raise Violation(message % args if args else message)

    def tmpdir(self):
        """A fresh directory, removed when the case ends."""
        d = tempfile.mkdtemp(prefix="case", dir=self.scratch_root)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


def _alarm(_sig, _frame):
    raise Watchdog()


def run_case(module, pid, seed, tier, kind, params, scratch, limit):
    """(verdict, message, counters, keys, samples, seconds)"""
    ctx = Ctx(pid, seed, tier, kind, params, scratch)
    start = time.monotonic()
    verdict, message, key = "held", "", None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            module.run(ctx, kind, params)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        verdict, message, key = "violated", str(e), e.key
    except Inconclusive as e:
        verdict, message = "inconclusive", str(e)
    except Watchdog if kind in getattr(module, "GIVE_UP", ()) else ():
        # A case that only makes things large: code that takes too long for it (by copying, say) is not wrong.
        ctx.count("cases_given_up_for_time")
    except Watchdog:
        verdict, message = "inconclusive", "watchdog after %d s in %s" % (limit, traceback.format_exc(limit=-4))
    except MemoryError:
        verdict, message = "inconclusive", "out of memory: " + traceback.format_exc(limit=-4)
    except (Exception, SystemExit) as e:  # pylint: disable=broad-except
        text = "".join(traceback.format_exception(e, limit=-8))
        if repo_frames(e):
            verdict, message = "violated", "unexpected %s from atoparser: %s\n%s" % (type(e).__name__, e, text)
        elif isinstance(e, (TypeError, AttributeError, KeyError, IndexError)):
            # The oracle runs through on every result of the documented kind: what it was given is of another.
            verdict, message = "violated", "a result that cannot be used as documented: %s: %s\n%s" % (type(e).__name__, e, text)
        else:
            verdict, message = "inconclusive", "harness error: " + text
    finally:
        ctx.cleanup()
    return verdict, message, key, dict(ctx.counters), ctx.keys, ctx.samples, time.monotonic() - start


CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE}


class Pool:
    """Forked workers that run one case at a time; a worker that dies decides only the case it was running."""

    def __init__(self, module, size, recycle=None):
        self.module, self.size, self.recycle = module, size, recycle
        self.workers = []
        self.ctx = multiprocessing.get_context("fork")

    def _start(self):
        ours, theirs = self.ctx.Pipe()
        process = self.ctx.Process(target=self._serve, args=(theirs,), daemon=False)
        process.start()
        theirs.close()
        return {"process": process, "pipe": ours, "job": None, "since": 0.0, "served": 0}

    def _serve(self, pipe):
        while True:
            try:
                job = pipe.recv()
            except EOFError:
                os._exit(0)
            if job is None:
                os._exit(0)
            try:
                result = run_case(self.module, *job[1:])
            except Watchdog:  # The alarm came while the case was being closed.
                result = ("inconclusive", "watchdog", None, {}, set(), [], 0.0)
            sys.stdout.flush()
            pipe.send((job[0], result))

    def run(self, jobs, deadline):
        """Yields (index, result) as cases end."""
        todo = list(reversed(jobs))
        try:
            while todo or any(w["job"] for w in self.workers):
                while todo and len(self.workers) < self.size:
                    self.workers.append(self._start())
                for w in self.workers:
                    if w["job"] is None and todo:
                        w["job"] = todo.pop()
                        w["since"] = time.monotonic()
                        w["pipe"].send(w["job"])
                busy = [w for w in self.workers if w["job"]]
                ready = multiprocessing.connection.wait(
                    [w["pipe"] for w in busy] + [w["process"].sentinel for w in busy], timeout=5)
                for w in busy:
                    if w["pipe"] in ready or w["process"].sentinel in ready:
                        yield from self._collect(w)
                    elif time.monotonic() - w["since"] > w["job"][-1] + 60:
                        job = w["job"]
                        self._drop(w)
                        yield job[0], ("inconclusive", "the worker did not react to its watchdog", None, {}, set(), [], 0.0)
                if time.monotonic() > deadline:
                    for job in [w["job"] for w in self.workers if w["job"]] + todo:
                        yield job[0], ("inconclusive", "global watchdog", None, {}, set(), [], 0.0)
                    return
        finally:
            for w in list(self.workers):
                self._drop(w)

    def _collect(self, w):
        job = w["job"]
        try:
            result = w["pipe"].recv()
        except (EOFError, OSError):
            w["process"].join(30)
            code = w["process"].exitcode
            self._drop(w)
            if code is not None and code < 0 and -code in CRASH_SIGNALS:
                yield job[0], ("violated", "the interpreter crashed with signal %d" % -code, None, {}, set(), [], 0.0)
            else:
                yield job[0], ("inconclusive", "the worker ended with %r" % code, None, {}, set(), [], 0.0)
            return
        w["job"] = None
        w["served"] += 1
        if self.recycle and w["served"] >= self.recycle:
            self._drop(w)
        yield result

    def _drop(self, w):
        self.workers.remove(w)
        if w["job"] is None:
            try:
                w["pipe"].send(None)
            except OSError:
                pass
            w["process"].join(1)
        w["pipe"].close()
        if w["process"].is_alive():
            w["process"].kill()
            w["process"].join(30)


def known_findings(pid):
    """{key: text} of the recorded, unrepaired findings."""
    out = {}
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        if line.startswith("finding: property=%s key=" % pid):
            key, _, text = line.split("key=", 1)[1].strip().partition(" ")
            out[key] = text
    return out


def write_replay(pid, seed, tier, kind, params, message):
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    tag = hashlib.blake2b(repr((seed, kind, params)).encode(), digest_size=6).hexdigest()
    path = os.path.join(folder, "%s-%s.json" % (pid, tag))
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, "kind": kind, "params": params, "observed": message,
                   "how": "bash check.sh %s --replay %s" % (pid, path)}, f, indent=1)
    return path


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("pid")
    parser.add_argument("--replay")
    parser.add_argument("--only", help="only cases of this kind")
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    parser.add_argument("--verbose", action="store_true")
    args = parser.parse_args()
    pid = args.pid
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))

    sys.path.insert(0, REPO)
    import atoparser  # The code under test, from the working tree.
    if not os.path.abspath(atoparser.__file__).startswith(PACKAGE):
        print("wrong atoparser: %s" % atoparser.__file__)
        return 2
    module = importlib.import_module("vf.checks." + pid.lower())
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    start = time.monotonic()
    try:
        if args.replay:
            spec = json.load(open(args.replay))
            result = run_case(module, pid, spec["seed"], spec["tier"], spec["kind"], spec["params"], scratch, 600)
            print(result[0], result[1])
            if result[0] == "violated":
                print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(args.replay)))
            return {"held": 0, "violated": 1}.get(result[0], 2)
        return _run_all(args, module, pid, tier, seed, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_all(args, module, pid, tier, seed, scratch, start):
    limit = getattr(module, "CASE_LIMIT", {"quick": 600, "thorough": 1800})[tier]
    deadline = start + (820 if tier == "quick" else 6 * 3600)
    jobs = []
    for i, (kind, params) in enumerate(module.cases(tier)):
        if args.only and kind != args.only:
            continue
        jobs.append((i, pid, seed, tier, kind, params, scratch, getattr(module, "GIVE_UP", {}).get(kind, limit)))
    counters, keys, samples = collections.Counter(), set(), []
    violations, problems, known = [], [], known_findings(pid)
    kinds = collections.Counter()
    times = collections.Counter()
    findings_hit = {}

    def take(index, result):
        verdict, message, key, cnt, ks, smp, secs = result
        job = by_index[index]
        counters.update(cnt)
        keys.update(ks)
        kinds[job[4]] += 1
        times[job[4]] += secs
        for s in smp:
            if len(samples) < MAX_SAMPLES or sum(1 for k, _ in samples if k == job[4]) == 0:
                samples.append((job[4], s))
        if verdict == "violated":
            if key in known:
                findings_hit[key] = known[key]
            else:
                violations.append((job, message))
        elif verdict == "inconclusive":
            problems.append((job, message))
        if args.verbose:
            print("%-12s %s %s %.2fs %s" % (verdict, job[4], json.dumps(job[5])[:100], secs, message[:200]), flush=True)

    by_index = {job[0]: job for job in jobs}
    setup = getattr(module, "setup", None)
    if setup:
        setup(scratch, tier)
    pool = Pool(module, min(args.jobs, max(1, len(jobs))), getattr(module, "TASKS_PER_CHILD", None))
    for index, result in pool.run(jobs, deadline):
        take(index, result)
        if violations:
            break
    wall = time.monotonic() - start
    for key, text in sorted(findings_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    short = []
    if not violations and not args.only:
        require = getattr(module, "REQUIRE", {})
        for name, minimum in require.items():
            if counters[name] < minimum:
                short.append("monitor counter %s is %d, needs %d" % (name, counters[name], minimum))
        if not keys or not counters["evaluations"]:
            short.append("nothing was observed")
    coverage = {
        "evaluations": counters.pop("evaluations", 0),
        "distinct_nontrivial": len(keys),
        "rule": module.RULE,
        "samples": [s for _, s in samples][:12] or ["none"],
        "cases_by_kind": dict(kinds),
        "observed": {k: counters[k] for k in sorted(counters)},
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not args.only:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": getattr(module, "LEVEL", "exploration"),
                       "coverage": coverage, "assumptions": getattr(module, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
                       "violations": len(violations)}, f, indent=1)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %.1f s" % (
        pid, tier, seed, sum(kinds.values()), coverage["evaluations"], len(keys), wall))
    if args.verbose or args.only:
        print(json.dumps(coverage["observed"]), {k: round(v, 1) for k, v in times.items()})
    if violations:
        job, message = violations[0]
        path = write_replay(pid, seed, tier, job[4], job[5], message)
        print("observed in case %s %s:\n%s" % (job[4], json.dumps(job[5]), message[:4000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for job, message in problems[:5]:
        print("INCONCLUSIVE %s: %s" % (job[4:6] if job else "", message))
    for message in short:
        print("INCONCLUSIVE " + message)
    return 2 if problems or short else 0


if __name__ == "__main__":
    # Run the imported module, not __main__, so that Violation and the rest are one class everywhere.
    from vf import harness
    sys.exit(harness.main())
