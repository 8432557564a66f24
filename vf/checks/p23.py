"""P23: interrupting the package anywhere is passed on, and leaves nothing behind that changes later results."""
import contextlib
import ctypes
import gc
import gzip
import io
import itertools
import os
import random
import signal
import subprocess
import sys
import threading
import time
import traceback

import atoparser
from vf import gen, gen126, lib, model, rows
from vf.checks.p14 import state
from vf.checks.p22 import forked
from vf.harness import PACKAGE, REPO, Inconclusive, Violation

RULE = ("Every operation (header, bulk reading in all modes, single steps, conversion, 1.26 rows, the command's functions) is run "
        "once to count the points at which CPython lets an interrupt arrive in the package (entering and resuming functions, going "
        "round a loop, returning from a call; by sys.monitoring), then again and again with an exception raised at the k-th of them: every k where there are few, chosen "
        "ones where there are many, each exception type in turn. Further: exceptions raised by a real timer signal and by "
        "another thread at random moments, thrown into a waiting reader, and SIGINT to command processes. After each, the "
        "oracle looks at the exception that arrived, the samples delivered before, the stream, the process's settings and "
        "descriptors, and reads, converts and prints other logs against the model, in this and in another thread. Distinct by "
        "(operation, point, exception).")
LEVEL = "fault_enumeration"
REQUIRE = {"interrupts": 4000, "probes": 4000, "thread_probes": 300, "signals": 150, "thrown": 150, "delivered_before": 500,
           "command_interrupts": 200, "processes": 10, "async": 60,
           "first_uses": 600}
ASSUMPTIONS = ["interrupts arrive where CPython 3.12 looks for them; between other instructions none can"]
TASKS_PER_CHILD = 1  # Every case starts with a package that was loaded, but never used.
CASE_LIMIT = {"quick": 600, "thorough": 3000}


class Stop(BaseException):
    """An interrupt of nobody's type."""


class Deadline(Exception):
    """What a timeout handler raises."""


class Hang(BaseException):
    """The package does not return."""


KINDS = [KeyboardInterrupt, MemoryError, Stop, Deadline, TimeoutError, SystemExit, GeneratorExit, RecursionError, RuntimeError]


def cases(tier):
    q = tier == "quick"
    out = [("fresh", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 6)]
    out += [("read", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 12)]
    out += [("steps", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 8)]
    out += [("convert", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 12)]
    out += [("rows", {"i": i}) for i in range(2 if q else 20)]
    out += [("command", {"v": v, "i": i}) for v in (["1.26", "2.3", "2.9", "2.12"] if q else model.VERSIONS) for i in range(1 if q else 6)]
    out += [("signal", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 10)]
    out += [("throw", {"v": v}) for v in model.VERSIONS]
    out += [("async", {"i": i}) for i in range(3 if q else 30)]
    out += [("process", {"i": i}) for i in range(4 if q else 60)]
    return out


class Injector:
    """Raises an exception at the k-th point of the package (sys.monitoring)."""
    TOOL = 4

    def __init__(self):
        self.at, self.error, self.points, self.fired, self.where, self.thread = None, None, 0, False, None, None

    def _point(self, code):
        if not code.co_filename.startswith(PACKAGE):
            return sys.monitoring.DISABLE
        if self.error is None and self.at is None or threading.get_ident() != self.thread:
            return None
        self.points += 1
        if self.points == self.at and not self.fired:
            self.fired = True
            self.where = code.co_name
            raise self.error
        return None

    def _jumped(self, code, source, target):
        return self._point(code) if target < source else sys.monitoring.DISABLE

    def _returned(self, code, _offset, _function, _arg):
        if code.co_filename.startswith(PACKAGE):  # (These events cannot be switched off one by one.)
            self._point(code)

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vf-interrupt")
        e = mon.events
        mon.register_callback(self.TOOL, e.PY_START, lambda code, _a: self._point(code))
        mon.register_callback(self.TOOL, e.PY_RESUME, lambda code, _a: self._point(code))
        mon.register_callback(self.TOOL, e.JUMP, self._jumped)
        mon.register_callback(self.TOOL, e.CALL, lambda code, _a, _b, _c: None)  # (Returns are only reported together with calls.)
        mon.register_callback(self.TOOL, e.C_RETURN, self._returned)
        mon.set_events(self.TOOL, e.PY_START | e.PY_RESUME | e.JUMP | e.CALL)
        return self

    def __exit__(self, *_):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        for event in (mon.events.PY_START, mon.events.PY_RESUME, mon.events.JUMP, mon.events.CALL, mon.events.C_RETURN):
            mon.register_callback(self.TOOL, event, None)
        mon.free_tool_id(self.TOOL)

    def count(self, operation):
        """Points the operation passes."""
        self.at, self.error, self.points, self.fired, self.thread = -1, None, 0, False, threading.get_ident()
        try:
            operation()
        finally:
            self.at = None
        return self.points

    @contextlib.contextmanager
    def armed(self, at, error):
        self.at, self.error, self.points, self.fired, self.thread = at, error, 0, False, threading.get_ident()
        try:
            yield
        finally:
            self.at = self.error = None


@contextlib.contextmanager
def no_longer_than(seconds, what):
    """A hang of the package is a violation: something was left locked or half done."""
    def expired(_sig, frame):
        raise Hang("".join(traceback.format_stack(frame, 4)))
    saved = signal.signal(signal.SIGVTALRM, expired)
    try:
        before = signal.getitimer(signal.ITIMER_REAL)[0]
        start = time.monotonic()
        handler = signal.signal(signal.SIGALRM, expired)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            yield
        except Hang as e:
            raise Violation("%s: no return within %d s\n%s" % (what, seconds, e)) from None
        finally:
            signal.signal(signal.SIGALRM, handler)
            signal.setitimer(signal.ITIMER_REAL, max(0.01, before - (time.monotonic() - start)) if before else 0)
    finally:
        signal.signal(signal.SIGVTALRM, saved)


class Probe:
    """What must work as ever after an interrupt: logs of the same and of other versions, against the model."""

    def __init__(self, ctx, v):
        self.ctx = ctx
        rng = self.rng = ctx.rng
        self.logs = []
        for version in dict.fromkeys([v, rng.choice(model.VERSIONS), "1.26"]):
            log = gen126.log(rng, 1, tasks=2) if version == "1.26" else gen.tiny(rng, version, 2, 2, 2)
            lay = log.layout
            s = log.samples[0]
            want = {"header": lay.part_dict("Header", log.header), "record": lay.part_dict("Record", bytes(s.record)),
                    "tasks": [lay.part_dict("TStat", t) for t in s.tstats],
                    "groups": [lib.cgroup_dict(lay, c, pids) for c, _n, pids in s.cgroups]}
            if version == "1.26":
                want["rows"] = {f: rows.rows(f, log.header, bytes(s.record), s.sstat, s.tstats) for f in ("PRG", "CPU", "MEM")}
            self.logs.append((version, log, want))
        self.settings = None
        self.turn = 0

    def look(self, what, log, want, full):
        stream = io.BytesIO(log.data)
        header = atoparser.get_header(stream)
        out, error = lib.read_all(stream, header=header)
        if error is not None or [lib.frozen(got) for got in out] != [lib.stored(s) for s in log.samples]:
            raise Violation("%s: afterwards a %s log is read as %d samples, %r" % (what, log.version, len(out), error))
        record, sstat, tstats, cgroups = out[0]
        got = {"header": atoparser.struct_to_dict(header), "record": atoparser.struct_to_dict(record)}
        if full:
            got.update(tasks=[atoparser.struct_to_dict(t) for t in tstats], groups=[atoparser.struct_to_dict(c) for c in cgroups])
            if log.version == "1.26":
                from atoparser.parsers import atop_1_26
                got["rows"] = {f: list(getattr(atop_1_26, "parse_" + f)(header, record, sstat, tstats)) for f in want["rows"]}
        d = lib.differ(got, want if full else {k: want[k] for k in got}, order=False)
        if d:
            raise Violation("%s: afterwards a %s log is converted differently: %s" % (what, log.version, d))

    def __call__(self, what):
        self.turn += 1
        version, log, want = self.logs[self.turn % len(self.logs)]
        with no_longer_than(20, what + ", then reading a log"):
            self.look(what, log, want, self.turn % 3 == 0)
        self.ctx.count("probes")
        if self.turn % 10 == 0:
            ended = []

            def other():
                try:
                    self.look(what + " (another thread)", log, want, True)
                    ended.append(None)
                except BaseException as e:  # pylint: disable=broad-except
                    ended.append(e)
            thread = threading.Thread(target=other, daemon=True)
            thread.start()
            thread.join(20)
            if not ended:
                raise Violation("%s: another thread hangs when it then reads a log" % what)
            if ended[0] is not None:
                raise ended[0] if isinstance(ended[0], Violation) else Violation("%s: another thread then gets %r" % (what, ended[0]))
            self.ctx.count("thread_probes")

    def same_settings(self, what, before):
        for label, value in state().items():
            if label == "descriptors":  # (Those inherited from the process before may be closed by the collector.)
                value = {k: x for k, x in value.items() if before[label].get(k) != x}
                if value:
                    raise Violation("%s: new descriptors: %s" % (what, value))
            elif value != before[label]:
                raise Violation("%s: the %s changed: %s instead of %s" % (what, label, lib.short(value), lib.short(before[label])))


def judge(ctx, what, injector, error, arrived):
    """The exception that arrived at the caller is the one raised at the point."""
    if not injector.fired:
        return False
    what = "%s in %s" % (what, injector.where)
    if arrived is not error:
        raise Violation("%s: %r arrived instead of %r" % (what, arrived, error))
    ctx.count("interrupts")
    ctx.count("evaluations")
    return True


def points(ctx, total, most):
    """Which of the points to use."""
    most = most * 8 if ctx.thorough else most
    if total <= most:
        return list(range(1, total + 1))
    chosen = set(range(1, most // 4)) | {total - i for i in range(most // 8)}
    return sorted(chosen | set(ctx.rng.sample(range(1, total + 1), most - len(chosen))))


def interrupted(ctx, name, operation, probe, after=None, most=150):
    """The operation, interrupted at each of its points."""
    turn = itertools.cycle(ctx.rng.sample(KINDS, len(KINDS)))
    with Injector() as injector:
        total = injector.count(operation)
        if not total:
            raise Inconclusive("%s passes no point of the package" % name)
        probe(name)
        before = state()
        for k in points(ctx, total, most):
            error = next(turn)("stop")
            arrived = None
            result = []
            what = "%s interrupted at point %d of %d by %s" % (name, k, total, type(error).__name__)
            try:
                with no_longer_than(60, what), injector.armed(k, error):
                    operation(result)
            except Violation:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                if type(e).__name__ == "Watchdog":
                    raise
                arrived = e
            if not judge(ctx, what, injector, error, arrived):
                if arrived is not None:
                    raise Violation("%s: %r" % (what, arrived))
                continue
            if after is not None:
                after(what, result)
            error.__traceback__ = None
            arrived = error = None
            probe(what)
            probe.same_settings(what, before)
            ctx.seen(name, k, total)
        ctx.count("points_of_operations", total)


def some_log(rng, v, n=2):
    if v == "1.26":
        return gen126.log(rng, n, tasks=2)
    return gen.tiny(rng, v, n, rng.randint(0, 3), rng.randint(1, 3))


def read(ctx, v):
    rng = ctx.rng
    log = some_log(rng, v, rng.randint(1, 3))
    probe = Probe(ctx, v)
    for given, tolerant, limit in ((False, False, None), (True, True, None), (False, True, 2), (True, False, None)):
        cut = log.data if rng.random() < 0.7 else log.data[:rng.randint(log.samples[-1].offsets[1] + 1, len(log.data) - 1)]
        whole = len(log.samples) if cut is log.data else len(log.samples) - 1
        expected = whole if limit is None else min(limit, whole)
        held = {}

        def operation(result=None, given=given, tolerant=tolerant, limit=limit, cut=cut, held=held):
            result = [] if result is None else result
            stream = held["stream"] = io.BytesIO(cut)
            held["reader"] = None
            kwargs = {"raise_on_truncation": not tolerant}
            if limit is not None:
                kwargs["max_samples"] = limit
            if given:
                kwargs["header"] = atoparser.get_header(stream)
            held["reader"] = atoparser.generate_statistics(stream, **kwargs)
            try:
                for got in held["reader"]:
                    result.append(got)
            except Exception as e:  # pylint: disable=broad-except
                if lib.damage(e) and not tolerant and cut is not log.data:
                    return
                raise

        def after(what, result, held=held, expected=expected, cut=cut):
            if len(result) > expected or [lib.frozen(got) for got in result] != [lib.stored(s) for s in log.samples[:len(result)]]:
                raise Violation("%s: the %d samples delivered before are not those stored" % (what, len(result)))
            ctx.count("delivered_before", len(result))
            if held["reader"] is not None:
                with no_longer_than(20, what):
                    for got in held["reader"]:
                        raise Violation("%s: the reader goes on: %r" % (what, type(got)))
            stream = held["stream"]
            if stream.closed:
                raise Violation("%s: the stream was closed" % what)
            stream.seek(0)
            out, _ = lib.read_all(stream, raise_on_truncation=False)
            if len(out) != sum(1 for e in log.ends if e <= len(cut)):
                raise Violation("%s: the stream, read again from its start, yields %d samples" % (what, len(out)))
        interrupted(ctx, "%s bulk (header %s, tolerant %s, limit %s)" % (v, given, tolerant, limit), operation, probe, after, 120)


def steps(ctx, v):
    rng = ctx.rng
    log = some_log(rng, v, 1)
    probe = Probe(ctx, v)

    def operation(result=None):
        stream = io.BytesIO(log.data)
        header = atoparser.get_header(stream, rng.random() < 0.5)
        parts = [atoparser.get_record(stream, header)]
        parts.append(atoparser.get_sstat(stream, header, parts[0]))
        parts.append(atoparser.get_tstat(stream, header, parts[0]))
        parts.append(atoparser.get_cstat(stream, header, parts[0]) if header.CStat is not None else [])
        if result is not None:
            result.append(tuple(parts))
        _ = header.semantic_version, header.major_version
        header.check_compatibility()

    def after(what, result):
        for got in result:
            if lib.frozen(got) != lib.stored(log.samples[0]):
                raise Violation("%s: the sample read before differs" % what)
    interrupted(ctx, v + " steps", operation, probe, after, 120)


def convert(ctx, v):
    rng = ctx.rng
    log = some_log(rng, v, 1)
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    record, sstat, tstats, cgroups = next(atoparser.generate_statistics(stream, header))
    lay, s = log.layout, log.samples[0]
    probe = Probe(ctx, v)
    parts = [(header, lay.part_dict("Header", log.header)), (record, lay.part_dict("Record", bytes(s.record))),
             (sstat, lay.part_dict("SStat", s.sstat))]
    parts += [(t, lay.part_dict("TStat", raw)) for t, raw in zip(tstats[:1], s.tstats)]
    parts += [(c, lib.cgroup_dict(lay, raw, pids)) for c, (raw, _n, pids) in zip(cgroups[:1], s.cgroups)]
    for struct, want in parts:
        kept = lib.raw(struct) if isinstance(struct, ctypes.Structure) else None

        def operation(result=None, struct=struct):
            atoparser.struct_to_dict(struct)

        def after(what, _result, struct=struct, want=want, kept=kept):
            d = lib.differ(atoparser.struct_to_dict(struct), want, order=False)
            if d:
                raise Violation("%s: converted again it differs: %s" % (what, d))
            if kept is not None and lib.raw(struct) != kept:
                raise Violation("%s: the structure changed" % what)
        interrupted(ctx, "%s conversion of %s" % (v, type(struct).__name__), operation, probe, after, 40)


def parse(ctx):
    from atoparser.parsers import atop_1_26
    rng = ctx.rng
    log = gen126.log(rng, 1, tasks=3)
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    sample = next(atoparser.generate_statistics(stream, header))
    s = log.samples[0]
    probe = Probe(ctx, "1.26")
    for fmt in rows.FORMATS:
        want = rows.rows(fmt, log.header, bytes(s.record), s.sstat, s.tstats)
        parser = getattr(atop_1_26, "parse_" + fmt)

        def operation(result=None, parser=parser):
            for row in parser(header, *sample[:3]):
                if result is not None:
                    result.append(row)

        def after(what, result, want=want, parser=parser):
            d = lib.differ(result, want[:len(result)], order=False) or lib.differ(list(parser(header, *sample[:3])), want, order=False)
            if d:
                raise Violation("%s: rows differ: %s" % (what, d))
            if lib.frozen(sample) != lib.stored(s):
                raise Violation("%s: the sample changed" % what)
        if want:
            interrupted(ctx, "rows of " + fmt, operation, probe, after, 40)


def command(ctx, v):
    rng = ctx.rng
    folder = ctx.tmpdir()
    paths = []
    for i in range(2):
        log = some_log(rng, v, rng.randint(1, 2))
        path = os.path.join(folder, "f%d.log%s" % (i, rng.choice(["", ".gz"])))
        with open(path, "wb") as f:
            f.write(gzip.compress(log.data, 1) if path.endswith(".gz") else log.data)
        paths.append(path)
    probe = Probe(ctx, v)
    for options in ([], ["-p", "--tstats", "--cstats"], ["-P", "PRG", "CPU", "DSK", "--"] if v == "1.26" else ["--cstats", "--tstats"]):
        out = io.StringIO()

        def operation(result=None, options=options):
            from atoparser import reader
            text = io.StringIO()
            if result is not None:
                result.append(text)
            with contextlib.redirect_stdout(text), lib.patched_argv(["atoparser"] + options + paths):
                mine = (sys.stdout, sys.stderr, sys.stdin, sys.argv, list(sys.argv))
                try:
                    code = reader.main()
                except SystemExit as e:
                    if result is None and e.code or str(e) == "stop":
                        raise
                    code = e.code
                finally:
                    if result is not None:
                        result.append([a is b for a, b in zip((sys.stdout, sys.stderr, sys.stdin, sys.argv), mine)] + [sys.argv == mine[4]])
            if result is None:
                if code:
                    raise Inconclusive("the command failed: %r" % code)
                out.write(text.getvalue())

        def after(what, result, out=out):
            if not out.getvalue().startswith(result[0].getvalue()):
                raise Violation("%s: what was printed is not the beginning of the output: %r" % (what, result[0].getvalue()[-200:]))
            lib.json_documents(result[0].getvalue())
            if not all(result[1]):
                raise Violation("%s: the standard streams or arguments of the process are others afterwards: %s" % (what, result[1]))
            ctx.count("command_interrupts")
        interrupted(ctx, "%s command %s" % (v, options), operation, probe, after, 100)
        docs = lib.json_documents(out.getvalue())
        if len(docs) != 2:
            raise Violation("%s command %s: %d documents" % (v, options, len(docs)))


def signalled(ctx, v):
    """A real timer's handler raises, wherever the package is."""
    rng = ctx.rng
    log = gen.log(rng, v, 3, tasks=150, groups=40, style="sparse") if v != "1.26" else gen126.log(rng, 3, tasks=150)
    probe = Probe(ctx, v)
    raised = []

    def handler(_sig, frame):
        if frame.f_code.co_filename.startswith(PACKAGE):
            error = rng.choice(KINDS)("stop")
            raised.append(error)
            raise error
        # Elsewhere (in the harness) it would prove nothing.

    def whole(result):
        stream = io.BytesIO(log.data)
        header = atoparser.get_header(stream)
        for got in atoparser.generate_statistics(stream, header, raise_on_truncation=False):
            result.append(got)
            atoparser.struct_to_dict(got[0])
            for t in got[2][:30]:
                atoparser.struct_to_dict(t)
    start = time.perf_counter()
    whole([])
    span = time.perf_counter() - start
    before = state()
    for i in range(60 if not ctx.thorough else 300):
        raised.clear()
        result, arrived = [], None
        what = "%s, a signal while reading" % v
        remaining = signal.setitimer(signal.ITIMER_REAL, 0)[0]
        saved = signal.signal(signal.SIGALRM, handler)
        started = time.monotonic()
        try:
            signal.setitimer(signal.ITIMER_REAL, max(1e-6, rng.random() * span))
            try:
                whole(result)
            except BaseException as e:  # pylint: disable=broad-except
                arrived = e
            signal.setitimer(signal.ITIMER_REAL, 0)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, saved)
            signal.setitimer(signal.ITIMER_REAL, max(0.05, remaining - (time.monotonic() - started)))
        if raised:
            if arrived is not raised[0]:
                raise Violation("%s: %r arrived instead of %r" % (what, arrived, raised[0]))
            ctx.count("signals")
            ctx.count("evaluations")
            arrived.__traceback__ = None
        elif arrived is not None:
            raise Violation("%s: %r" % (what, arrived))
        for got, s in zip(result, log.samples):
            if lib.frozen(got) != lib.stored(s):
                raise Violation("%s: a sample delivered before differs" % what)
        arrived = None
        raised.clear()
        probe(what)
        probe.same_settings(what, before)
        ctx.seen(v, "signal", i)


def thrown(ctx, v):
    """Exceptions thrown into a reader that waits for the next request."""
    rng = ctx.rng
    log = some_log(rng, v, 4)
    probe = Probe(ctx, v)
    for kind in KINDS:
        for after in range(4):
            tolerant = rng.random() < 0.5
            stream = io.BytesIO(log.data)
            header = atoparser.get_header(stream) if rng.random() < 0.5 else None
            reader = atoparser.generate_statistics(stream, header, raise_on_truncation=not tolerant)
            result = [next(reader) for _ in range(after)]
            what = "%s: %s thrown into a reader after %d samples (tolerant %s)" % (v, kind.__name__, after, tolerant)
            error, arrived = kind("stop"), None
            at = stream.tell()
            try:
                reader.throw(error)
            except BaseException as e:  # pylint: disable=broad-except
                arrived = e
            if arrived is not error:
                raise Violation("%s: %r arrived" % (what, arrived))
            if next(reader, None) is not None or stream.tell() != at or stream.closed:
                raise Violation("%s: the reader goes on (stream at %d, was %d)" % (what, stream.tell(), at))
            if [lib.frozen(got) for got in result] != [lib.stored(s) for s in log.samples[:after]]:
                raise Violation("%s: the samples before differ" % what)
            if after:
                more, failed = lib.read_all(stream, header=header or atoparser.get_header(io.BytesIO(log.data)))
                if failed is not None or [lib.frozen(g) for g in more] != [lib.stored(s) for s in log.samples[after:]]:
                    raise Violation("%s: a new reader yields %d samples, %r" % (what, len(more), failed))
            ctx.count("thrown")
            ctx.count("evaluations")
            ctx.seen(v, kind.__name__, after, tolerant)
            probe(what)


def from_thread(ctx):
    """Exceptions set from another thread (as a debugger, a notebook or a thread pool does) end a reading thread."""
    rng = ctx.rng
    v = rng.choice(model.VERSIONS)
    log = gen.log(rng, v, 3, tasks=150, groups=40, style="sparse") if v != "1.26" else gen126.log(rng, 3, tasks=150)
    probe = Probe(ctx, v)
    for i in range(30):
        ended, result = [], []
        kind = rng.choice([Stop, Deadline, KeyboardInterrupt, SystemExit])
        running = threading.Event()

        def body(ended=ended, result=result, running=running):
            try:
                running.set()
                until = time.monotonic() + 60
                while time.monotonic() < until:
                    stream = io.BytesIO(log.data)
                    for got in atoparser.generate_statistics(stream, raise_on_truncation=False):
                        result.append(got)
                        atoparser.struct_to_dict(got[0])
                ended.append("all")
            except BaseException as e:  # pylint: disable=broad-except
                ended.append(e)
        thread = threading.Thread(target=body, daemon=True)
        thread.start()
        running.wait(20)
        time.sleep(rng.random() * 0.01)
        for _ in range(60):  # (It is lost when it arrives in a weak reference's callback, for one.)
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(thread.ident), ctypes.py_object(kind))
            thread.join(0.5)
            if ended or not thread.is_alive():
                break
        thread.join(60)
        what = "%s: %s set in a reading thread" % (v, kind.__name__)
        if thread.is_alive():
            raise Violation(what + ": the thread goes on for a minute")
        if not ended:
            raise Inconclusive(what + ": the thread left no ending")
        if not isinstance(ended[0], kind):
            raise Violation("%s: it ended with %r" % (what, ended[0]))
        for got, s in zip(result[-200:], itertools.cycle(log.samples[max(0, len(result) - 200) % 3:] + log.samples[:max(0, len(result) - 200) % 3])):
            if lib.frozen(got) != lib.stored(s):
                raise Violation(what + ": a sample delivered before differs")
        ctx.count("async")
        ctx.count("evaluations")
        ctx.seen("async", v, kind.__name__, len(result))
        probe(what)


def processes(ctx):
    """SIGINT and SIGTERM to the command."""
    rng = ctx.rng
    folder = ctx.tmpdir()
    v = rng.choice(model.VERSIONS)
    log = gen.tiny(rng, v, 60, 3, 3) if v != "1.26" else gen126.log(rng, 8, tasks=3)
    paths = []
    for i in range(6):
        paths.append(os.path.join(folder, "f%d" % i))
        with open(paths[-1], "wb") as f:
            f.write(log.data)
    options = rng.choice([[], ["-p"], ["--tstats", "--cstats"]])
    full = lib.cli_process(options + paths, folder)
    if full.code or len(lib.json_documents(full.out)) != 6:
        raise Violation("the command ended with %d: %s" % (full.code, full.err[-300:]))
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    for _ in range(5):
        number = rng.choice([signal.SIGINT, signal.SIGINT, signal.SIGTERM])
        path = os.path.join(folder, "out")
        with open(path, "wb") as out:
            start = time.monotonic()
            p = subprocess.Popen([sys.executable] + lib.ENTRY + options + paths, cwd=folder, env=env, stdout=out, stderr=subprocess.PIPE)
            try:
                time.sleep(rng.random() * 0.6)
                p.send_signal(number)
                err = p.communicate(timeout=120)[1].decode("utf-8", "replace")
            finally:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        took = time.monotonic() - start
        with open(path, encoding="utf-8") as f:
            text = f.read()
        what = "signal %d to the command after %.2f s" % (number, took)
        if not full.out.startswith(text):
            raise Violation("%s: what was printed is not the beginning of the output: %r" % (what, text[-200:]))
        if p.returncode == 0 and text != full.out:
            raise Violation("%s: it ended with status 0 and %d of %d characters" % (what, len(text), len(full.out)))
        if os.listdir(folder) and set(os.listdir(folder)) != {os.path.basename(x) for x in paths} | {"out"}:
            raise Violation("%s: it left files behind: %s" % (what, os.listdir(folder)))
        ctx.count("processes")
        ctx.count("processes_stopped", int(p.returncode != 0))
        ctx.count("evaluations")
        ctx.seen("process", number, p.returncode, len(text))
        ctx.sample({what: {"status": p.returncode, "characters": len(text), "stderr": err[-80:]}})


def fresh(ctx, v):
    """The very first use in a process is interrupted (each time in a child of a process that has not used the package)."""
    rng = ctx.rng
    log = some_log(rng, v, 1)
    folder = ctx.tmpdir()
    path = os.path.join(folder, "first.log")
    with open(path, "wb") as f:
        f.write(log.data)

    def use():
        stream = io.BytesIO(log.data)
        header = atoparser.get_header(stream)
        for record, _sstat, tstats, cgroups in atoparser.generate_statistics(stream, header):
            for x in [header, record] + list(tstats) + list(cgroups):
                atoparser.struct_to_dict(x)

    def parsed():
        from atoparser.parsers import atop_1_26
        stream = io.BytesIO(log.data)
        header = atoparser.get_header(stream)
        reader = atoparser.generate_statistics(stream, header)
        sample = next(reader)
        reader.close()  # (What is raised while a dropped reader is collected reaches nobody.)
        for fmt in ("PRG", "CPU", "MEM") if v == "1.26" else ():
            list(getattr(atop_1_26, "parse_" + fmt)(header, *sample[:3]))

    def printed():
        from atoparser import reader
        with contextlib.redirect_stdout(io.StringIO()):
            reader.parse_file(path, None, False, True, True)
    probe = Probe(ctx, v)
    counted = ctx.counters

    def count(operation):
        with Injector() as injector:
            return injector.count(operation)

    def child(name, operation, k, total, kind):
        def body():
            what = "%s, first %s in a process interrupted at point %d of %d by %s" % (v, name, k, total, kind.__name__)
            counted.clear()
            error, arrived = kind("stop"), None
            with Injector() as injector:
                try:
                    with no_longer_than(60, what), injector.armed(k, error):
                        operation()
                except Violation:
                    raise
                except BaseException as e:  # pylint: disable=broad-except
                    arrived = e
                fired = judge(ctx, what, injector, error, arrived)
                if not fired and arrived is not None:
                    raise Violation("%s: %r" % (what, arrived))
            error.__traceback__ = None
            probe.turn = 2 if k % 2 else 0  # (The same version's log, converted; or another one.)
            for _ in range(3):
                probe(what)
            with no_longer_than(60, what + ", then again"):
                operation()
            out = io.StringIO()
            with contextlib.redirect_stdout(out), no_longer_than(60, what + ", then the command"):
                from atoparser import reader
                reader.parse_file(path, None, False, True, True)
            want = [lib.sample_dict(log.layout, log.header, log.samples[0], True, True)] if log.layout.has_cgroups else [
                dict(lib.sample_dict(log.layout, log.header, log.samples[0], True), cgroup=[])]
            d = lib.differ(lib.json_documents(out.getvalue()), [want], order=False)
            if d:
                raise Violation("%s: the command then prints something else: %s" % (what, d))
            return dict(counted)
        return body
    for name, operation, most in (("reading", use, 60), ("parsing", parsed, 25), ("printing", printed, 25)):
        total = forked(lambda operation=operation: count(operation))
        for k in points(ctx, total, most):
            kind = rng.choice([x for x in KINDS if x not in (SystemExit, GeneratorExit)])  # (close() takes the latter for its own.)
            found = forked(child(name, operation, k, total, kind), 200)
            for label, n in found.items():
                ctx.count(label, n)
            ctx.count("first_uses")
            ctx.seen(v, "fresh", name, k)


def run(ctx, kind, p):
    if kind == "fresh":
        fresh(ctx, p["v"])
    elif kind == "read":
        read(ctx, p["v"])
    elif kind == "steps":
        steps(ctx, p["v"])
    elif kind == "convert":
        convert(ctx, p["v"])
    elif kind == "rows":
        parse(ctx)
    elif kind == "command":
        command(ctx, p["v"])
    elif kind == "signal":
        signalled(ctx, p["v"])
    elif kind == "throw":
        thrown(ctx, p["v"])
    elif kind == "async":
        from_thread(ctx)
    else:
        processes(ctx)
