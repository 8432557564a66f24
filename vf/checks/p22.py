"""P22: the cost of reading, converting and printing grows no faster than what is read."""
import contextlib
import gc
import io
import os
import pickle
import resource
import signal
import struct
import sys
import time
import traceback
import tracemalloc
import zlib

import atoparser
from vf import gen, gen126, lib, model, rows
from vf.harness import Inconclusive, Violation, repo_frames
from vf.monitors import StepBudget, StepsExceeded

RULE = ("The same operation over a log and over one sixteen times as large, along every dimension a log can grow in (tasks, "
        "cgroups, pids of one and of all cgroups, names, samples, files, bytes per block), measured three ways: executed lines "
        "and jumps of the package, cpu time, peak of traced memory. Along long streams and over thousands of logs in one "
        "process, the cost of the last against the first; the same log with small and with huge numbers; traced memory that is left of a large log of which nothing is in use any more (also after malformed and failing ones); cpu time with a million unrelated objects in the process. Distinct by (version, dimension, operation, size).")
REQUIRE = {"growth_pairs": 100, "steps_counted": 1000000, "late_costs": 10, "dropped_logs": 80, "ballast_runs": 9, "value_pairs": 100, "control_caught": 20}
ASSUMPTIONS = ["cpu time is the process's own; growth is called too fast only when it is more than four times that of the data, "
               "by more than 0.15 s, in each of three measurements"]
CASE_LIMIT = {"quick": 600, "thorough": 3000}
FACTOR = 16
SLACK = 0.15
OLD = [v for v in model.VERSIONS if not model.layout(v).has_cgroups]
NEW = [v for v in model.VERSIONS if model.layout(v).has_cgroups]


class TooSlow(Exception):
    """A measuring process used up the cpu time allowed."""


def cases(tier):
    q = tier == "quick"
    out = [("values", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 6)]
    out += [("late", {"v": v, "n": 6000 if q else 40000}) for v in model.VERSIONS]
    out += [("repeat", {"v": v, "n": 2500 if q else 20000}) for v in model.VERSIONS]
    for v in model.VERSIONS:
        out.append(("growth", {"v": v, "dim": "tasks", "n": 500}))
        out.append(("growth", {"v": v, "dim": "samples", "n": 12}))
        if not q:
            out += [("growth", {"v": v, "dim": "tasks", "n": n}) for n in (100, 2000)]
            out += [("growth", {"v": v, "dim": "samples", "n": n}) for n in (3, 50)]
    for v in NEW:
        out += [("growth", {"v": v, "dim": d, "n": n}) for d, n in (("groups", 500), ("group pids", 30000), ("all pids", 500),
                                                                  ("names", 2000), ("empty groups", 500))]
        if not q:
            out += [("growth", {"v": v, "dim": d, "n": n}) for d, n in (("groups", 3000), ("group pids", 200000), ("all pids", 2000))]
    out += [("dropped", {"v": v}) for v in model.VERSIONS]
    out += [("ballast", {"v": v}) for v in (["1.26", "2.7", "2.12"] if q else model.VERSIONS)]
    out += [("growth", {"v": v, "dim": "many files", "n": 40 if q else 150}) for v in (["2.7"] if q else ["1.26", "2.7", "2.12"])]
    out += [("growth", {"v": v, "dim": "files", "n": 4}) for v in (["1.26", "2.7", "2.12"] if q else model.VERSIONS)]
    return out


def blocks(rng, lay, n):
    """n tasks, all different and not compressible."""
    size = lay.size("TStat")
    return [rng.randbytes(size) for _ in range(n)]


def build(rng, v, dim, n):
    """A log whose size along the dimension is n."""
    lay = model.layout(v)
    if dim == "samples":
        return gen.tiny(rng, v, n, tasks=2, groups=2)
    log = gen.tiny(rng, v, 1, tasks=1, groups=1)
    s = log.samples[0]
    s.how = [{"level": 1}] * 4
    if dim == "tasks":
        s.tstats = blocks(rng, lay, n)
        for i, t in enumerate(s.tstats):  # (No NaN: the command's output would not be JSON.)
            buf = bytearray(t)
            for off in gen.floats(lay, "TStat"):
                struct.pack_into("<f", buf, off, float(i & 1023))
            s.tstats[i] = bytes(buf)
    elif dim == "groups" or dim == "empty groups" or dim == "all pids":
        s.cgroups = []
        for i in range(n):
            c = bytearray(rng.randbytes(lay.size("CStat")))
            for off in gen.floats(lay, "CStat"):
                struct.pack_into("<f", c, off, float(i & 1023))
            ln, pids = {"groups": (24, 3), "empty groups": (0, 0), "all pids": (8, 200)}[dim]
            lay.put(c, "CStat", ("gen", "structlen"), lay.size("CStat") + ln)
            lay.put(c, "CStat", ("gen", "nprocs"), pids)
            s.cgroups.append((bytes(c), b"n" * ln, list(range(i * pids, (i + 1) * pids))))
    elif dim == "group pids":
        c = bytearray(gen.blob(rng, lay, "CStat", "sparse"))
        lay.put(c, "CStat", ("gen", "structlen"), lay.size("CStat") + 8)
        lay.put(c, "CStat", ("gen", "nprocs"), n)
        s.cgroups = [(bytes(c), b"n" * 8, list(range(1, n + 1)))]
    elif dim == "names":
        s.cgroups = []
        for i in range(60):
            c = bytearray(gen.blob(rng, lay, "CStat", "sparse"))
            lay.put(c, "CStat", ("gen", "structlen"), lay.size("CStat") + n)
            lay.put(c, "CStat", ("gen", "nprocs"), 1)
            s.cgroups.append((bytes(c), rng.randbytes(n), [i]))
    log.build()
    return log


class Sink(io.TextIOBase):
    """Standard output that forgets."""
    encoding = "utf-8"

    def __init__(self):
        super().__init__()
        self.written = 0

    def writable(self):
        return True

    def write(self, text):
        self.written += len(text)
        return len(text)


def operations(dim, v, log, folder, tag):
    """{operation: function to measure}; each reads the log anew."""
    data = log.data

    def read():
        n = 0
        for _r, _s, tstats, cgroups in atoparser.generate_statistics(io.BytesIO(data)):
            n += 1 + len(tstats) + len(cgroups)
        return n

    def steps():
        stream = io.BytesIO(data)
        header = atoparser.get_header(stream)
        for _ in log.samples:
            record = atoparser.get_record(stream, header)
            atoparser.get_sstat(stream, header, record)
            atoparser.get_tstat(stream, header, record)
            if header.CStat is not None:
                atoparser.get_cstat(stream, header, record)

    def convert():
        stream = io.BytesIO(data)
        header = atoparser.get_header(stream)
        for record, sstat, tstats, cgroups in atoparser.generate_statistics(stream, header):
            for x in [header, record, sstat] + list(tstats) + list(cgroups):
                atoparser.struct_to_dict(x)

    def parse():
        from atoparser.parsers import atop_1_26
        stream = io.BytesIO(data)
        header = atoparser.get_header(stream)
        for sample in atoparser.generate_statistics(stream, header):
            for fmt in rows.FORMATS:
                for _ in getattr(atop_1_26, "parse_" + fmt)(header, *sample[:3]):
                    pass

    def command(*options):
        def run():
            from atoparser import reader
            sink = Sink()
            with contextlib.redirect_stdout(sink), lib.patched_argv(["atoparser"] + list(options[1:]) + paths[:options[0]]):
                try:
                    sys.exit(reader.main())
                except SystemExit as e:
                    if e.code:
                        raise Inconclusive("the command failed: %r" % e.code) from None
            if not sink.written:
                raise Violation("%s %s: the command printed nothing" % (v, dim))
        return run

    paths = [os.path.join(folder, "%s-%d.log" % (tag, i)) for i in range(log.files if dim.endswith("files") else 1)]
    for p in paths:
        with open(p, "wb") as f:
            f.write(data)
    files = len(paths)
    if dim == "many files":
        return {"command": command(files)}
    if dim == "files":
        return {"command": command(files), "command, all": command(files, "--tstats", "--cstats")}
    out = {"read": read, "steps": steps}
    if dim in ("tasks", "samples", "groups", "group pids"):
        out["convert"] = convert
        options = {"tasks": ["--tstats"], "samples": ["-p", "--tstats", "--cstats"], "groups": ["--cstats"], "group pids": ["--cstats"]}
        out["command"] = command(1, *options[dim])
    if v == "1.26" and dim in ("tasks", "samples"):
        out["parse"] = parse
        out["parseable command"] = command(1, "-P", "PRG", "CPU", "PRN", "PRC", "--")
    return out


def forked(function, seconds=None):
    """What the function returns in a forked child: every measurement starts from the same state. TooSlow after that much cpu time."""
    back, out = os.pipe()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            os.close(back)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            if seconds:
                signal.setitimer(signal.ITIMER_PROF, seconds)
            try:
                result = ("result", function())
            except (Violation, Inconclusive) as e:
                result = (type(e).__name__, str(e))
            except MemoryError:
                result = ("MemoryError", "")
            except StepsExceeded:
                result = ("StepsExceeded", "")
            except Exception as e:  # pylint: disable=broad-except
                result = ("Violation" if repo_frames(e) else "Inconclusive", "".join(traceback.format_exception(e, limit=-6)))
            signal.setitimer(signal.ITIMER_PROF, 0)
            with os.fdopen(out, "wb") as f:
                f.write(pickle.dumps(result))
        except BaseException:  # pylint: disable=broad-except
            code = 3
        os._exit(code)
    os.close(out)
    try:
        with os.fdopen(back, "rb") as f:
            text = f.read()
        status = os.waitpid(pid, 0)[1]
        pid = None
    finally:
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF:
        raise TooSlow()
    if status or not text:
        raise Inconclusive("a measuring process ended with %d" % status)
    kind, value = pickle.loads(text)
    if kind == "result":
        return value
    raise {"Violation": Violation, "Inconclusive": Inconclusive, "MemoryError": MemoryError, "StepsExceeded": StepsExceeded}[kind](value)


def cpu(function, times=1):
    """Least cpu time of one call."""
    best = None
    for _ in range(times):
        gc.collect()
        start = time.process_time()
        function()
        took = time.process_time() - start
        best = took if best is None or took < best else best
    return best


def steps_of(function, limit=1 << 60):
    budget = StepBudget(limit)
    with budget:
        function()
    return budget.steps


def peak_of(function):
    """Peak of traced memory; at most 6 GB (in a process of its own)."""
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (now + (6 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))
    gc.collect()
    tracemalloc.start(1)
    before = tracemalloc.get_traced_memory()[0]
    tracemalloc.reset_peak()
    function()
    return tracemalloc.get_traced_memory()[1] - before


def compare(ctx, what, small, large, factor=FACTOR):
    """The costs of two functions of which one handles factor times as much. Raises Violation."""
    small()  # Whatever is done only once.
    # Time.
    slow = []
    for _ in range(3):
        t1 = forked(lambda: cpu(small, 5))
        limit = 4 * factor * t1 + SLACK
        try:
            t2 = forked(lambda: cpu(large), limit + 1)
        except TooSlow:
            t2 = limit + 1
        if t2 <= limit:
            break
        slow.append((t1, t2))
    else:
        raise Violation("%s: %d times as much takes more than %d times the cpu time: %s" %
                        (what, factor, 4 * factor, ", ".join("%.4f s and %.4f s" % s for s in slow)))
    # Executed lines.
    a = forked(lambda: steps_of(small))
    allowed = int(1.5 * factor * a) + 2000
    try:
        b = forked(lambda: steps_of(large, allowed), 20 * limit + 20)
    except StepsExceeded:
        raise Violation("%s: %d executed lines, and more than %d for %d times as much" % (what, a, allowed, factor)) from None
    except TooSlow:
        raise Violation("%s: counting lines, more than %.1f s of cpu time" % (what, 20 * limit + 20)) from None
    ctx.count("steps_counted", a + b)
    # Memory.
    m1 = forked(lambda: peak_of(small))
    try:
        m2 = forked(lambda: peak_of(large), 8 * limit + 20)
    except MemoryError:
        raise Violation("%s: memory is exhausted by %d times as much" % (what, factor)) from None
    except TooSlow:
        raise Violation("%s: under memory tracing more than %.1f s of cpu time" % (what, 8 * limit + 20)) from None
    if m2 > 2 * factor * m1 + (2 << 20):
        raise Violation("%s: peak memory %d bytes, and %d for %d times as much" % (what, m1, m2, factor))
    ctx.count("growth_pairs")
    ctx.count("evaluations", 3)
    ctx.count("peak_memory_measured", m1 + m2)
    return a, b, t1, t2, m1, m2


def controls(ctx):
    """The three measurements notice what they are there for (work of this file's own, in place of the package's)."""
    def work(n):
        def pay():
            rest = bytes(n * 700)
            while rest:
                rest = rest[700:]
        return pay

    def hoard(n):
        def keep():
            rest, kept = bytes(n * 70), []
            for i in range(n):
                kept.append(rest[i * 70:])
        return keep
    for control in (work, hoard):
        try:
            compare(ctx, "control", control(500), control(500 * FACTOR))
        except Violation:
            ctx.count("control_caught")
        else:
            raise Inconclusive("a control was not noticed")


def growth(ctx, v, dim, n):
    rng = ctx.rng
    folder = ctx.tmpdir()
    if dim in ("files", "many files"):
        small, large = gen.tiny(rng, v, 1 if dim == "files" else 0), None
        large = small
        small.files = n
        first = operations(dim, v, small, folder, "small")
        large.files = n * FACTOR
        second = operations(dim, v, large, folder, "large")
    else:
        small, large = build(rng, v, dim, n), build(rng, v, dim, n * FACTOR)
        first, second = operations(dim, v, small, folder, "small"), operations(dim, v, large, folder, "large")
    for name in first:
        what = "%s, %d and %d %s, %s" % (v, n, n * FACTOR, dim, name)
        costs = compare(ctx, what, first[name], second[name])
        ctx.seen(v, dim, name, n)
        ctx.sample({what: "lines %d %d, cpu %.4f %.4f s, peak %d %d" % costs})


def values(ctx, v):
    """Numbers cost what they cost to store, whatever they are: the same log with small and with huge ones."""
    rng = ctx.rng
    folder = ctx.tmpdir()
    lay = model.layout(v)
    counts = gen.LIVE_COUNTS | {"structlen", "nprocs"}
    base = gen126.log(rng, 2, tasks=3) if v == "1.26" else gen.tiny(rng, v, 2, tasks=3, groups=3)

    def filled(blob, part, value):
        buf = bytearray(blob)
        for path, kind, off, size in lay.leaves(lay.top[part]):
            if path[-1] in counts or kind in ("str", "ch") or path[-1].endswith("len") or path[-1] in ("magic", "aversion"):
                continue
            if kind == "f4":
                struct.pack_into("<f", buf, off, 1.0 if value == "small" else 3e38)
            else:
                lo, hi = model.RANGES[kind]
                model.put_raw(buf, kind, off, size, {"small": 1, "huge": hi, "big": min(hi, (1 << 28) + 12345), "below": -(hi >> 3) if lo < 0 else hi >> 2}[value])
        return bytes(buf)

    def with_values(value):
        samples = []
        for s in base.samples:
            groups = [(filled(c, "CStat", value), n, [{"small": 1, "huge": 2**31 - 1, "big": 1 << 28, "below": -1 << 28}[value] + 0 * x for x in p])
                      for c, n, p in s.cgroups]
            stored = [{"level": 0}] * 4
            samples.append(model.Sample(filled(s.record, "Record", value), filled(s.sstat, "SStat", value),
                                        [filled(t, "TStat", value) for t in s.tstats], groups, stored))
        return model.Log(v, filled(base.header, "Header", value), samples)
    small = operations("samples", v, with_values("small"), folder, "small")
    for value in ("huge", "big", "below"):
        other = operations("samples", v, with_values(value), folder, value)
        for name in small:
            costs = compare(ctx, "%s, %s with %s numbers instead of small ones" % (v, name, value), small[name], other[name], 4)
            ctx.count("value_pairs")
            ctx.seen(v, "values", value, name)
    ctx.sample({"%s, %s numbers, %s" % (v, value, name): "lines %d %d, cpu %.4f %.4f s, peak %d %d" % costs})


def block_cost(costs, size=50):
    """Least cost of consecutive blocks of operations."""
    return min(sum(costs[i:i + size]) for i in range(0, len(costs) - size + 1, size))


def drift(n, one):
    """(cost of fifty early operations, of fifty late ones) in ns; stops when the difference is beyond doubt."""
    costs = []
    gc.collect()
    gc.disable()
    clock = time.process_time_ns
    for i in range(n):
        before = clock()
        one(i)
        costs.append(clock() - before)
        if len(costs) >= 1000 and not len(costs) % 250:
            first, last = block_cost(costs[50:550]), block_cost(costs[-250:])
            if last > 8 * first + 800000:
                break
    gc.enable()
    return block_cost(costs[50:550]), block_cost(costs[-500:])


def steady(ctx, what, n, make):
    """The last of n operations cost what the first cost; make() returns the operation."""
    slow = []
    for _ in range(5):
        try:
            first, last = forked(lambda: drift(n, make()), 0.04 * n)
        except TooSlow:  # A hundred times what it takes.
            raise Violation("%s: %d take more than %.0f s of cpu time" % (what, n, 0.04 * n)) from None
        if last <= 2 * first + 200000:
            break
        slow.append((first, last))
    else:
        raise Violation("%s: fifty of the last of %d take %s" % (what, n, ", ".join("%d instead of %d ns" % (b, a) for a, b in slow)))
    ctx.count("late_costs")
    ctx.count("evaluations")
    ctx.seen(what, n)
    ctx.sample({"%s: fifty early and fifty late ones of %d, ns" % (what, n): [first, last]})


def late(ctx, v, n):
    """The last samples of a long log cost what the first cost."""
    from atoparser.parsers import atop_1_26
    rng = ctx.rng
    log = gen126.log(rng, 1, tasks=3) if v == "1.26" else gen.tiny(rng, v, 1, tasks=3, groups=3)
    s = log.samples[0]
    start, body = s.offsets[0], bytearray(log.data[s.offsets[0]:])
    at = log.layout.locate("Record", ("curtime",))
    pieces = [log.data[:start]]
    for i in range(n):
        model.put_raw(body, at[0], at[1], at[2], 1000000 + i * 60)
        pieces.append(bytes(body))
    data = b"".join(pieces)

    def bulk(use):
        def make():
            stream = io.BytesIO(data)
            header = atoparser.get_header(stream)
            reader = atoparser.generate_statistics(stream, header)

            def one(i):
                sample = next(reader, None)
                if sample is None:
                    raise Violation("%s: %d of %d samples" % (v, i, n))
                use(header, sample)
            return one
        return make

    def convert(_header, sample):
        for x in [sample[0]] + list(sample[2]) + list(sample[3]):
            atoparser.struct_to_dict(x)

    def parse(header, sample):
        for fmt in ("CPL", "PRG", "PRC", "MEM"):
            list(getattr(atop_1_26, "parse_" + fmt)(header, *sample[:3]))

    def steps():
        stream = io.BytesIO(data)
        header = atoparser.get_header(stream)

        def one(_i):
            record = atoparser.get_record(stream, header)
            atoparser.get_sstat(stream, header, record)
            atoparser.get_tstat(stream, header, record)
            if header.CStat is not None:
                atoparser.get_cstat(stream, header, record)
        return one
    steady(ctx, v + " samples read", n, bulk(lambda header, sample: None))
    steady(ctx, v + " samples read and converted", n, bulk(convert))
    steady(ctx, v + " samples read in steps", n, steps)
    if v == "1.26":
        steady(ctx, v + " samples read and parsed", n, bulk(parse))


def repeat(ctx, v, n):
    """Reading many different logs, one after another, neither gets slower nor piles up memory."""
    from atoparser.parsers import atop_1_26
    rng = ctx.rng
    log = gen126.log(rng, 1, tasks=2) if v == "1.26" else gen.tiny(rng, v, 1, tasks=2, groups=2)
    data = bytearray(log.data)
    place = log.layout.locate("Header", ("utsname", "nodename"))
    when = log.layout.locate("Record", ("curtime",))

    def one(i):
        name = b"host%d" % i
        data[place[1]:place[1] + len(name)] = name
        model.put_raw(data, when[0], log.samples[0].offsets[0] + when[1], when[2], i)
        stream = io.BytesIO(bytes(data))
        header = atoparser.get_header(stream)
        for sample in atoparser.generate_statistics(stream, header):
            atoparser.struct_to_dict(header)
            atoparser.struct_to_dict(sample[0])
            for x in list(sample[2]) + list(sample[3]):
                atoparser.struct_to_dict(x)
            if v == "1.26":
                for fmt in ("CPL", "PRG", "MEM"):
                    list(getattr(atop_1_26, "parse_" + fmt)(header, *sample[:3]))

    def kept():
        tracemalloc.start(1)
        for i in range(300):  # Whatever is kept on purpose is full then.
            one(i)
        gc.collect()
        base = tracemalloc.get_traced_memory()[0]
        for i in range(n):
            one(i + 5000000)
        gc.collect()
        return tracemalloc.get_traced_memory()[0] - base
    steady(ctx, v + " logs", n, lambda: one)
    grown = forked(kept)
    if grown > 150 * n + (1 << 17):
        raise Violation("%s: %d bytes of memory are kept after reading %d logs, %d per log" % (v, grown, n, grown // n))
    ctx.count("evaluations", 2)
    ctx.seen(v, "repeat", n)
    ctx.sample({"%s: bytes kept after %d logs" % (v, n): grown})


class Ending(io.BytesIO):
    """Fails at its end."""

    def __init__(self, data, error):
        super().__init__(data)
        self.error = error

    def readinto(self, into):
        got = super().readinto(into)
        if not got:
            raise self.error
        return got


def ballast(ctx, v):
    """What else the process holds does not make reading slower: only the log's own data is handled."""
    from atoparser import reader as command
    from atoparser.parsers import atop_1_26
    rng = ctx.rng
    folder = ctx.tmpdir()
    logs = {}
    for tasks, n in ((2, 24), (40, 12)):
        log = gen126.log(rng, n, tasks=tasks) if v == "1.26" else gen.tiny(rng, v, n, tasks=tasks, groups=tasks)
        path = os.path.join(folder, "log%d" % tasks)
        with open(path, "wb") as f:
            f.write(log.data)
        logs[path] = log

    def bulk():
        for log in logs.values():
            for sample in atoparser.generate_statistics(io.BytesIO(log.data)):
                for x in list(sample[2]) + list(sample[3]):
                    atoparser.struct_to_dict(x)

    def stepwise():
        for log in logs.values():
            stream = io.BytesIO(log.data)
            header = atoparser.get_header(stream)
            for _ in log.samples:
                record = atoparser.get_record(stream, header)
                sstat = atoparser.get_sstat(stream, header, record)
                tasks = atoparser.get_tstat(stream, header, record)
                if header.CStat is not None:
                    atoparser.get_cstat(stream, header, record)
                if v == "1.26":
                    for fmt in rows.FORMATS:
                        list(getattr(atop_1_26, "parse_" + fmt)(header, record, sstat, tasks))

    def files():
        with contextlib.redirect_stdout(Sink()):
            for path in list(logs) * 3:
                command.parse_file(path, None, False)
                if v == "1.26":
                    command.parse_file(path, ["PRG", "CPU"], False)

    def costs(use):
        """cpu time, and full collections asked for, without and with a million other objects."""
        asked = []
        gc.callbacks.append(lambda phase, info: asked.append(1) if phase == "start" and info["generation"] == 2 else None)
        gc.disable()
        out = []
        for weight in (0, 1000000):
            kept = [[i] for i in range(weight)]
            use()
            del asked[:]
            start = time.process_time()
            use()
            took = time.process_time() - start
            out += [took, len(asked)]
            del kept
        return out

    for use in (bulk, stepwise, files):
        slow = []
        for _ in range(3):
            light, few, heavy, many = forked(lambda: costs(use))
            if heavy <= 2 * light + SLACK:
                break
            slow.append((light, heavy))
        else:
            raise Violation("%s (%s): in a process that holds a million other objects, the same work takes %s (full collections: %d)" % (
                v, use.__name__, ", ".join("%.2f instead of %.2f s" % (b, a) for a, b in slow), many))
        ctx.count("ballast_runs")
        ctx.count("evaluations")
        ctx.seen(v, "ballast", use.__name__)
        ctx.sample({"%s, %s: cpu seconds and full collections, without and with a million other objects" % (v, use.__name__):
                    [light, few, heavy, many]})


def dropped(ctx, v):
    """Nothing of a large log is left in memory once it and everything delivered from it are gone."""
    from atoparser import reader as command
    from atoparser.parsers import atop_1_26
    rng = ctx.rng
    folder = ctx.tmpdir()
    logs = {}
    for name, tasks, groups in (("little", 1, 1), ("large", 600, 600)):
        log = gen.tiny(rng, v, 2, tasks=1, groups=1)
        for s in log.samples:
            s.tstats = build(rng, v, "tasks", tasks).samples[0].tstats
            if log.layout.has_cgroups:
                s.cgroups = build(rng, v, "all pids", groups).samples[0].cgroups
            s.how = [{"level": 1}] * 4
        log.build()
        logs[name] = os.path.join(folder, name)
        with open(logs[name], "wb") as f:
            f.write(log.data)
        with open(logs[name] + ".cut", "wb") as f:
            f.write(log.data[:log.samples[1].offsets[2] + 20])
        with open(logs[name] + ".bad", "wb") as f:
            bad = bytearray(log.data)
            at = log.samples[1].offsets[2]
            bad[at:at + 2] = b"\0\0"
            f.write(bad)
        with open(logs[name] + ".few", "wb") as f:
            bad, lay = bytearray(log.data), log.layout
            count = "nlist" if lay.has("Record", "nlist") else "ndeviat"
            kind, off, size = lay.locate("Record", (count,))
            model.put_raw(bad, kind, log.samples[1].offsets[0] + off, size, len(log.samples[1].tstats) + 1)
            f.write(bad)
        with open(logs[name] + ".thin", "wb") as f:
            s = log.samples[1]
            thin = zlib.compress(s.sstat[:-1], 1)
            bad = bytearray(log.data[:s.offsets[1]]) + thin + log.data[s.offsets[2]:]
            kind, off, size = lay.locate("Record", ("scomplen",))
            model.put_raw(bad, kind, s.offsets[0] + off, size, len(thin))
            f.write(bad)

    def whole(path):
        with open(path, "rb") as f:
            header = atoparser.get_header(f)
            for sample in atoparser.generate_statistics(f, header):
                for x in [sample[0]] + list(sample[2]) + list(sample[3]):
                    atoparser.struct_to_dict(x)
                if v == "1.26":
                    for fmt in rows.FORMATS:
                        list(getattr(atop_1_26, "parse_" + fmt)(header, *sample[:3]))

    def half(path):
        with open(path, "rb") as f:
            reader = atoparser.generate_statistics(f)
            next(reader)

    def steps(path):
        with open(path, "rb") as f:
            header = atoparser.get_header(f)
            record = atoparser.get_record(f, header)
            atoparser.get_sstat(f, header, record)
            atoparser.get_tstat(f, header, record)
            if header.CStat is not None:
                atoparser.get_cstat(f, header, record)

    def malformed(path):
        for ending, kinds in ((".few", ValueError), (".thin", ValueError), (".stop", KeyboardInterrupt), (".fail", OSError), (".head", ValueError)):
            for tolerant in (True, False):
                with open(path + (ending if ending in (".few", ".thin") else ""), "rb") as f:
                    stream = f
                    if ending in (".stop", ".fail"):
                        stream = Ending(f.read(), kinds("no more"))
                    elif ending == ".head":
                        stream = io.BytesIO(b"\0" + f.read())
                    try:
                        for sample in atoparser.generate_statistics(stream, raise_on_truncation=tolerant):
                            atoparser.struct_to_dict(sample[0])
                    except kinds:
                        continue
                raise Violation("%s: %s was not passed on" % (v, kinds.__name__))

    def refused(path):
        for ending in (".few", ".thin"):
            try:
                with contextlib.redirect_stdout(Sink()):
                    command.parse_file(path + ending, None, False, True, True)
            except ValueError:
                continue
            raise Violation("%s: a malformed log was printed" % v)

    def tolerant(path):
        with open(path + ".cut", "rb") as f:
            list(atoparser.generate_statistics(f, raise_on_truncation=False))

    def failing(path):
        for ending in (".cut", ".bad"):
            with open(path + ending, "rb") as f:
                try:
                    list(atoparser.generate_statistics(f))
                except zlib.error:
                    continue
            raise Violation("%s: a damaged log was read" % v)

    def printed(path):
        with contextlib.redirect_stdout(Sink()):
            command.parse_file(path, None, False, True, True)
            if v == "1.26":
                command.parse_file(path, ["PRG", "CPU"], False)

    for use in (whole, half, steps, tolerant, failing, malformed, refused, printed):
        def kept():
            for _ in range(3):
                use(logs["little"])
            gc.collect()
            tracemalloc.start(1)
            use(logs["little"])
            gc.collect()
            base = tracemalloc.get_traced_memory()[0]
            tracemalloc.reset_peak()
            use(logs["large"])
            peak = tracemalloc.get_traced_memory()[1]
            gc.collect()
            return tracemalloc.get_traced_memory()[0] - base, peak - base
        left, peak = forked(kept)
        if peak < 1 << 18:
            raise Inconclusive("%s: reading the large log took only %d bytes" % (v, peak))
        if left > 1 << 16:
            raise Violation("%s (%s): of the %d bytes that a large log took, %d are kept after it was dropped" % (v, use.__name__, peak, left))
        ctx.count("dropped_logs")
        ctx.count("evaluations")
        ctx.seen(v, "dropped", use.__name__)
        ctx.sample({"%s, %s: bytes taken, and kept" % (v, use.__name__): [peak, left]})


def run(ctx, kind, p):
    if kind == "values":
        values(ctx, p["v"])
    elif kind == "dropped":
        dropped(ctx, p["v"])
    elif kind == "ballast":
        ballast(ctx, p["v"])
    elif kind == "growth":
        if p["dim"] in ("tasks",):
            controls(ctx)
        growth(ctx, p["v"], p["dim"], p["n"])
    elif kind == "late":
        late(ctx, p["v"], p["n"])
    else:
        repeat(ctx, p["v"], p["n"])
