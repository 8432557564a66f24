"""P08: readers are isolated and delivered objects never change."""
import ctypes
import gc
import io
import sys
import threading

import atoparser
from vf import gen, lib, model, rotate
from vf.harness import Inconclusive, Violation
from vf.monitors import Scheduler

RULE = ("Random histories over 2-5 readers of different or equal logs and versions: open, read a sample, step by hand, convert, "
        "overwrite a delivered object or list, drop, reopen, read the same stream again, overwrite and close it; every delivered object is shadowed by a copy and re-compared "
        "throughout, and storage of live objects is checked for overlap. Threads under a deterministic scheduler that switches "
        "at lines or opcodes of the package, and free-running threads with a tiny switch interval. Distinct by operation "
        "sequence (histories) and by switch sequence (interleavings).")
REQUIRE = {"operations": 3000, "recomparisons": 10000, "mutations": 300, "interleavings": 30, "switches": 2000, "overlap_checks": 120, "streams_owned": 600, "rewritten_looks": 90, "strangers": 300, "crowds": 2}


def cases(tier):
    q = tier == "quick"
    out = [("history", {"i": i}) for i in range(200 if q else 2000)]
    out += [("scheduled", {"i": i}) for i in range(48 if q else 800)]
    out += [("free", {"i": i}) for i in range(6 if q else 40)]
    out += [("again", {"v": v}) for v in model.VERSIONS]
    out += [("crowd", {"n": n, "i": i}) for n, i in ([(700, 0), (1500, 1)] if q else [(700, 0), (1500, 1), (4000, 2), (9000, 3)])]
    out += [("rewritten", {"i": i}) for i in range(8 if q else 80)]
    return out


def span(obj):
    """[start, end) of an object's storage."""
    try:
        return ctypes.addressof(obj), ctypes.addressof(obj) + ctypes.sizeof(obj)
    except TypeError:
        return None


class Shadow:
    """Delivered objects, each with what it must contain."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.objects = []  # [label, object, expected bytes]
        self.lists = []  # [label, list, expected ids]

    def add(self, label, obj):
        self.objects.append([label, obj, lib.raw(obj)])

    def add_sample(self, label, got):
        self.add(label + " record", got[0])
        self.add(label + " sstat", got[1])
        for i, t in enumerate(got[2]):
            self.add("%s task %d" % (label, i), t)
        for i, c in enumerate(got[3]):
            self.add("%s cgroup %d" % (label, i), c.cstat)
            if len(c.proclist):
                self.add("%s pids %d" % (label, i), c.proclist)
        for name, items in (("tasks", got[2]), ("cgroups", got[3])):
            self.lists.append(["%s %s" % (label, name), items, [id(x) for x in items], list(items)])

    def verify(self, when, some=None):
        rng = self.ctx.rng
        chosen = self.objects if some is None or len(self.objects) <= some else rng.sample(self.objects, some)
        for label, obj, want in chosen:
            if lib.raw(obj) != want:
                raise Violation("%s changed after %s: %s" % (label, when, lib.diff_at(lib.raw(obj), want)))
        for label, items, ids, _keep in self.lists:
            if [id(x) for x in items] != ids:
                raise Violation("%s: the list changed after %s" % (label, when))
        self.ctx.count("recomparisons", len(chosen))

    def overlaps(self):
        spans = sorted((s, label) for s, label in ((span(o), label) for label, o, _ in self.objects) if s and s[0] != s[1])
        for (a, la), (b, lb) in zip(spans, spans[1:]):
            if b[0] < a[1]:
                raise Violation("%s and %s share storage" % (la, lb))
        self.ctx.count("overlap_checks")
        seen = {}
        for label, items, _ids, _keep in self.lists:
            if id(items) in seen and items is seen[id(items)][1]:
                raise Violation("%s and %s are the same list" % (label, seen[id(items)][0]))
            seen[id(items)] = (label, items)

    def mutate(self):
        """Overwrite something that was delivered, as its owner may."""
        rng = self.ctx.rng
        self.ctx.count("mutations")
        if self.lists and rng.random() < 0.3:
            entry = rng.choice(self.lists)
            items = entry[1]
            how = rng.choice(["clear", "append", "reverse", "pop"])
            if how == "clear":
                items.clear()
            elif how == "append":
                items.append("mine")
            elif how == "reverse":
                items.reverse()
            elif items:
                items.pop()
            entry[2], entry[3] = [id(x) for x in items], list(items)
            return "changing the list of %s (%s)" % (entry[0], how)
        entry = rng.choice([e for e in self.objects if not e[0].endswith("header")] or self.objects)
        if entry[0].endswith("header"):
            return "nothing"
        view = memoryview(entry[1]).cast("B")
        if rng.random() < 0.5:
            view[:] = rng.choice([b"\0", b"\xff", b"Z"]) * len(view)
        else:
            a = rng.randrange(len(view))
            n = min(rng.randint(1, 64), len(view) - a)
            view[a:a + n] = rng.randbytes(n)
        entry[2] = bytes(view)
        return "overwriting " + entry[0]


class Reader:
    """One reader in a history, with the model of where it is."""

    def __init__(self, ctx, number, log):
        self.ctx, self.number, self.log = ctx, number, log
        self.streams = []
        self.open()

    def open(self):
        self.stream = io.BytesIO(self.log.data)
        self.streams.append(self.stream)
        self.header = self.gen = None
        self.at = 0
        self.done = False

    @property
    def label(self):
        return "reader %d (%s)" % (self.number, self.log.version)

    def rewind(self):
        """Begin anew on the stream that was read already."""
        if self.header is None:
            return self.open()
        self.stream.seek(480)
        self.gen, self.at, self.done = None, 0, False
        return None

    def caller_owns(self):
        """The memory the log was read from is the caller's alone: as it was, and free to be changed, resized and closed."""
        for stream in self.streams:
            if stream.getvalue() != self.log.data:
                raise Violation("%s: the log itself changed" % self.label)
            try:
                if self.ctx.rng.random() < 0.5:
                    stream.truncate(0)
                    stream.write(b"\xaa" * len(self.log.data))
                stream.close()
            except BufferError as e:
                raise Violation("%s: the stream is held by what was delivered: %s" % (self.label, e)) from None
            self.ctx.count("streams_owned")

    def get_header(self, shadow):
        self.header = atoparser.get_header(self.stream)
        lib.check_bytes(self.label + " header", self.header, self.log.header)
        shadow.add(self.label + " header", self.header)

    def next(self, shadow):
        rng = self.ctx.rng
        if self.gen is None:
            if self.header is None and rng.random() < 0.5:
                self.get_header(shadow)
            self.gen = atoparser.generate_statistics(self.stream, self.header) if self.header is not None else (
                atoparser.generate_statistics(self.stream))
        try:
            got = next(self.gen)
        except StopIteration:
            if self.at != len(self.log.samples):
                raise Violation("%s ended after %d of %d samples" % (self.label, self.at, len(self.log.samples))) from None
            self.done = True
            return
        if self.at >= len(self.log.samples):
            raise Violation("%s: more samples than stored" % self.label)
        lib.check_sample("%s sample %d" % (self.label, self.at), got, self.log.samples[self.at])
        shadow.add_sample("%s sample %d" % (self.label, self.at), got)
        self.at += 1

    def step(self, shadow):
        """One sample through the single-step functions."""
        if self.gen is not None or self.at >= len(self.log.samples):
            return self.next(shadow)
        if self.header is None:
            self.get_header(shadow)
        record = atoparser.get_record(self.stream, self.header)
        sstat = atoparser.get_sstat(self.stream, self.header, record)
        tstats = atoparser.get_tstat(self.stream, self.header, record)
        cgroups = atoparser.get_cstat(self.stream, self.header, record) if self.log.layout.has_cgroups else []
        got = (record, sstat, tstats, cgroups)
        lib.check_sample("%s sample %d by steps" % (self.label, self.at), got, self.log.samples[self.at])
        shadow.add_sample("%s sample %d" % (self.label, self.at), got)
        self.at += 1
        return None


def small_log(rng, v=None, n=None):
    v = v or rng.choice(model.VERSIONS + ["2.2", "2.13"])
    return gen.tiny(rng, v, rng.randint(1, 4) if n is None else n, tasks=rng.randint(0, 3), groups=rng.randint(0, 3))


def stranger(ctx, log):
    """Somebody opens a log of the same version written with other structures, with and without asking whether it can be read."""
    rng = ctx.rng
    head = bytearray(log.header)
    for field in rng.sample(sorted(gen.lengths(log.layout)), rng.randint(1, len(gen.lengths(log.layout)))):
        kind, _off, _size = log.layout.locate("Header", (field,))
        lo, hi = model.RANGES[kind]
        stored = log.layout.get(head, "Header", (field,))
        log.layout.put(head, "Header", (field,), rng.choice([v for v in (0, 1, stored - 8, stored + 8, stored * 2, hi) if v != stored and lo <= v <= hi]))
    stream = io.BytesIO(bytes(head) + log.data[480:])
    other = atoparser.get_header(stream, check_compatibility=False)
    lib.check_bytes("the header of a stranger", other, bytes(head))
    try:
        atoparser.get_header(io.BytesIO(bytes(head)))
    except ValueError:
        pass
    else:
        raise Violation("%s: a log with foreign structures was accepted" % log.version)
    if rng.random() < 0.5:
        try:
            next(atoparser.generate_statistics(stream, other), None)
        except Exception:  # pylint: disable=broad-except
            pass  # Nothing is said about what this gives.
    ctx.count("strangers")


def history(ctx):
    rng = ctx.rng
    logs = [small_log(rng) for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.5:
        logs.append(logs[0])  # The same bytes twice.
    if rng.random() < 0.4:
        logs.append(small_log(rng, logs[0].version))  # The same version, other content.
    readers = [Reader(ctx, i, log) for i, log in enumerate(logs)]
    shadow = Shadow(ctx)
    trace = []
    for _ in range(60):
        r = rng.choice(readers)
        op = rng.choice(["next", "next", "next", "step", "convert", "mutate", "mutate", "reopen", "rewind", "drop", "props", "bad", "stranger", "parse"])
        trace.append((op, r.number))
        ctx.count("operations")
        when = op
        if op == "next":
            r.next(shadow)
        elif op == "step":
            r.step(shadow)
        elif op == "reopen":
            r.open()
        elif op == "rewind":
            r.rewind()
        elif op == "drop":
            if rng.random() < 0.5 and r.gen is not None:
                r.gen.close()
            r.open()
            if shadow.objects and rng.random() < 0.3:
                del shadow.objects[rng.randrange(len(shadow.objects))]
            gc.collect(0)
        elif op == "mutate":
            if shadow.objects:
                when = shadow.mutate()
        elif op == "props":
            if r.header is not None:
                v = r.log.version
                got = (r.header.semantic_version, r.header.major_version, r.header.minor_version)
                want = (v, int(v.split(".")[0]), int(v.split(".")[1]))
                ctx.check(got == want, "%s: version %s instead of %s", r.label, got, want)
        elif op == "convert":
            convertible = [e for e in shadow.objects if not e[0].split()[-2] == "pids"]
            if convertible:
                label, obj, raw = rng.choice(convertible)
                first, second = atoparser.struct_to_dict(obj), None
                for value in first.values():
                    if isinstance(value, (list, dict)):
                        value.clear()
                first.clear()
                second = atoparser.struct_to_dict(obj)
                third = atoparser.struct_to_dict(obj)
                ctx.check(second and repr(second) == repr(third), "%s: converting twice gives different results", label)
        elif op == "bad":
            for bad in (b"", b"x" * 500, r.log.header[:100], b"\xef\xbe\xed\xfe" + b"\xff" * 476):
                try:
                    atoparser.get_header(io.BytesIO(bad))
                except ValueError:
                    continue
                raise Violation("a bad header was accepted")
        elif op == "stranger":
            stranger(ctx, r.log)
        elif op == "parse" and r.log.version == "1.26" and r.header is not None and r.log.samples:
            from atoparser.parsers import atop_1_26
            got = next(iter(atoparser.generate_statistics(io.BytesIO(r.log.data))))
            rows = list(atop_1_26.parse_CPL(r.header, *got[:3])) + list(atop_1_26.parse_PRG(r.header, *got[:3]))
            again = list(atop_1_26.parse_CPL(r.header, *got[:3])) + list(atop_1_26.parse_PRG(r.header, *got[:3]))
            ctx.check(repr(rows) == repr(again), "parseable rows differ between two calls")
            for row in rows:
                row.clear()
        shadow.verify(when, 25)
    shadow.verify("the whole history")
    shadow.overlaps()
    # Everything can still be read from the start, in full.
    for log in logs:
        out, error = lib.read_all(io.BytesIO(log.data))
        ctx.check(error is None and len(out) == len(log.samples), "%s cannot be read again: %r", log.version, error)
        for i, (got, s) in enumerate(zip(out, log.samples)):
            lib.check_sample("%s read again: sample %d" % (log.version, i), got, s)
    shadow.verify("reading everything again")
    for r in readers:
        r.caller_owns()
    shadow.verify("the streams were overwritten and closed")
    ctx.count("evaluations")
    ctx.seen([(r.log.version, len(r.log.samples)) for r in readers], trace)
    ctx.sample({"logs": [log.version for log in logs], "operations": ["%s:%d" % t for t in trace[:20]]})


def job(log, convert):
    """What one thread does; returns plain data."""
    def body():
        stream = io.BytesIO(log.data)
        header = atoparser.get_header(stream) if convert % 2 else None
        out = []
        for got in atoparser.generate_statistics(stream, header) if header is not None else atoparser.generate_statistics(stream):
            out.append((lib.frozen(got), atoparser.struct_to_dict(got[0]) if convert else None,
                        [atoparser.struct_to_dict(t) for t in got[2]] if convert else None))
        version = None
        if header is not None:
            version = (header.semantic_version, header.major_version, header.minor_version)
        return out, version
    return body


def check_job(ctx, what, log, convert, result):
    status, value = result
    if status != "ok":
        raise Violation("%s: %s raised %r" % (what, log.version, value))
    out, version = value
    if len(out) != len(log.samples):
        raise Violation("%s: %s gave %d of %d samples" % (what, log.version, len(out), len(log.samples)))
    for i, ((frozen, rec, tasks), s) in enumerate(zip(out, log.samples)):
        if frozen != lib.stored(s):
            raise Violation("%s: %s sample %d differs from reading it alone" % (what, log.version, i))
        if convert:
            lay = log.layout
            d = lib.differ(rec, lay.part_dict("Record", bytes(s.record))) or lib.differ(tasks, [lay.part_dict("TStat", t) for t in s.tstats])
            if d:
                raise Violation("%s: %s sample %d converts differently%s" % (what, log.version, i, d))
        ctx.count("recomparisons")
    if version is not None and version != (log.version, *map(int, log.version.split("."))):
        raise Violation("%s: version %s reported as %s" % (what, log.version, version))


def scheduled(ctx):
    rng = ctx.rng
    logs = [small_log(rng, n=rng.randint(1, 2)) for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.3:
        logs[1] = logs[0]
    if rng.random() < 0.3:
        logs[-1] = small_log(rng, logs[0].version, 2)
    converts = [rng.randint(0, 2) for _ in logs]
    for k in range(2):
        s = Scheduler(rng, rng.choice([0.05, 0.3, 1.0]), opcodes=rng.random() < 0.3)
        results = s.run([job(log, c) for log, c in zip(logs, converts)])
        if results is None:
            raise Inconclusive("threads did not end")
        for i, (log, c, r) in enumerate(zip(logs, converts, results)):
            check_job(ctx, "thread %d of %s, %d switches" % (i, [x.version for x in logs], len(s.trace)), log, c, r)
        ctx.count("evaluations")
        ctx.count("interleavings")
        ctx.count("switches", len(s.trace))
        ctx.count("switch_points", s.points)
        ctx.seen([x.version for x in logs], s.trace)
    ctx.sample({"threads": [x.version for x in logs], "switches": s.trace[:40]})


def free(ctx):
    rng = ctx.rng
    logs = [small_log(rng, rng.choice(["1.26", "2.3", "2.4", "2.11", "2.12", "2.2"]), 3) for _ in range(6)]
    logs += logs[:2]
    saved = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(4):
            results = [None] * len(logs)
            barrier = threading.Barrier(len(logs))

            def body(i):
                barrier.wait(60)
                try:
                    results[i] = ("ok", job(logs[i], i % 3)())
                except Exception as e:  # pylint: disable=broad-except
                    results[i] = ("error", e)
            threads = [threading.Thread(target=body, args=(i,)) for i in range(len(logs))]
            for t in threads:
                t.start()
            for t in threads:
                t.join(100)
            if any(r is None for r in results):
                raise Inconclusive("threads did not end")
            for i, r in enumerate(results):
                check_job(ctx, "free thread %d" % i, logs[i], i % 3, r)
            ctx.count("evaluations")
            ctx.count("free_runs")
    finally:
        sys.setswitchinterval(saved)
    ctx.seen("free", [x.version for x in logs], [len(x.data) for x in logs])


def crowd(ctx, n):
    """Very many readers at once, each at its own place."""
    rng = ctx.rng
    logs = [gen.tiny(rng, v, rng.randint(1, 3), 1, 1) for v in model.VERSIONS + model.VERSIONS[:4]]
    readers = []
    for i in range(n):
        log = rng.choice(logs)
        stream = io.BytesIO(log.data)
        if rng.random() < 0.3:
            reader = atoparser.generate_statistics(stream, atoparser.get_header(stream))
        else:
            reader = atoparser.generate_statistics(stream)
        readers.append([log, reader, 0, stream])
    kept = []
    order = list(range(n))
    for turn in range(4):
        rng.shuffle(order)
        for i in order:
            log, reader, at, _ = readers[i]
            got = next(reader, None)
            what = "%d readers, reader %d (%s), sample %d" % (n, i, log.version, at)
            if at >= len(log.samples):
                if got is not None:
                    raise Violation("%s: more than is stored" % what)
                continue
            if got is None:
                raise Violation("%s: ended" % what)
            lib.check_sample(what, got, log.samples[at])
            readers[i][2] += 1
            if len(kept) < 3000:
                kept.append((what, got, log.samples[at]))
    for what, got, s in kept:
        lib.check_sample(what + ", looked at again", got, s)
    ctx.count("recomparisons", len(kept))
    ctx.count("crowds")
    ctx.count("evaluations")
    ctx.seen("crowd", n)


def run(ctx, kind, p):
    if kind == "crowd":
        crowd(ctx, p["n"])
        return
    if kind == "rewritten":
        rotate.run(ctx)
    elif kind == "history":
        history(ctx)
    elif kind == "scheduled":
        scheduled(ctx)
    elif kind == "free":
        free(ctx)
    else:
        rng = ctx.rng
        log = gen.log(rng, p["v"], 4, tasks=3, groups=3)
        shadow = Shadow(ctx)
        for k in range(3):
            stream = io.BytesIO(log.data)
            header = atoparser.get_header(stream)
            shadow.add("header", header)
            out, error = lib.read_all(stream, header=header)
            ctx.check(error is None and len(out) == 4, "%s read %d: %r", p["v"], k, error)
            for i, (got, s) in enumerate(zip(out, log.samples)):
                lib.check_sample("%s read %d: sample %d" % (p["v"], k, i), got, s)
                shadow.add_sample("read %d sample %d" % (k, i), got)
            del stream, header, out, got
            gc.collect()
            shadow.verify("read %d" % k)
            for _ in range(10):
                shadow.mutate()
            ctx.count("evaluations")
        shadow.verify("all reads")
        shadow.overlaps()
        ctx.seen("again", p["v"])
