"""P20: logs that are still being written."""
import fcntl
import io
import os
import struct
import subprocess
import sys
import threading
import time
import zlib

import atoparser
from vf import gen, lib, model, rotate
from vf.checks import p09
from vf.harness import Violation

RULE = ("Logs of every version written piece by piece (cut anywhere, at every structural boundary and around, several samples at "
        "once, nothing at all) into real files and memory streams. Looks: after each piece the file is opened anew and read by the "
        "library or printed by the command. Tails: one open stream and one header for all of it; readers that end at the end of a "
        "sample are followed by new ones, those that end inside one after the stream was put back to the end of the last sample "
        "delivered; readers that are kept open while the file grows. Live: a writing process or thread appends while it is read, the "
        "sizes before and after a look bound what it may yield. Distinct by (version, way, where the pieces end).")
REQUIRE = {"looks": 1000, "rewritten_looks": 90, "tails": 150, "continued_at_boundary": 300, "continued_after_cut": 300, "kept_open": 300, "live_looks": 150,
           "live_growth_seen": 8, "command_looks": 60, "locks_held": 100}
CASE_LIMIT = {"quick": 600, "thorough": 1800}
WRITER = ("import os,sys,time,random\n"
          "src,dst,seed=open(sys.argv[1],'rb').read(),os.open(sys.argv[2],os.O_WRONLY|os.O_APPEND),int(sys.argv[3])\n"
          "r=random.Random(seed);p=480\n"
          "while p<len(src):\n"
          "  n=r.choice([1,7,40,80,300]);os.write(dst,src[p:p+n]);p+=n\n"
          "  time.sleep(r.choice([0,0.0005,0.001]))\n")


def cases(tier):
    q = tier == "quick"
    versions = model.VERSIONS + ["2.13"]
    out = [("live", {"v": v, "how": how, "i": i}) for i in range(1 if q else 10) for v in model.VERSIONS for how in ("process", "thread")]
    out += [("looks", {"v": v, "i": i}) for v in versions for i in range(3 if q else 40)]
    out += [("tails", {"v": v, "i": i}) for v in versions for i in range(3 if q else 40)]
    out += [("rotated", {"i": i}) for i in range(8 if q else 80)]
    out += [("kept", {"v": v, "i": i}) for v in versions for i in range(2 if q else 30)]
    return out


def pieces(rng, log):
    """Sizes the log has one after another."""
    marks = {p + d for s in log.samples for p in s.offsets for d in (-1, 0, 0, 1)} | set(log.ends)
    marks |= {rng.randint(480, len(log.data)) for _ in range(2 * len(log.samples))}
    marks = sorted(m for m in marks if 480 <= m <= len(log.data))
    style = rng.random()
    if style < 0.35:
        marks = sorted(set(log.ends))
    elif style < 0.6:
        marks = sorted(rng.sample(marks, max(1, len(marks) // 3)))
    if rng.random() < 0.5:
        marks = [480] + marks
    out = []
    for m in marks:
        out += [m] * rng.choice([1, 1, 1, 2])  # Nothing new at times.
    return out + [len(log.data)] * 2


def complete(log, size):
    return sum(1 for e in log.ends if e <= size)


def collect(reader, strict, what, limit):
    out, error = [], None
    try:
        for got in reader:
            out.append(got)
            if len(out) > limit:
                raise Violation("%s: more samples than the log holds" % what)
    except zlib.error as e:
        if not strict:
            raise Violation("%s: %r although truncation is tolerated" % (what, e)) from None
        error = e
    return out, error


def judge(ctx, what, got, wanted):
    if len(got) != len(wanted):
        raise Violation("%s: %d samples instead of %d" % (what, len(got), len(wanted)))
    for i, (g, s) in enumerate(zip(got, wanted)):
        lib.check_sample("%s: sample %d" % (what, i), g, s)
    ctx.count("evaluations")


def sample_log(rng, v):
    return gen.tiny(rng, v, rng.randint(1, 7), rng.randint(0, 3), rng.randint(0, 3))


class Growing:
    """A stream whose log grows by `upto`; the position of the reading side is kept."""

    def __init__(self, ctx, log, kind):
        self.log, self.kind, self.size = log, kind, 480
        if kind == "memory":
            self.stream = io.BytesIO(log.data[:480])
        else:
            self.path = os.path.join(ctx.tmpdir(), "log")
            with open(self.path, "wb") as f:
                f.write(log.data[:480])
            self.writer = open(self.path, "ab", buffering=0)  # pylint: disable=consider-using-with
            self.stream = {"buffered": lambda: open(self.path, "rb"), "raw": lambda: open(self.path, "rb", buffering=0),
                           "random": lambda: open(self.path, "r+b"), "small": lambda: open(self.path, "rb", buffering=16)}[kind]()

    def upto(self, size):
        piece = self.log.data[self.size:size]
        if self.kind == "memory":
            at = self.stream.tell()
            self.stream.seek(0, 2)
            try:
                self.stream.write(piece)
            except BufferError as e:
                raise Violation("the log in memory cannot be written on: its reader holds on to the memory (%s)" % e) from None
            self.stream.seek(at)
        else:
            self.writer.write(piece)
        self.size = size

    def close(self):
        self.stream.close()
        if self.kind != "memory":
            self.writer.close()


def tails(ctx, v):
    rng = ctx.rng
    for _ in range(5):
        log = sample_log(rng, v)
        kind = rng.choice(["memory", "buffered", "raw", "random", "small"])
        grow = Growing(ctx, log, kind)
        header = atoparser.get_header(grow.stream)
        done, at = 0, 480
        trace = pieces(rng, log)
        for size in trace:
            grow.upto(size)
            n = complete(log, size)
            strict = rng.random() < 0.4
            what = "%s tail (%s) after %d of %d bytes, %d samples before" % (v, kind, size, len(log.data), done)
            if rng.random() < 0.1:
                header = atoparser.get_header(io.BytesIO(log.data))
            kwargs = {} if strict and rng.random() < 0.5 else {"raise_on_truncation": strict}
            got, ends = [], []
            reader = atoparser.generate_statistics(grow.stream, header, **kwargs)
            try:
                for g in reader:
                    got.append(g)
                    ends.append(grow.stream.tell())
                    if len(got) > len(log.samples):
                        raise Violation("%s: more samples than the log holds" % what)
            except zlib.error as e:
                if not strict:
                    raise Violation("%s: %r although truncation is tolerated" % (what, e)) from None
            judge(ctx, what, got, log.samples[done:n])
            if ends and ends != log.ends[done:n]:
                raise Violation("%s: the samples end at %s, the stream was at %s" % (what, log.ends[done:n], ends))
            at = ends[-1] if ends else at
            if size == at:
                # It ended at the end of a sample: the stream is where the next one will be.
                if grow.stream.tell() != at:
                    raise Violation("%s: the stream is left at %d instead of %d" % (what, grow.stream.tell(), at))
                ctx.count("continued_at_boundary")
            else:
                grow.stream.seek(at)
                ctx.count("continued_after_cut")
            done = n
        grow.close()
        ctx.count("tails")
        ctx.seen(v, "tail", kind, trace[:40])
    ctx.sample({"version": v, "way": "tail " + kind, "sizes": trace[:15], "samples end at": log.ends})


def kept(ctx, v):
    """One reader that waits at a sample while the next are written."""
    rng = ctx.rng
    for _ in range(5):
        log = sample_log(rng, v)
        kind = rng.choice(["memory", "buffered", "raw", "random", "small"])
        grow = Growing(ctx, log, kind)
        strict = rng.random() < 0.5
        header = atoparser.get_header(grow.stream)
        reader = atoparser.generate_statistics(grow.stream, header, strict)
        if rng.random() < 0.5:
            grow.stream.seek(0)
            reader = atoparser.generate_statistics(grow.stream, raise_on_truncation=strict)
        shown = []
        i = 0
        while i < len(log.samples):
            ahead = rng.randint(1, min(3, len(log.samples) - i))
            size = log.ends[i + ahead - 1]
            if i + ahead < len(log.samples) and rng.random() < 0.5:
                size = rng.randint(size, log.ends[i + ahead] - 1)  # And some of the one behind.
            grow.upto(max(size, grow.size))
            what = "%s kept open (%s), %d bytes" % (v, kind, grow.size)
            for k in range(ahead):
                got = next(reader, None)
                if got is None:
                    raise Violation("%s: sample %d is written, but the reader ended" % (what, i + k))
                lib.check_sample("%s: sample %d" % (what, i + k), got, log.samples[i + k])
                shown.append(got)
                ctx.count("kept_open")
                ctx.count("evaluations")
            i += ahead
        if next(reader, None) is not None:
            raise Violation("%s: a sample behind the last" % what)
        for k, got in enumerate(shown):
            lib.check_sample("%s: sample %d after the end" % (what, k), got, log.samples[k])
        grow.close()
        ctx.seen(v, "kept", kind, len(log.samples), len(log.data))


def locked(ctx, path):
    """The writer's hold on its file, as a function that lets go."""
    rng = ctx.rng
    fd = os.open(path, rng.choice([os.O_RDWR, os.O_RDWR | os.O_APPEND]))
    how = rng.choice(["flock", "flock shared", "record lock", "both"])
    try:
        if how != "record lock":
            fcntl.flock(fd, (fcntl.LOCK_SH if "shared" in how else fcntl.LOCK_EX) | fcntl.LOCK_NB)
        if how in ("record lock", "both"):
            fcntl.fcntl(fd, 37, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))  # F_OFD_SETLK
    except OSError:
        os.close(fd)
        return None
    ctx.count("locks_held")
    return lambda: os.close(fd)


def in_time(what, function, release):
    """A look does not wait for the writer."""
    box = []

    def body():
        try:
            box.append((function(), None))
        except BaseException as e:  # pylint: disable=broad-except
            box.append((None, e))
    thread = threading.Thread(target=body, daemon=True)
    thread.start()
    thread.join(100)
    if not box:
        release()
        thread.join(60)
        raise Violation("%s: the look waits for the writer's lock" % what)
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


def looks(ctx, v):
    rng = ctx.rng
    for _ in range(3):
        log = sample_log(rng, v)
        path = os.path.join(ctx.tmpdir(), "growing.log")
        written = 0
        trace = pieces(rng, log)
        for size in trace:
            with open(path, "ab") as f:
                f.write(log.data[written:size])
            written = size
            n = complete(log, size)
            what = "%s look at %d of %d bytes" % (v, size, len(log.data))
            if rng.random() < 0.4:  # Clocks differ, and files are copied with their times.
                then = rng.choice([0, 1, 1e9, time.time() + 3600, time.time() + 30, 4e9])
                os.utime(path, (then, then))
                what += ", dated %d" % then
            release = locked(ctx, path) if rng.random() < 0.3 else None
            if release:
                what += ", locked by its writer"
            if rng.random() < 0.25:
                args = [path, "--tstats", "--cstats"]
                result = in_time(what, lambda: lib.cli(args), release) if release else lib.cli(args)
                docs = lib.json_documents(result.out) if result.code == 0 else None
                if result.code != 0 or len(docs) != 1 or not isinstance(docs[0], list) or len(docs[0]) != n:
                    raise Violation("%s: the command did not print %d samples: %s %s" % (what, n, result.code, result.err[-200:]))
                for i, (entry, s) in enumerate(zip(docs[0], log.samples)):
                    for part, want in lib.sample_dict(log.layout, log.header, s, True, True).items():
                        d = lib.differ(entry.get(part), want)
                        if d:
                            raise Violation("%s: the command's entry %d: %s%s" % (what, i, part, d))
                ctx.count("command_looks")
                ctx.count("evaluations")
            else:
                strict = rng.random() < 0.4
                def look():
                    with open(path, "rb", buffering=rng.choice([-1, -1, 0, 16])) as f:
                        header = atoparser.get_header(f) if rng.random() < 0.5 else None
                        return collect(atoparser.generate_statistics(f, header, strict), strict, what, len(log.samples))
                got, _error = in_time(what, look, release) if release else look()
                judge(ctx, what, got, log.samples[:n])
            if release:
                release()
            ctx.count("looks")
        ctx.seen(v, "looks", trace[:40])
    ctx.sample({"version": v, "way": "looks", "sizes": trace[:15], "samples end at": log.ends})


def live(ctx, v, how):
    """Somebody else writes while it is read."""
    rng = ctx.rng
    log = gen.tiny(rng, v, rng.randint(20, 40), rng.randint(0, 3), rng.randint(0, 3))
    folder = ctx.tmpdir()
    whole, path = os.path.join(folder, "whole"), os.path.join(folder, "log")
    with open(whole, "wb") as f:
        f.write(log.data)
    with open(path, "wb") as f:
        f.write(log.data[:480])
    stop = threading.Event()
    seed = rng.getrandbits(30)
    if how == "process":
        writer = subprocess.Popen([sys.executable, "-S", "-E", "-c", WRITER, whole, path, str(seed)])  # pylint: disable=consider-using-with
        running = lambda: writer.poll() is None
    else:
        def write():
            at, r = 480, lib.seeded(seed)
            with open(path, "ab", buffering=0) as f:
                while at < len(log.data) and not stop.is_set():
                    n = r.choice([1, 7, 40, 80, 300])
                    f.write(log.data[at:at + n])
                    at += n
                    time.sleep(r.choice([0, 0.0005, 0.001]))
        writer = threading.Thread(target=write)
        writer.start()
        running = writer.is_alive
    counts = set()
    try:
        tail = open(path, "rb")  # pylint: disable=consider-using-with
        header = atoparser.get_header(tail)
        done, at = 0, 480
        last = False
        while not last:
            last = not running()
            before = os.path.getsize(path)
            what = "%s live (%s) look at %d bytes" % (v, how, before)
            if rng.random() < 0.5:
                with open(path, "rb") as f:
                    got, _error = collect(atoparser.generate_statistics(f, raise_on_truncation=False), False, what, len(log.samples))
                first = 0
            else:
                first, got = done, []
                for g in atoparser.generate_statistics(tail, header, raise_on_truncation=False):
                    got.append(g)
                    at = tail.tell()
                done += len(got)
                tail.seek(at)
            after = os.path.getsize(path)
            low, high = complete(log, before), complete(log, after)
            if not low <= first + len(got) <= high:
                raise Violation("%s: %d samples, although %d to %d are written" % (what, first + len(got), low, high))
            judge(ctx, what, got, log.samples[first:first + len(got)])
            counts.add(first + len(got))
            ctx.count("live_looks")
            ctx.count("looks")
        if max(counts) != len(log.samples):
            raise Violation("%s: %d of %d samples at the end" % (what, max(counts), len(log.samples)))
        tail.close()
    finally:
        stop.set()
        if how == "process":
            writer.kill()
            writer.wait()
        else:
            writer.join()
    ctx.count("live_growth_seen", int(len(counts) > 2))
    ctx.seen(v, how, sorted(counts))


def run(ctx, kind, p):
    if kind == "rotated":
        def printed(what, path, log):
            p09.judge(ctx, what, p09.go(ctx, what, [path]), [log], False, False)
        rotate.run(ctx, printed=printed)
    elif kind == "live":
        live(ctx, p["v"], p["how"])
    else:
        {"tails": tails, "kept": kept, "looks": looks}[kind](ctx, p["v"])
