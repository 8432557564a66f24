"""P15: samples are delivered from their own bytes alone, in constant memory."""
import bz2
import gc
import gzip
import io
import lzma
import os
import re
import struct
import sys
import tempfile
import threading
import tracemalloc
import weakref
import zlib

import atoparser
from vf import gen, lib, model
from vf.harness import Violation
from vf.monitors import EndlessStream, TracedStream, live_ctypes

RULE = ("Generated logs of every version on a traced stream: the position and the furthest byte asked for are compared with "
        "the sample's end at every yield, and the calls recorded before the first request and after the reader was exhausted, "
        "closed, dropped or failed are counted; a stream that holds no byte beyond the current sample and refuses to be asked "
        "for one; real streams of twelve kinds, buffered and not, asked where they stand; live pipes fed one sample at a time; traced memory and live structures over long and endless streams, "
        "through bulk reading and single steps. Distinct by (version, log, sample).")
REQUIRE = {"yields_watched": 1000, "silences": 300, "fed_samples": 300, "pipe_samples": 60, "places": 240, "memory_samples": 20000,
           "released": 200, "bulky_samples": 40}
ASSUMPTIONS = ["memory is what tracemalloc sees: all Python and ctypes allocations"]
CASE_LIMIT = {"quick": 600, "thorough": 2000}


def cases(tier):
    q = tier == "quick"
    out = [("watch", {"v": v, "i": i}) for v in model.VERSIONS + ["2.2"] for i in range(5 if q else 80)]
    out += [("places", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 10)]
    out += [("pipe", {"v": v}) for v in model.VERSIONS]
    out += [("memory", {"v": v, "how": how, "n": 2500 if q else 20000}) for v in (
        ["1.26", "2.3", "2.11", "2.12"] if q else model.VERSIONS) for how in ("given", "none", "steps")]
    out += [("big", {"v": v}) for v in model.VERSIONS]
    out += [("bulky", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 8)]
    out += [("readers", {"v": v, "n": 300 if q else 3000}) for v in model.VERSIONS]
    return out


class FedStream(TracedStream):
    """Holds only what was fed; asking for more means waiting for it, which a reader must not do to deliver a sample."""

    def __init__(self, data):
        super().__init__(data)
        self.available = 480
        self.final = False

    def _event(self, op, asked):
        if not self.final and (asked is None or asked < 0 or self.pos + asked > self.available):
            raise Violation("the reader waits for byte %s although it has what it needs up to byte %d" % (
                "any" if asked is None or asked < 0 else self.pos + asked, self.available))
        return super()._event(op, asked)


def watch(ctx, v):
    rng = ctx.rng
    for _ in range(3):
        log = gen.log(rng, v, rng.randint(1, 5), style="sparse") if rng.random() < 0.4 else gen.tiny(
            rng, v, rng.randint(2, 30), tasks=rng.randint(0, 3), groups=rng.randint(0, 3))
        what = "%s, %d samples" % (v, len(log.samples))
        given = rng.random() < 0.5
        tail = rng.choice([b"", b"", b"tail" * 2000])
        stream = TracedStream(log.data + tail)
        header = atoparser.get_header(stream) if given else None
        if given and stream.asked_end != 480:
            raise Violation("%s: get_header asked for bytes up to %d" % (what, stream.asked_end))
        before = len(stream.events)
        reader = atoparser.generate_statistics(stream, header) if given else atoparser.generate_statistics(stream)
        quiet(ctx, what + " before the first sample was requested", stream, before)
        stop = rng.randint(0, len(log.samples)) if rng.random() < 0.5 else None
        for i, s in enumerate(log.samples):
            if i == stop:
                break
            got = next(reader)
            end = s.offsets[-1]
            if stream.pos != end or stream.asked_end > end:
                raise Violation("%s: to deliver sample %d, which ends at %d, the reader is at %d and asked for bytes up to %s" % (
                    what, i, end, stream.pos, stream.asked_end if stream.asked_end < 1 << 60 else "the end of the stream"))
            n = len(stream.events)
            lib.check_sample("%s: sample %d" % (what, i), got, s)
            for x in (got[0], got[1]):
                atoparser.struct_to_dict(x)
            quiet(ctx, "%s while sample %d is used" % (what, i), stream, n)
            ctx.count("yields_watched")
            ctx.seen(v, s.offsets)
        n = len(stream.events)
        if stop is not None:
            # The reader is abandoned.
            how = rng.choice(["close", "drop", "throw"])
            if how == "close":
                reader.close()
            elif how == "throw":
                try:
                    reader.throw(KeyError("consumer failed"))
                except KeyError:
                    pass
                except StopIteration:
                    pass
            reader = None
            gc.collect(0)
            quiet(ctx, "%s after the reader was abandoned (%s)" % (what, how), stream, n)
        elif not tail:
            for _ in range(2):
                if next(reader, None) is not None:
                    raise Violation("%s: more samples than stored" % what)
            n = len(stream.events)
            for _ in range(3):
                next(reader, None)
            quiet(ctx, what + " after the end", stream, n)
        ctx.count("evaluations")

        # The writer is still busy: nothing beyond this sample exists yet.
        fed = FedStream(log.data)
        reader = atoparser.generate_statistics(fed, atoparser.get_header(fed)) if given else atoparser.generate_statistics(fed)
        for i, s in enumerate(log.samples):
            fed.available = s.offsets[-1]
            lib.check_sample("%s: fed sample %d" % (what, i), next(reader), s)
            ctx.count("fed_samples")
        fed.final = True
        if next(reader, None) is not None:
            raise Violation("%s: more samples than stored" % what)
        ctx.count("evaluations")
    ctx.sample({"version": v, "sample ends": log.ends, "calls": stream.events[:12]})


def quiet(ctx, what, stream, before):
    ctx.count("silences")
    if len(stream.events) != before:
        raise Violation("%s: the stream was read: %s" % (what, stream.events[before:][:5]))
    if stream.forbidden:
        raise Violation("%s: %s was called on the stream" % (what, stream.forbidden))


class Memory(io.RawIOBase):
    """An unbuffered stream over bytes that tells where it is."""

    def __init__(self, data):
        super().__init__()
        self._data, self._at = data, 0

    def readable(self):
        return True

    def seekable(self):
        return False

    def tell(self):
        return self._at

    def readinto(self, target):
        target = memoryview(target).cast("B")
        n = min(len(target), len(self._data) - self._at)
        target[:n] = self._data[self._at:self._at + n]
        self._at += n
        return n


class Minimal:
    """Not even a stream class: just what reading needs, and where it is."""

    def __init__(self, data):
        self._stream = io.BytesIO(data)
        self.closed = False
        self.tell, self.read, self.readinto = self._stream.tell, self._stream.read, self._stream.readinto

    def close(self):
        self.closed = True


def places(ctx, v):
    """Real streams of every kind stand at the end of the sample that was delivered, and stay open and there."""
    rng = ctx.rng
    log = gen.tiny(rng, v, rng.randint(3, 6), tasks=rng.randint(0, 3), groups=rng.randint(0, 3))
    folder = ctx.tmpdir()
    path = os.path.join(folder, "log")
    for name, data in (("log", log.data), ("log.gz", gzip.compress(log.data)), ("log.bz2", bz2.compress(log.data)), ("log.xz", lzma.compress(log.data))):
        with open(os.path.join(folder, name), "wb") as f:
            f.write(data)
    kinds = {
        "memory": lambda: io.BytesIO(log.data),
        "unbuffered file": lambda: open(path, "rb", buffering=0),
        "buffered file": lambda: open(path, "rb"),
        "little buffer": lambda: open(path, "rb", buffering=16),
        "read and write": lambda: open(path, "r+b"),
        "unbuffered memory": lambda: Memory(log.data),
        "buffered over unbuffered memory": lambda: io.BufferedReader(Memory(log.data)),
        "gzip": lambda: gzip.open(path + ".gz", "rb"),
        "bz2": lambda: bz2.open(path + ".bz2", "rb"),
        "xz": lambda: lzma.open(path + ".xz", "rb"),
        "minimal": lambda: Minimal(log.data),
        "temporary file": lambda: tempfile.TemporaryFile(dir=folder),
    }
    for kind, make in kinds.items():
        what = "%s, %s" % (v, kind)
        stream = make()
        try:
            if kind == "temporary file":
                stream.write(log.data)
                stream.seek(0)
            given = rng.random() < 0.6
            header = atoparser.get_header(stream) if given else None
            stand(what + " after get_header", stream, 480 if given else 0)
            reader = atoparser.generate_statistics(stream, header) if given else atoparser.generate_statistics(stream)
            stand(what + " before the first sample", stream, 480 if given else 0)
            stop = rng.randint(1, len(log.samples))
            for i, s in enumerate(log.samples[:stop]):
                lib.check_sample("%s: sample %d" % (what, i), next(reader), s)
                stand("%s after sample %d" % (what, i), stream, s.offsets[-1])
                ctx.count("places")
            if stop == len(log.samples) and next(reader, None) is not None:
                raise Violation("%s: more samples than stored" % what)
            if rng.random() < 0.5:
                reader.close()
            del reader
            gc.collect(0)
            stand(what + " after the reader was abandoned", stream, log.samples[stop - 1].offsets[-1])
            # What lies behind is still there for whoever reads on.
            rest = stream.read(1 << 20)
            while len(rest) < len(log.data) - log.samples[stop - 1].offsets[-1]:
                more = stream.read(1 << 20)
                if not more:
                    break
                rest += more
            if rest != log.data[log.samples[stop - 1].offsets[-1]:]:
                raise Violation("%s: %d bytes are left behind sample %d, which is followed by %d" % (
                    what, len(rest), stop, len(log.data) - log.samples[stop - 1].offsets[-1]))
            ctx.count("evaluations")
            ctx.seen(v, "places", kind, log.ends)
        finally:
            stream.close()


def stand(what, stream, at):
    if stream.closed:
        raise Violation("%s: the stream is closed" % what)
    if stream.tell() != at:
        raise Violation("%s: the stream stands at %d instead of %d" % (what, stream.tell(), at))


def pipe(ctx, v):
    """A log that is still being written: each sample comes out once it was written, before the next one exists."""
    rng = ctx.rng
    log = gen.tiny(rng, v, 8, tasks=2, groups=2)
    r, w = os.pipe()
    stream = open(r, "rb")
    os.write(w, log.header)
    given = rng.random() < 0.5
    stuck = []

    def unblock():
        # Closing the writer is the only way to wake a blocked read; the reader then sees an end it must not have waited for.
        stuck.append(True)
        os.close(w)
    timer = None
    try:
        header = atoparser.get_header(stream) if given else None
        reader = atoparser.generate_statistics(stream, header) if given else atoparser.generate_statistics(stream)
        for i, s in enumerate(log.samples):
            view = log.data[s.offsets[0]:s.offsets[-1]]
            if len(view) > 60000:
                return
            os.write(w, view)
            timer = threading.Timer(120, unblock)
            timer.daemon = True
            timer.start()
            try:
                got = next(reader, None)
            except Exception as e:  # pylint: disable=broad-except
                got = e
            timer.cancel()
            if stuck:
                raise Violation("%s: sample %d was not delivered although all its bytes were written (%r)" % (v, i, got))
            lib.check_sample("%s: sample %d from a live pipe" % (v, i), got, s)
            ctx.count("pipe_samples")
        ctx.count("evaluations")
        ctx.seen(v, "pipe", log.ends)
    finally:
        if timer:
            timer.cancel()
        if not stuck:
            os.close(w)
        stream.close()


class VariedStream(EndlessStream):
    """An endless log in which no two samples are alike in any part, so that nothing can be kept once per distinct value."""

    def __init__(self, rng, v):
        super().__init__(gen.header(rng, v), b"")
        self.lay = model.layout(v)
        self.rng = rng
        size = self.lay.size("SStat")
        self.packer = zlib.compressobj(1)
        self.start = self.packer.compress(bytes(size - 64)) + self.packer.flush(zlib.Z_FULL_FLUSH)
        self.tail = bytearray(self.prefix)
        self.at = 0
        self.cgroups = gen.cgroups(rng, self.lay, 2) if self.lay.has_cgroups else []
        self.counter = 0

    def _more(self):
        lay, rng = self.lay, self.rng
        packer = self.packer.copy()
        blocks = [self.start + packer.compress(rng.randbytes(64)) + packer.flush()]
        blocks.append(zlib.compress(rng.randbytes(lay.size("TStat")), 0))
        rec = bytearray(rng.randbytes(lay.size("Record")))
        lay.put(rec, "Record", ("nlist" if lay.has("Record", "nlist") else "ndeviat",), 1)
        self.counter += 1
        lay.put(rec, "Record", ("curtime",), 1700000000 + self.counter)
        if lay.has_cgroups:
            raw = bytearray()
            pids = []
            for cstat, name, _ in self.cgroups:
                c = bytearray(rng.randbytes(len(cstat)))
                lay.put(c, "CStat", ("gen", "structlen"), len(cstat) + len(name))
                lay.put(c, "CStat", ("gen", "nprocs"), 2)
                raw += c + rng.randbytes(len(name))
                pids += [rng.getrandbits(31), rng.getrandbits(31)]
            blocks += [zlib.compress(raw, 1), zlib.compress(struct.pack("<4i", *pids), 1)]
            lay.put(rec, "Record", ("ncgroups",), 2)
            lay.put(rec, "Record", ("ccomplen",), len(blocks[2]))
            lay.put(rec, "Record", ("icomplen",), len(blocks[3]))
        lay.put(rec, "Record", ("scomplen",), len(blocks[0]))
        lay.put(rec, "Record", ("pcomplen",), len(blocks[1]))
        self.tail += rec + b"".join(blocks)

    def read(self, size=-1):
        if size is None or size < 0:
            raise Violation("reader asked for all of an endless stream")
        while len(self.tail) < size:
            self._more()
        out = bytes(self.tail[:size])
        del self.tail[:size]
        self.pos += size
        return out


def held():
    """(bytes, structures) in use."""
    structures = live_ctypes()
    getattr(sys, "_clear_type_cache", int)()  # It keeps up to 4096 names of attributes that were looked up.
    struct._clearcache()  # Bounded caches of the standard library.  pylint: disable=protected-access
    re.purge()
    return tracemalloc.get_traced_memory()[0], structures


def growth(marks):
    """The median growth between neighbouring marks."""
    steps = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(marks, marks[1:])]
    return sorted(s[0] for s in steps)[len(steps) // 2], sorted(s[1] for s in steps)[len(steps) // 2]


def memory(ctx, v, how, n):
    rng = ctx.rng
    stream = VariedStream(rng, v)
    header = atoparser.get_header(stream) if how != "none" else None
    reader = None
    if how == "given":
        reader = atoparser.generate_statistics(stream, header, max_samples=10 ** 9)
    elif how == "none":
        reader = atoparser.generate_statistics(stream, max_samples=10 ** 9)

    def one():
        if reader is not None:
            return next(reader)
        record = atoparser.get_record(stream, header)
        sstat = atoparser.get_sstat(stream, header, record)
        tstats = atoparser.get_tstat(stream, header, record)
        return record, sstat, tstats, atoparser.get_cstat(stream, header, record) if header.CStat is not None else []

    convert = rng.random() < 0.5

    def some(count):
        for i in range(count):
            got = one()
            if convert and i % 8 == 0:
                for x in (got[0], *got[2], *got[3]):
                    atoparser.struct_to_dict(x)
                del x
        del got

    tracemalloc.start(1)
    try:
        some(200)
        marks = []
        for _ in range(10):
            some(n // 10)
            marks.append(held())
        ctx.count("memory_samples", 200 + n // 10 * 10)
    finally:
        tracemalloc.stop()
    read = n // 10
    grown, structures = growth(marks)
    # A leak of one reference per sample is 8 bytes; allocator noise comes in single jumps, which the median ignores.
    if grown > 4 * read or structures > read // 10:
        raise Violation("%s (%s): with every %d further samples the reader holds %d bytes and %d structures more: %s" % (
            v, how, read, grown, structures, marks))
    ctx.count("evaluations")
    ctx.seen(v, how, "memory")
    ctx.sample({"version": v, "reading": how, "samples": read, "median growth in bytes": grown, "structures": structures})


def big(ctx, v):
    """A delivered sample is released with its consumer's last reference, not kept by the reader or the package."""
    rng = ctx.rng
    log = gen.tiny(rng, v, 12, tasks=30, groups=10)
    for header_given in (True, False):
        stream = io.BytesIO(log.data)
        header = atoparser.get_header(stream) if header_given else None
        reader = atoparser.generate_statistics(stream, header) if header_given else atoparser.generate_statistics(stream)
        alive = []
        for i in range(12):
            got = next(reader)
            for x in [got[0], got[1]] + got[2][:3] + [c.cstat for c in got[3][:3]]:
                alive.append((i, weakref.ref(x)))
            del got, x
            gc.collect(0)
            late = [k for k, r in alive if r() is not None and k < i - 1]
            if late:
                raise Violation("%s: samples %s are still held when sample %d is delivered" % (v, sorted(set(late)), i))
            ctx.count("released")
        reader.close()
        gc.collect()
        left = [k for k, r in alive if r() is not None]
        if left:
            raise Violation("%s: samples %s are held after the reader was closed" % (v, sorted(set(left))))
        ctx.count("evaluations")
    ctx.seen(v, "big")


def bulky(ctx, v):
    """Blocks of many megabytes, each delivered before the next byte exists."""
    rng = ctx.rng
    lay = model.layout(v)
    for megabytes in (rng.choice([1, 2, 3]), rng.choice([5, 9, 17])):
        log = gen.tiny(rng, v, 4, tasks=1, groups=1)
        one = lay.size("TStat")
        for k in (1, 2):
            raw = rng.randbytes((megabytes << 20) + rng.randint(1000, 99999) if k == 1 else 70000)
            log.samples[k].tstats = [raw[i:i + one] for i in range(0, len(raw) - one, one)]
            log.samples[k].how = [{"level": rng.choice([0, 1])}] * 4
        if lay.has_cgroups and rng.random() < 0.5:
            raw = rng.randbytes(megabytes << 20)
            group = lay.size("CStat")
            log.samples[2].cgroups = []
            for i in range(0, min(len(raw) - group, 60000 * group), group):
                c = bytearray(raw[i:i + group])
                lay.put(c, "CStat", ("gen", "structlen"), group)
                lay.put(c, "CStat", ("gen", "nprocs"), 0)
                log.samples[2].cgroups.append((bytes(c), b"", []))
        log.build()
        for given in (True, False):
            fed = FedStream(log.data)
            reader = atoparser.generate_statistics(fed, atoparser.get_header(fed)) if given else atoparser.generate_statistics(fed)
            for i, s in enumerate(log.samples):
                what = "%s: sample %d of %d bytes" % (v, i, s.offsets[-1] - s.offsets[0])
                fed.available = s.offsets[-1]
                got = next(reader)
                if fed.pos != s.offsets[-1] or fed.asked_end > s.offsets[-1]:
                    raise Violation("%s: ends at %d, the reader is at %d and asked for bytes up to %d" % (what, s.offsets[-1], fed.pos, fed.asked_end))
                lib.check_sample(what, got, s)
                ctx.count("bulky_samples")
            fed.final = True
            if next(reader, None) is not None:
                raise Violation("%s: more samples than stored" % v)
            ctx.count("evaluations")
        ctx.seen(v, "bulky", [s.offsets for s in log.samples])


def readers(ctx, v, n):
    """Opening and leaving many readers leaves nothing behind."""
    rng = ctx.rng
    log = gen.tiny(rng, v, 3, tasks=1, groups=1)
    at = rng.randint(log.samples[1].offsets[1] + 1, log.samples[1].offsets[2] - 1)
    lay = log.layout
    kind, off, size = lay.locate("Record", ("curtime",))
    name = lay.locate("Header", ("utsname", "nodename"))[1]
    made = [0]

    def cycle(count):
        for i in range(count):
            data = bytearray((log.data, log.data[:at], log.data[:400])[i % 3])
            made[0] += 1
            data[name:name + 4] = struct.pack("<I", made[0])
            if i % 3 < 2:
                model.put_raw(data, kind, log.samples[0].offsets[0] + off, size, 1700000000 + made[0])
            stream = io.BytesIO(data)
            try:
                header = atoparser.get_header(stream)
                reader = atoparser.generate_statistics(stream, header)
                next(reader)
                if i % 2:
                    next(reader)
            except Exception:  # pylint: disable=broad-except
                pass
    tracemalloc.start(1)
    try:
        cycle(30)
        marks = []
        for _ in range(10):
            cycle(n // 10)
            marks.append(held())
    finally:
        tracemalloc.stop()
    grown, structures = growth(marks)
    if structures > n // 100 or grown > 8 * (n // 10):
        raise Violation("%s: every %d further readers leave %d bytes and %d structures: %s" % (v, n // 10, grown, structures, marks))
    ctx.count("memory_samples", n)
    ctx.count("evaluations")
    ctx.seen(v, "readers")


def run(ctx, kind, p):
    if kind == "watch":
        watch(ctx, p["v"])
    elif kind == "places":
        places(ctx, p["v"])
    elif kind == "pipe":
        pipe(ctx, p["v"])
    elif kind == "memory":
        memory(ctx, p["v"], p["how"], p["n"])
    elif kind == "bulky":
        bulky(ctx, p["v"])
    elif kind == "big":
        big(ctx, p["v"])
    else:
        readers(ctx, p["v"], p["n"])
