"""P19: only truncation is tolerated; every other failure reaches the caller unchanged."""
import builtins
import errno
import gzip
import io
import itertools
import lzma
import struct
import tarfile
import zlib

import atoparser
from vf import gen, lib, model
from vf.checks.p18 import malformed
from vf.harness import Violation
from vf.monitors import TracedStream

RULE = ("Logs of every version on streams with a bad spot: any read that reaches beyond byte X raises (every time, or once as in a passing fault). X is every structural "
        "boundary, bytes around it and random bytes, from 0 to the end; every exception type of the interpreter and some of libraries (I/O errors, timeouts, "
        "interrupts, resource errors, programming errors, other libraries' errors) are injected directly, below a buffered "
        "reader and below gzip; strict and tolerant, with and without a header given, bulk and single steps. The exception object "
        "that arrives must be the one injected, the samples before it those that end before X, and the reader must be finished "
        "afterwards. Samples whose blocks hold less than the record announces must raise ValueError in both modes. Distinct by "
        "(version, spot, exception, mode).")
LEVEL = "fault_enumeration"
REQUIRE = {"faults": 2500, "tolerant_faults": 1200, "buffered_faults": 250, "gzip_faults": 150, "step_faults": 400,
           "header_faults": 100, "malformed": 200, "finished_readers": 2500, "exception_types": 60, "passing_faults": 1000, "late_faults": 24}


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


def exceptions():
    return [OSError(errno.EIO, "bad spot"), OSError(errno.ESTALE, "gone"), TimeoutError("slow"), ConnectionResetError("reset"),
            PermissionError(errno.EACCES, "no"), MemoryError("small"), RuntimeError("broken"), Custom("custom"), CustomBase("base"),
            KeyboardInterrupt(), SystemExit(3), TypeError("type"), AttributeError("attr"),
            IndexError("index"), KeyError("key"), struct.error("struct"), lzma.LZMAError("xz"), tarfile.ReadError("tar"),
            gzip.BadGzipFile("crc"), AssertionError("assert"), BlockingIOError(errno.EAGAIN, "later"),
            NotImplementedError("not"), ZeroDivisionError("zero"), ArithmeticError("a"), LookupError("l"), BufferError("b"),
            RecursionError("deep")] + builtin_kinds()


def builtin_kinds():
    """One of every exception the interpreter has, but those that mean something to a generator or are end-of-data."""
    out = []
    for name, kind in sorted(vars(builtins).items()):
        if not isinstance(kind, type) or not issubclass(kind, BaseException) or issubclass(kind, (
                StopIteration, StopAsyncIteration, GeneratorExit, EOFError)) or name.endswith("Group"):
            continue
        if issubclass(kind, UnicodeError) and kind is not UnicodeError:
            args = ("utf-8", b"x", 0, 1, "bad") if kind is UnicodeDecodeError else ("utf-8", "x", 0, 1, "bad")
            args = ("x", 0, 1, "bad") if kind is UnicodeTranslateError else args
        else:
            args = ("a %s of the stream" % name,)
        out.append(kind(*args))
    for number in (errno.EINTR, errno.EPIPE, errno.ENXIO, errno.ENODATA, errno.EBADF, errno.EINVAL, errno.ENOSPC, errno.EWOULDBLOCK, errno.ETIMEDOUT,
                   errno.ECONNABORTED, errno.EISDIR, errno.ENOENT):
        out.append(OSError(number, "number %d" % number))
    return out


TRUNCATIONS = [zlib.error("Error -5"), EOFError("end")]


class BadSpot(TracedStream):
    """Any read that reaches beyond byte `spot` raises; with `once` only the first one, as after a passing fault."""

    def __init__(self, data, spot, error, once=False):
        super().__init__(data)
        self.spot, self.error, self.hits, self.once = spot, error, 0, once

    def _event(self, op, asked):
        if not (self.once and self.hits) and (asked is None or asked < 0 or self.pos + asked > self.spot):
            self.hits += 1
            raise self.error
        return super()._event(op, asked)


class BadRaw(io.RawIOBase):
    """A raw stream that gives what is before the spot and then raises."""

    def __init__(self, data, spot, error, once=False):
        self._data, self._pos, self.spot, self.error, self.hits, self.once = data, 0, spot, error, 0, once

    def readable(self):
        return True

    def readinto(self, target):
        passed = self.once and self.hits
        if self._pos >= self.spot and not passed:
            self.hits += 1
            raise self.error
        n = min(len(target), len(self._data) - self._pos if passed else self.spot - self._pos)
        n = min(n, len(self._data) - self._pos)
        target[:n] = self._data[self._pos:self._pos + n]
        self._pos += n
        return n


def cases(tier):
    q = tier == "quick"
    out = [("direct", {"v": v, "i": i}) for v in model.VERSIONS + ["2.13"] for i in range(2 if q else 40)]
    out += [("layers", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 20)]
    out += [("steps", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 20)]
    out += [("malformed", {"i": i}) for i in range(11 if q else 200)]
    out += [("late", {"v": v, "n": 1500 if q else 9000}) for v in model.VERSIONS]
    return out


def consume(ctx, what, stream, header, tolerant):
    """(yielded tuples, exception); the reader must be finished afterwards."""
    out, error = [], None
    kwargs = {} if header is None else {"header": header}
    if tolerant is not None:
        kwargs["raise_on_truncation"] = not tolerant
    reader = atoparser.generate_statistics(stream, **kwargs)
    try:
        for got in reader:
            out.append(got)
            if len(out) > 1000:
                raise Violation(what + ": reading does not end")
    except Violation:
        raise
    except BaseException as e:  # pylint: disable=broad-except
        if type(e).__name__ == "Watchdog":
            raise
        error = e
    hits = getattr(stream, "hits", None)
    for _ in range(2):
        try:
            more = next(reader)
        except StopIteration:
            ctx.count("finished_readers")
            continue
        except BaseException as e:  # pylint: disable=broad-except
            raise Violation("%s: the reader goes on after its end: %r" % (what, e)) from None
        raise Violation("%s: the reader yields %r after its end" % (what, type(more)))
    if hits is not None and stream.hits != hits:
        raise Violation("%s: the stream is read again after the reader ended" % what)
    return out, error


def late(ctx, v, n):
    """A fault behind very many samples."""
    rng = ctx.rng
    log = gen.long(rng, v, n, 1, 1)
    kinds = exceptions()
    for k in (rng.randint(90, 140), rng.randint(260, 400), rng.randint(n - 200, n - 1)):
        s = log.samples[k]
        spot = rng.choice([o for o in s.offsets if o < s.offsets[-1]] + [rng.randint(s.offsets[0], s.offsets[-1] - 1)])
        injected = rng.choice(kinds)
        for kwargs in rng.choice([[{"raise_on_truncation": False}, {}], [{"raise_on_truncation": False}]]):
            what = "%s with a fault %r at byte %d, in sample %d of %d, %s" % (v, injected, spot, k, n, kwargs)
            stream = BadSpot(log.data, spot, injected, rng.random() < 0.5)
            done, error = 0, None
            reader = atoparser.generate_statistics(stream, **kwargs)
            try:
                for got in reader:
                    if done >= k:
                        raise Violation("%s: a sample beyond the fault" % what)
                    if done % 50 == 0 or done > k - 3:
                        lib.check_sample("%s: sample %d" % (what, done), got, log.samples[done])
                    done += 1
            except Violation:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                if type(e).__name__ == "Watchdog":
                    raise
                error = e
            ctx.count("evaluations")
            ctx.count("late_faults")
            ctx.seen(v, "late", spot, type(injected).__name__, sorted(kwargs))
            if error is not injected:
                raise Violation("%s: %r arrived" % (what, error))
            if done != k:
                raise Violation("%s: %d samples before the fault instead of %d" % (what, done, k))
            if next(reader, None) is not None:
                raise Violation("%s: the reader goes on" % what)


def judge(ctx, what, log, out, error, injected, complete, exact=True):
    ctx.count("evaluations")
    ctx.count("faults")
    if error is not injected:
        raise Violation("%s: %r arrived instead of the injected %r" % (what, error, injected))
    if len(out) > complete or exact and len(out) != complete:
        raise Violation("%s: %d samples before the fault instead of %d" % (what, len(out), complete))
    for i, (got, s) in enumerate(zip(out, log.samples)):
        if lib.frozen(got) != lib.stored(s):
            raise Violation("%s: sample %d before the fault differs from what is stored" % (what, i))


def spots(rng, log, n):
    size = len(log.data)
    points = {p for s in log.samples for o in s.offsets for p in (o - 1, o, o + 1)}
    points |= {0, 1, 100, 479, 480, 481, size - 1, size}
    points |= {rng.randint(480, size) for _ in range(n)}
    return sorted(p for p in points if 0 <= p <= size)


def run(ctx, kind, p):
    rng = ctx.rng
    if kind == "malformed":
        for _ in range(10):
            what = rng.choice(["sstat", "tasks", "negative", "cgroups", "pids"])
            data = malformed(rng, what)
            for tolerant in (False, True, None):
                out, error = consume(ctx, "malformed " + what, io.BytesIO(data), None, tolerant)
                ctx.count("evaluations")
                ctx.count("malformed")
                if not isinstance(error, ValueError):
                    raise Violation("a sample whose %s data is too short ended with %r (tolerant %s)" % (what, error, tolerant))
                ctx.seen("malformed", what, len(out), tolerant, len(data))
        return
    v = p["v"]
    if kind == "late":
        late(ctx, v, p["n"])
        return
    log = gen.tiny(rng, v, rng.randint(1, 3), rng.randint(0, 2), rng.randint(1, 2))
    kinds = exceptions()
    turn = itertools.cycle(rng.sample(kinds, len(kinds)))
    if kind == "direct":
        for spot in spots(rng, log, 15):
            for tolerant in (False, True, None):
                for injected in [next(turn), next(turn), next(turn)] + ([] if tolerant else [rng.choice(TRUNCATIONS)]):
                    once = rng.random() < 0.5
                    what = "%s with a %s %r at byte %d (tolerant %s)" % (v, "passing fault" if once else "fault", injected, spot, tolerant)
                    stream = BadSpot(log.data, spot, injected, once)
                    ctx.count("passing_faults", int(once))
                    header = None
                    if spot >= 480 and rng.random() < 0.6:
                        header = atoparser.get_header(stream)
                    out, error = consume(ctx, what, stream, header, tolerant)
                    judge(ctx, what, log, out, error, injected, sum(1 for e in log.ends if e <= spot))
                    ctx.count("tolerant_faults", int(bool(tolerant)))
                    ctx.seen(v, p["i"], spot, type(injected).__name__, tolerant)
                    if spot < 480:
                        for check in (True, False):
                            try:
                                atoparser.get_header(BadSpot(log.data, spot, injected, once), check)
                            except BaseException as e:  # pylint: disable=broad-except
                                if e is not injected:
                                    raise Violation("%s: get_header raised %r" % (what, e)) from None
                            else:
                                raise Violation("%s: get_header went on" % what)
                            ctx.count("header_faults")
        if p["v"] == model.VERSIONS[0] and p["i"] == 0:
            ctx.count("exception_types", len(kinds))
            ctx.sample({"exceptions": [type(k).__name__ for k in kinds]})
    elif kind == "layers":
        kinds = [k for k in kinds if not isinstance(k, InterruptedError)]  # A buffered reader tries again.
        for spot in rng.sample(spots(rng, log, 15), 16):
            injected = rng.choice(kinds)
            for tolerant in (False, True):
                what = "%s with a fault %r at byte %d below a buffered reader (tolerant %s)" % (v, injected, spot, tolerant)
                stream = io.BufferedReader(BadRaw(log.data, spot, injected, rng.random() < 0.5), rng.choice([16, 512, 8192, 1 << 18]))
                out, error = consume(ctx, what, stream, None, tolerant)
                judge(ctx, what, log, out, error, injected, sum(1 for e in log.ends if e <= spot), False)
                ctx.count("buffered_faults")
                ctx.count("tolerant_faults", int(tolerant))
                ctx.seen(v, "buffered", spot, type(injected).__name__, tolerant)
        packed = gzip.compress(log.data, 1)
        for _ in range(10):
            spot = rng.randint(0, len(packed) - 1)
            injected = rng.choice(kinds)
            for tolerant in (False, True):
                what = "%s with a fault %r at byte %d of its gzip file (tolerant %s)" % (v, injected, spot, tolerant)
                stream = gzip.GzipFile(fileobj=io.BufferedReader(BadRaw(packed, spot, injected, rng.random() < 0.5), rng.choice([16, 8192])))
                out, error = consume(ctx, what, stream, None, tolerant)
                judge(ctx, what, log, out, error, injected, len(log.samples), False)
                ctx.count("gzip_faults")
                ctx.seen(v, "gzip", spot, type(injected).__name__, tolerant)
    else:
        lay = log.layout
        names = ["get_sstat", "get_tstat"] + (["get_cstat"] if lay.has_cgroups else [])
        for s in log.samples:
            for step in ["get_record"] + names:
                at = {"get_record": 0, "get_sstat": 1, "get_tstat": 2, "get_cstat": 3}[step]
                start, end = s.offsets[at], s.offsets[at + 1] if step != "get_cstat" else s.offsets[5]
                if end == start:
                    continue
                for _ in range(8):
                    injected = rng.choice(kinds + TRUNCATIONS)
                    spot = rng.choice([start, end - 1, rng.randint(start, end - 1)])
                    stream = BadSpot(log.data, 1 << 60, injected, rng.random() < 0.5)
                    header = atoparser.get_header(stream)
                    stream.pos = s.offsets[0]
                    record = None
                    try:
                        if step == "get_record":
                            stream.spot = spot
                        record = atoparser.get_record(stream, header)
                        stream.pos = start
                        stream.spot = spot
                        getattr(atoparser, step)(stream, header, record)
                    except BaseException as e:  # pylint: disable=broad-except
                        if e is not injected:
                            raise Violation("%s: %s raised %r instead of the injected %r" % (v, step, e, injected)) from None
                    else:
                        raise Violation("%s: %s went on after %r at byte %d" % (v, step, injected, spot))
                    ctx.count("step_faults")
                    ctx.count("evaluations")
                    ctx.seen(v, step, spot - start, type(injected).__name__)
