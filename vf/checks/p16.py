"""P16: the sample limit."""
import io
import itertools
import os
import struct

import atoparser
from vf import gen, lib, model
from vf.harness import Violation
from vf.monitors import EndlessStream, TracedStream

RULE = ("Logs of every version with 0 to hundreds of samples x negative limits, 0, 1, around the count, around powers of two and far "
        "beyond, given by keyword or position, with and without a header, strict and tolerant, on traced streams (position and "
        "furthest byte asked for at the end) and cut logs; limits in a row on one stream; endless streams with limits and with "
        "the default; several readings with one header, and in one process, that together exceed it; the command on a log with more samples than the default limit. Distinct by (version, count, limit, form).")
REQUIRE = {"limited_readings": 2000, "exact_ends": 700, "endless": 20, "default_limits": 2, "default_samples": 172800, "negative_limits": 60, "far_samples": 200000}
DEFAULT = 86400
CASE_LIMIT = {"quick": 600, "thorough": 3000}


def cases(tier):
    q = tier == "quick"
    out = [("far", {"v": "1.26", "limit": (1 << 18) + 17 if q else (1 << 21) + 17})]
    out += [("default", {"v": "1.26", "how": "none"}), ("cli", {"v": "1.26"}), ("default", {"v": "1.26", "how": "given"})]
    if not q:
        out += [("default", {"v": v, "how": how}) for v in model.VERSIONS for how in ("given", "none", "tolerant")]
        out += [("stored", {"v": v, "n": n}) for v in ("1.26",) for n in (DEFAULT - 1, DEFAULT, DEFAULT + 1)]
    else:
        out += [("stored", {"v": "1.26", "n": DEFAULT + 1})]
    out += [("shared", {"v": v, "how": how}) for v in (["1.26"] if q else ["1.26", "2.7", "2.12"]) for how in ("header", "process")]
    out += [("limits", {"v": v, "i": i}) for v in model.VERSIONS + ["2.2", "2.13"] for i in range(4 if q else 60)]
    out += [("endless", {"v": v}) for v in model.VERSIONS]
    out += [("row", {"v": v, "i": i}) for v in model.VERSIONS for i in range(2 if q else 30)]
    return out


def make(rng, stream, limit, kwargs):
    """A limited reader in one of the ways to ask for it."""
    r = rng.random()
    if r < 0.3:
        return atoparser.generate_statistics(stream, atoparser.get_header(stream), max_samples=limit, **kwargs), "given"
    if r < 0.6:
        return atoparser.generate_statistics(stream, max_samples=limit, **kwargs), "none"
    if r < 0.8:
        strict = kwargs.get("raise_on_truncation", True)
        return atoparser.generate_statistics(stream, atoparser.get_header(stream), strict, limit), "positional"
    return atoparser.generate_statistics(raw_file=stream, header=None, max_samples=limit, **kwargs), "keywords"


def limits(ctx, v):
    rng = ctx.rng
    count = rng.choice([0, 1, 2, 3, 5, 10, 17, 40])
    log = gen.tiny(rng, v, count, tasks=rng.randint(0, 2), groups=rng.randint(0, 2))
    every = {0, 1, 2, 3, count - 1, count, count + 1, count // 2, 2 * count, 255, 256, 65535, 65536, DEFAULT, DEFAULT + 1, 10 ** 6, 2 ** 31,
             2 ** 63 - 1}
    for limit in sorted(x for x in every if x >= 0):
        for data, complete, fault in ((log.data, count, False), cut(rng, log)):
            tolerant = rng.random() < 0.5
            kwargs = {"raise_on_truncation": False} if tolerant else {}
            stream = TracedStream(data, max_calls=100 + 12 * (count + 1))
            error = None
            out = []
            reader, how = make(rng, stream, limit, kwargs)
            what = "%s, limit %d (%s), %d complete samples%s" % (v, limit, how, complete, ", then damage" if fault else "")
            try:
                for got in reader:
                    out.append(got)
                    if len(out) > limit:
                        raise Violation("%s: more samples than the limit" % what)
            except OverflowError:
                raise Violation("%s: OverflowError" % what) from None
            except Exception as e:  # pylint: disable=broad-except
                if isinstance(e, Violation):
                    raise
                error = e
            expected = min(limit, complete)
            if len(out) != expected:
                raise Violation("%s: %d samples delivered (%r)" % (what, len(out), error))
            for i, got in enumerate(out):
                lib.check_sample("%s: sample %d" % (what, i), got, log.samples[i])
            ctx.count("limited_readings")
            ctx.count("evaluations")
            ctx.seen(v, count, complete, limit, how, tolerant)
            if expected == limit:
                # The limit ended it: no error, nothing consumed past the last sample.
                if error is not None:
                    raise Violation("%s: ended with %r" % (what, error))
                end = log.samples[limit - 1].offsets[-1] if limit else 480
                if limit == 0 and how in ("none", "keywords"):
                    end = stream.pos if stream.pos in (0, 480) else -1  # Whether the header is read is left open.
                if stream.pos != end or stream.asked_end > max(end, 480):
                    raise Violation("%s: the stream is at %d, asked up to %d, the last sample ends at %d" % (
                        what, stream.pos, stream.asked_end, end))
                ctx.count("exact_ends")
            elif error is not None and (tolerant or not fault):
                raise Violation("%s: ended with %r" % (what, error))
            if next(reader, None) is not None:
                raise Violation("%s: a sample after the end" % what)
    for limit in (-1, -2, -DEFAULT):
        stream = TracedStream(log.data, max_calls=100 + 12 * (count + 1))
        try:
            reader, how = make(rng, stream, limit, {})
            got = next(reader, None)
        except ValueError:  # Refusing the limit is as good.
            got = None
        if got is not None:
            raise Violation("%s, limit %d: a sample is delivered" % (v, limit))
        ctx.count("negative_limits")
        ctx.count("evaluations")
    ctx.sample({"version": v, "samples": count, "limits": sorted(every)[:12]})


def cut(rng, log):
    """(data, complete samples, damaged)"""
    if not log.samples:
        return log.data, 0, False
    k = rng.randrange(len(log.samples))
    s = log.samples[k]
    return log.data[:rng.randint(s.offsets[1] + 1, s.offsets[2] - 1)], k, True


def row(ctx, v):
    """Limited readings one after another on the same stream continue where the last one ended."""
    rng = ctx.rng
    for _ in range(6):
        count = rng.randint(1, 25)
        log = gen.tiny(rng, v, count, tasks=1, groups=1)
        stream = TracedStream(log.data)
        header = atoparser.get_header(stream)
        at, trace = 0, []
        while True:
            limit = rng.choice([0, 1, 1, 2, 3, 8])
            trace.append(limit)
            out = list(atoparser.generate_statistics(stream, header, max_samples=limit))
            expected = min(limit, count - at)
            if len(out) != expected:
                raise Violation("%s, %d samples, limits %s: the last gave %d" % (v, count, trace, len(out)))
            for got in out:
                lib.check_sample("%s, limits %s: sample %d" % (v, trace, at), got, log.samples[at])
                at += 1
            ctx.count("limited_readings")
            ctx.count("evaluations")
            ctx.count("exact_ends", expected == limit)
            if expected == limit and stream.pos != (log.ends[at - 1] if at else 480):
                raise Violation("%s, limits %s: the stream is at %d" % (v, trace, stream.pos))
            if expected < limit:
                break
        ctx.seen(v, count, trace)


def endless(ctx, v):
    rng = ctx.rng
    block = gen.tiny(rng, v, 3, tasks=1, groups=1)
    for limit in (1, 2, 3, 255, 256, 257, 1000, rng.randint(4, 1500)):
        stream = EndlessStream(block.header, block.data[480:], max_calls=20 * limit + 100)
        reader, how = make(rng, stream, limit, {})
        n = 0
        for got in reader:
            n += 1
            if n > limit:
                break
            if n % 97 < 3:
                lib.check_sample("%s endless: sample %d" % (v, n - 1), got, block.samples[(n - 1) % 3])
        if n != limit:
            raise Violation("%s: an endless stream gave %d samples with limit %d (%s)" % (v, n, limit, how))
        q, r = divmod(limit - 1, 3)
        end = 480 + q * (len(block.data) - 480) + block.ends[r] - 480
        if stream.pos != end:
            raise Violation("%s: limit %d left the endless stream at %d instead of %d" % (v, limit, stream.pos, end))
        ctx.count("endless")
        ctx.count("limited_readings")
        ctx.count("evaluations")
        ctx.seen(v, "endless", limit, how)


def smallest(v):
    """One sample as cheap to read as possible, for very long streams."""
    lay = model.layout(v)
    s = model.Sample(bytes(lay.size("Record")), bytes(lay.size("SStat")), [], how=[{"level": 9}] * 4)
    s.omit_cgroups = True
    return s


def default(ctx, v, how):
    """No limit given, and the stream never ends."""
    rng = ctx.rng
    block = model.Log(v, gen.header(rng, v), [smallest(v)])
    unit = block.data[480:]
    stream = EndlessStream(block.header, unit * 50)
    kwargs = {"raise_on_truncation": False} if how == "tolerant" else {}
    if how != "none":
        reader = atoparser.generate_statistics(stream, atoparser.get_header(stream), **kwargs)
    else:
        reader = atoparser.generate_statistics(stream)
    n = 0
    for _ in itertools.islice(reader, DEFAULT + 2):
        n += 1
    if n != DEFAULT:
        raise Violation("%s (%s): an endless stream gave %s samples without a limit instead of %d" % (
            v, how, n if n <= DEFAULT + 1 else "more than %d" % n, DEFAULT))
    if stream.pos != 480 + DEFAULT * len(unit):
        raise Violation("%s (%s): the default limit left the stream at %d" % (v, how, stream.pos))
    ctx.count("default_limits")
    ctx.count("default_samples", n)
    ctx.count("evaluations")
    ctx.seen(v, "default", how)
    ctx.sample({"version": v, "endless": how, "samples": n})


def far(ctx, v, limit):
    """A limit far beyond the default."""
    block = model.Log(v, gen.header(ctx.rng, v), [smallest(v)])
    unit = block.data[480:]
    stream = EndlessStream(block.header, unit * 200)
    n = 0
    for n, _ in enumerate(atoparser.generate_statistics(stream, max_samples=limit), 1):
        if n > limit:
            break
    if n != limit or stream.pos != 480 + limit * len(unit):
        raise Violation("%s: limit %d of an endless stream gave %d samples and left it at %d" % (v, limit, n, stream.pos))
    ctx.count("limited_readings")
    ctx.count("far_samples", n)
    ctx.count("evaluations")
    ctx.seen(v, "far", limit)


def numbered(v, n):
    """The bytes of n minimal samples that tell their number in curtime."""
    log = model.Log(v, gen.header(lib.seeded(v), v), [smallest(v)])
    lay = log.layout
    kind, off, size = lay.locate("Record", ("curtime",))
    unit = bytearray(log.data[480:])
    out = [log.header]
    for i in range(n):
        struct.pack_into({4: "<i", 8: "<q"}[size], unit, off, i + 1)
        out.append(bytes(unit))
    return b"".join(out), len(unit)


def stored(ctx, v, n):
    data, unit = numbered(v, n)
    stream = io.BytesIO(data)
    k = 0
    for got in atoparser.generate_statistics(stream):
        k += 1
        if got[0].curtime != k:
            raise Violation("%s: sample %d of %d says it is %d" % (v, k, n, got[0].curtime))
        if k > DEFAULT:
            break
    if k != min(n, DEFAULT):
        raise Violation("%s: %d of %d samples were read without a limit" % (v, k, n))
    # A higher limit of one's own reads on, a second reading goes on where the first ended.
    left = sum(1 for _ in atoparser.generate_statistics(stream, atoparser.get_header(io.BytesIO(data))))
    if left != n - k:
        raise Violation("%s: %d samples were left behind %d, %d were read" % (v, n - k, k, left))
    if n > DEFAULT:
        k = sum(1 for _ in atoparser.generate_statistics(io.BytesIO(data), max_samples=n + 5))
        if k != n:
            raise Violation("%s: a limit of %d gave %d of %d samples" % (v, n + 5, k, n))
    ctx.count("default_samples", n)
    ctx.count("default_limits")
    ctx.count("evaluations")
    ctx.seen(v, "stored", n)


def shared(ctx, v, how):
    """The limit is each reader's own: several readings with one header, or in one process, together go far beyond it."""
    n = DEFAULT // 2 - 7
    data, unit = numbered(v, n)
    log = io.BytesIO(data)
    header = atoparser.get_header(log)
    for k in range(3):
        if how == "process":
            log = io.BytesIO(data)
            header = atoparser.get_header(log)
        log.seek(480)
        got = sum(1 for _ in atoparser.generate_statistics(log, header))
        if got != n or log.tell() != 480 + n * unit:
            raise Violation("%s: reading %d with the same %s gave %d of %d samples, far below the default limit" % (v, k + 1, how, got, n))
        log.seek(480)
        got = sum(1 for _ in atoparser.generate_statistics(log, header, max_samples=1000))
        if got != 1000 or log.tell() != 480 + 1000 * unit:
            raise Violation("%s: limit 1000 with the same %s gave %d samples" % (v, how, got))
        ctx.count("evaluations", 2)
        ctx.count("limited_readings")
    ctx.seen(v, "shared", how)


def cli(ctx, v):
    """The command uses the default limit: one short row per sample keeps the output small."""
    n = DEFAULT + 30
    data, _ = numbered(v, n)
    path = os.path.join(ctx.tmpdir(), "long.log")
    with open(path, "wb") as f:
        f.write(data)
    result = lib.cli([path, "-P", "CPL"])
    docs = lib.json_documents(result.out)
    if result.code or len(docs) != 1 or not isinstance(docs[0], list):
        raise Violation("the command failed on a long log: %s %s" % (result.code, result.err[-300:]))
    times = [r.get("timestamp") for r in docs[0]]
    if times != list(range(1, DEFAULT + 1)):
        raise Violation("the command printed %d rows, last of sample %s, for a log with %d samples" % (len(times), times[-1:], n))
    ctx.count("default_limits")
    ctx.count("default_samples", len(times))
    ctx.count("evaluations")
    ctx.seen(v, "cli", n)


def run(ctx, kind, p):
    if kind == "far":
        far(ctx, p["v"], p["limit"])
    elif kind == "limits":
        limits(ctx, p["v"])
    elif kind == "row":
        row(ctx, p["v"])
    elif kind == "endless":
        endless(ctx, p["v"])
    elif kind == "default":
        default(ctx, p["v"], p["how"])
    elif kind == "stored":
        stored(ctx, p["v"], p["n"])
    elif kind == "shared":
        shared(ctx, p["v"], p["how"])
    else:
        cli(ctx, p["v"])
