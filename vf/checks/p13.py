"""P13: single steps compose to the same result as bulk reading."""
import io
import itertools
import zlib

import atoparser
from vf import gen, lib, model
from vf.harness import Violation
from vf.monitors import TracedStream

RULE = ("Generated logs of every version. Each sample by single steps against bulk reading and the stored bytes, with the "
        "stream position compared after every step; every step alone on a stream that holds only its part; random histories "
        "that mix stepping, partial bulk reading (limits, islice, closed, dropped and kept-alive readers) and re-reading the "
        "header, each continuing at the sample boundary; damaged parts, where step and bulk must fail alike. Distinct by "
        "(version, log, history).")
REQUIRE = {"steps": 1500, "positions": 2500, "isolated_steps": 200, "histories": 200, "handovers": 800, "damaged_steps": 250, "refusals": 200, "long_walks": 9}


def cases(tier):
    q = tier == "quick"
    out = [("compose", {"v": v, "i": i}) for v in model.VERSIONS + ["2.2", "2.13"] for i in range(4 if q else 60)]
    out += [("history", {"v": v, "i": i}) for v in model.VERSIONS for i in range(6 if q else 100)]
    out += [("damaged", {"v": v, "i": i}) for v in model.VERSIONS for i in range(2 if q else 40)]
    out += [("long", {"v": v, "n": 1150 if q else 12000}) for v in model.VERSIONS]
    out += [("refused", {"v": v}) for v in model.VERSIONS + ["2.2", "2.13", "2.100"]]
    return out


STEPS = ("get_record", "get_sstat", "get_tstat", "get_cstat")


def call(rng, name, stream, header, record):
    """One step, with positional or keyword arguments."""
    fn = getattr(atoparser, name)
    if name == "get_record":
        return fn(stream, header) if rng.random() < 0.5 else fn(raw_file=stream, header=header)
    return fn(stream, header, record) if rng.random() < 0.5 else fn(raw_file=stream, header=header, record=record)


def steps(ctx, what, stream, header, log, offsets, base=0):
    """One sample by single steps; each must consume exactly its part."""
    rng = ctx.rng
    parts = []
    names = STEPS if log.layout.has_cgroups else STEPS[:3]
    ends = list(offsets[1:4]) + ([offsets[5]] if log.layout.has_cgroups else [])
    for name, end in zip(names, ends):
        parts.append(call(rng, name, stream, header, parts[0] if parts else None))
        ctx.count("steps")
        if stream.tell() != base + end:
            raise Violation("%s: %s left the stream at %d instead of %d" % (what, name, stream.tell(), base + end))
        ctx.count("positions")
    if len(parts) == 3:
        parts.append([])
    return tuple(parts)


def types(got):
    record, sstat, tstats, cgroups = got
    return (type(record), type(sstat), type(tstats), {type(t) for t in tstats}, type(cgroups), {type(c) for c in cgroups},
            {type(c.cstat) for c in cgroups})


def same(what, a, b):
    if lib.frozen(a) != lib.frozen(b):
        raise Violation("%s: steps and bulk reading give different data" % what)
    if types(a) != types(b):
        raise Violation("%s: steps and bulk reading give different types: %s, %s" % (what, types(a), types(b)))


def opened(ctx, data):
    """A stream over the data that can tell its position."""
    r = ctx.rng.random()
    if r < 0.6:
        return io.BytesIO(data), 0
    if r < 0.8:
        return TracedStream(data), 0
    prefix = ctx.rng.randbytes(ctx.rng.randint(1, 600))
    stream = io.BytesIO(prefix + data)
    stream.seek(len(prefix))
    return stream, len(prefix)


def compose(ctx, v):
    rng = ctx.rng
    log = gen.log(rng, v, rng.randint(1, 4), style="sparse")
    what = "%s, %d samples" % (v, len(log.samples))
    given = io.BytesIO(log.data)
    first = atoparser.get_header(given)
    bulk, error = lib.read_all(given, header=first)
    plain, error2 = lib.read_all(opened(ctx, log.data)[0])
    if error or error2 or len(bulk) != len(log.samples) or len(plain) != len(bulk):
        raise Violation("%s: bulk reading gave %d and %d samples (%r, %r)" % (what, len(bulk), len(plain), error, error2))
    stream, base = opened(ctx, log.data)
    header = atoparser.get_header(stream, False) if rng.random() < 0.3 else atoparser.get_header(stream)
    if stream.tell() != base + 480:
        raise Violation("%s: get_header left the stream at %d instead of 480" % (what, stream.tell() - base))
    lib.check_bytes(what + ": header", header, log.header)
    if type(header) is not type(first):
        raise Violation("%s: header types differ" % what)
    for i, s in enumerate(log.samples):
        where = "%s: sample %d" % (what, i)
        got = steps(ctx, where, stream, header, log, s.offsets, base)
        lib.check_sample(where + " by steps", got, s)
        same(where, got, bulk[i])
        same(where + " without a header given", got, plain[i])
        # Each step on a stream that holds its part and nothing else: the steps share nothing but the header and the record.
        isolated = [call(rng, "get_record", io.BytesIO(log.data[s.offsets[0]:s.offsets[1]]), header, None)]
        order = [("get_sstat", 1, 2), ("get_tstat", 2, 3)] + ([("get_cstat", 3, 5)] if log.layout.has_cgroups else [])
        parts = {}
        rng.shuffle(order)
        for name, a, b in order:
            tail = rng.randbytes(rng.choice([0, 0, 50]))
            part = io.BytesIO(log.data[s.offsets[a]:s.offsets[b]] + tail)
            record = rng.choice([isolated[0], got[0], bulk[i][0]])
            parts[name] = call(rng, name, part, rng.choice([header, first]), record)
            if part.tell() != s.offsets[b] - s.offsets[a]:
                raise Violation("%s: %s on its own consumed %d of %d bytes" % (where, name, part.tell(), s.offsets[b] - s.offsets[a]))
            ctx.count("isolated_steps")
        same(where + " step by step alone", (isolated[0], parts["get_sstat"], parts["get_tstat"], parts.get("get_cstat", [])), bulk[i])
    # In bulk, from a stream that holds samples alone, from its very start.
    k = rng.randint(0, len(log.samples))
    bare, at = opened(ctx, log.data[log.samples[k].offsets[0]:] if k < len(log.samples) else b"")
    alone, error = lib.read_all(bare, header=rng.choice([header, first]))
    if error or len(alone) != len(log.samples) - k or bare.tell() - at != (log.samples[-1].offsets[-1] - log.samples[k].offsets[0] if alone else 0):
        raise Violation("%s: the samples from %d on, on a stream of their own, are read as %d samples (%r), up to %d" % (
            what, k, len(alone), error, bare.tell() - at))
    for i, got in enumerate(alone):
        same("%s: sample %d on a stream without header" % (what, k + i), got, bulk[k + i])
    ctx.count("bare_samples", len(alone))
    left = list(atoparser.generate_statistics(stream, header))
    if left:
        raise Violation("%s: bulk reading after the last step gave %d more samples" % (what, len(left)))
    ctx.count("evaluations")
    ctx.seen(v, "compose", [s.offsets for s in log.samples])
    ctx.sample({"version": v, "parts": [s.offsets for s in log.samples]})


def history(ctx, v):
    rng = ctx.rng
    for _ in range(4):
        n = rng.randint(3, 14)
        log = gen.tiny(rng, v, n, tasks=rng.randint(0, 2), groups=rng.randint(0, 2))
        stream, base = opened(ctx, log.data)
        header = atoparser.get_header(stream)
        others = [atoparser.get_header(io.BytesIO(log.data)) for _ in range(2)]
        at, trace, kept = 0, [], []
        while at < n:
            op = rng.choice(["steps", "limit", "islice", "close", "drop", "keep", "other header", "alternate", "tolerant", "nothing",
                             "whole"][:11 if at > n // 2 else 10])
            k = rng.randint(1, 3)
            trace.append((op, k))
            where = "%s: after %s, sample" % (v, trace)
            before = at
            if op == "steps":
                for _ in range(min(k, n - at)):
                    got = steps(ctx, where, stream, header, log, log.samples[at].offsets, base)
                    lib.check_sample("%s %d" % (where, at), got, log.samples[at])
                    at += 1
                continue
            used = rng.choice(others) if op == "other header" else header
            if op == "nothing":
                # A reader that is made and never used consumes nothing.
                reader = atoparser.generate_statistics(stream, used)
                if rng.random() < 0.5:
                    reader.close()
                kept.append(reader)
            elif op == "limit":
                got = list(atoparser.generate_statistics(stream, used, max_samples=k))
                at = take(ctx, where, log, got, at, min(k, n - at))
            elif op == "whole":
                got = list(atoparser.generate_statistics(stream, used))
                at = take(ctx, where, log, got, at, n - at)
            elif op == "alternate":
                # Two readers on the one stream, in turns with single steps.
                readers = [atoparser.generate_statistics(stream, used), atoparser.generate_statistics(stream, rng.choice(others))]
                for _ in range(2 * k):
                    if at < n:
                        if rng.random() < 0.3:
                            got = steps(ctx, where, stream, header, log, log.samples[at].offsets, base)
                        else:
                            got = next(rng.choice(readers), None)
                        at = take(ctx, where, log, [got], at, 1)
            else:
                kwargs = {"raise_on_truncation": False} if op == "tolerant" else {}
                reader = atoparser.generate_statistics(stream, used, **kwargs)
                got = list(itertools.islice(reader, min(k, n - at)))
                at = take(ctx, where, log, got, at, min(k, n - at))
                if op == "close":
                    reader.close()
                elif op == "keep":
                    kept.append(reader)
                del reader
            end = log.ends[at - 1] if at else 480
            if stream.tell() != base + end:
                raise Violation("%s: %s left the stream at %d instead of %d" % (v, trace, stream.tell() - base, end))
            ctx.count("positions")
            ctx.count("handovers", at - before)
        left = list(atoparser.generate_statistics(stream, header))
        if left:
            raise Violation("%s: %d samples behind the last one, after %s" % (v, len(left), trace))
        ctx.count("histories")
        ctx.count("evaluations")
        ctx.seen(v, n, trace)
        ctx.sample({"version": v, "samples": n, "history": trace})


def long(ctx, v, n):
    """Very many samples with one header: by steps and in bulk, in turn."""
    rng = ctx.rng
    log = gen.long(rng, v, n, 1, 1)
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    raw = lib.raw(header)
    records, at = [], 0
    names = STEPS if log.layout.has_cgroups else STEPS[:3]
    while at < n:
        k = min(n - at, rng.choice([1, 5, 100, 300]))
        if rng.random() < 0.7:
            for i in range(at, at + k):
                got = []
                for name in names:
                    got.append(getattr(atoparser, name)(stream, header, *got[:1]))
                if i % 25 == 0 or i > n - 3:
                    lib.check_sample("%s: sample %d of %d by steps" % (v, i, n), tuple(got) + (([],) if len(got) == 3 else ()), log.samples[i])
                records.append(got[0])
                ctx.count("steps", len(got))
        else:
            for i, got in enumerate(itertools.islice(atoparser.generate_statistics(stream, header), k), at):
                if i % 25 == 0 or i > n - 3:
                    lib.check_sample("%s: sample %d of %d in bulk" % (v, i, n), got, log.samples[i])
                records.append(got[0])
        at += k
        if stream.tell() != log.ends[at - 1]:
            raise Violation("%s: after %d of %d samples the stream stands at %d instead of %d" % (v, at, n, stream.tell(), log.ends[at - 1]))
    if next(atoparser.generate_statistics(stream, header), None) is not None or len(records) != n:
        raise Violation("%s: %d samples instead of %d" % (v, len(records), n))
    if len({id(r) for r in records}) != n:
        raise Violation("%s: of %d records only %d are objects of their own" % (v, n, len({id(r) for r in records})))
    for i, r in enumerate(records):
        lib.check_bytes("%s: record %d of %d at the end" % (v, i, n), r, bytes(log.samples[i].record))
    lib.check_bytes("%s: the header at the end" % v, header, raw)
    ctx.count("long_walks")
    ctx.count("evaluations")
    ctx.seen(v, "long", n)


def take(ctx, where, log, got, at, expected):
    if len(got) != expected or None in got:
        raise Violation("%s %d: %s delivered instead of %d" % (where, at, [g is not None for g in got], expected))
    for g in got:
        lib.check_sample("%s %d" % (where, at), g, log.samples[at])
        at += 1
    return at


def damaged(ctx, v):
    """A damaged part makes its own step fail, as bulk reading does; the steps before it succeed."""
    rng = ctx.rng
    log = gen.tiny(rng, v, 3, tasks=2, groups=2)
    for _ in range(16):
        k = rng.randrange(3)
        s = log.samples[k]
        blocks = [b for b in range(1, len(s.offsets) - 1) if s.offsets[b] < s.offsets[b + 1]]
        b = rng.choice(blocks)
        a, e = s.offsets[b], s.offsets[b + 1]
        if rng.random() < 0.5:
            data = log.data[:rng.randint(a, e - 1)]
        else:
            at = rng.randint(a + 2, e - 1)
            data = log.data[:at] + bytes([log.data[at] ^ 0xFF]) + log.data[at + 1:]
            try:
                zlib.decompress(data[a:e])
                continue  # The flip hit bits that do not matter.
            except zlib.error:
                pass
        bulk, error = lib.read_all(io.BytesIO(data))
        if error is None or len(bulk) != k:
            raise Violation("%s: damage in sample %d gave %d samples and %r" % (v, k, len(bulk), error))
        stream = io.BytesIO(data)
        header = atoparser.get_header(stream)
        for i in range(k):
            same("%s: sample %d before the damage" % (v, i), steps(ctx, v, stream, header, log, log.samples[i].offsets), bulk[i])
        record = None
        names = STEPS if log.layout.has_cgroups else STEPS[:3]
        failing = min(b, len(names) - 1)
        for j, name in enumerate(names[:failing + 1]):
            try:
                got = call(rng, name, stream, header, record)
                record = record or got
                failure = None
            except Exception as e:  # pylint: disable=broad-except
                failure = e
            ctx.count("damaged_steps")
            if (failure is not None) != (j == failing):
                raise Violation("%s: damage in block %d: %s ended with %r" % (v, b, name, failure))
            if failure is not None and type(failure) is not type(error):
                raise Violation("%s: %s raises %r, bulk reading %r" % (v, name, failure, error))
        ctx.count("evaluations")
        ctx.seen(v, "damage", k, b, len(data))


def refused(ctx, v):
    """A header that get_header refuses is refused by bulk reading as well, with the same error."""
    rng = ctx.rng
    log = gen.tiny(rng, v, 2, tasks=1, groups=1)
    lay = log.layout
    lengths = gen.lengths(lay)
    for _ in range(20):
        data = bytearray(log.data)
        field = rng.choice(sorted(lengths))
        wrong = rng.choice([lengths[field] + d for d in (-8, -1, 1, 8, 256)] + [0])
        lay.put(data, "Header", (field,), wrong)
        what = "%s with %s %d" % (v, field, wrong)
        if rng.random() < 0.2:
            data[rng.randrange(4)] ^= 1 << rng.randrange(8)
            what += " and a wrong magic"
        elif rng.random() < 0.2:
            del data[rng.randint(0, 479):]
            what += " cut to %d bytes" % len(data)
        ends = []
        for read in (lambda s: atoparser.get_header(s), lambda s: list(atoparser.generate_statistics(s)),
                     lambda s: list(atoparser.generate_statistics(s, raise_on_truncation=False)),
                     lambda s: list(atoparser.generate_statistics(s, None, False, rng.choice([1, 10])))):
            try:
                got = read(io.BytesIO(bytes(data)))
                ends.append("accepted, %s" % type(got).__name__)
            except ValueError:
                ends.append("refused")
            except Exception as e:  # pylint: disable=broad-except
                ends.append(repr(e))
        ctx.count("refusals")
        ctx.count("evaluations")
        ctx.seen("refused", what)
        if set(ends) != {"refused"}:
            raise Violation("%s: get_header %s; bulk reading without a header strict: %s, tolerant: %s, limited: %s" % (what, *ends))


def run(ctx, kind, p):
    if kind == "long":
        long(ctx, p["v"], p["n"])
        return
    {"compose": compose, "history": history, "damaged": damaged, "refused": refused}[kind](ctx, p["v"])
