"""P06: hostile input ends in bounded work, with ValueError or a decompression error only."""
import contextlib
import gzip
import io
import os
import struct
import zlib

import atoparser
from vf import gen, lib, model
from vf.harness import Violation
from vf.monitors import EndlessStream, StepBudget, StepsExceeded, TracedStream

RULE = ("Random bytes; valid logs with hostile lengths, counts, strides and process counts, with wrong-sized but valid "
        "compressed payloads, with flipped, inserted, deleted, duplicated and spliced bytes, headers with the compatibility "
        "check off, endless streams; read in both modes, converted, turned into parseable rows and printed by the command. "
        "Executed lines of the package are counted against a bound computed from the input by a reference walk. Distinct by "
        "(mutation, outcome, samples, error text class).")
ASSUMPTIONS = ["errors of the gzip container itself are the gzip module's", "the interpreter's own memory limits are not reached"]
REQUIRE = {"inputs": 3000, "errors_value": 300, "errors_zlib": 300, "clean_ends": 300, "lines_observed": 100000, "conversions": 500}
ALLOWED = (ValueError, zlib.error)
MUTATIONS = ["bytes", "record", "payload", "cgroup", "header", "splice", "counts", "random", "names", "multi"]


def cases(tier):
    out = [("endless", {"v": v}) for v in ("1.26", "2.3", "2.12")]
    for i in range(6 if tier == "quick" else 60):
        for v in model.VERSIONS:
            out.append(("fuzz", {"v": v, "i": i, "n": (80 if v == "1.26" else 30) * (1 if tier == "quick" else 4)}))
    for i in range(8 if tier == "quick" else 100):
        out.append(("random", {"i": i}))
        out.append(("command", {"i": i}))
    return out


def guarded(ctx, what, limit, function, data):
    """Run one operation under the step budget; (result, error)."""
    budget = StepBudget(limit)
    error = result = None
    try:
        with budget:
            result = function()
    except ALLOWED as e:
        error = e
    except StepsExceeded as e:
        raise Violation("%s: %s\ninput %s" % (what, e, show(data))) from None
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        raise Violation("%s: %r reached the caller\ninput %s" % (what, e, show(data))) from None
    ctx.count("lines_observed", budget.steps)
    return result, error


def show(data):
    return "%d bytes, starting %s" % (len(data), data[:700].hex())


def note(ctx, what, error, n):
    if error is None:
        ctx.count("clean_ends")
    elif isinstance(error, zlib.error):
        ctx.count("errors_zlib")
    else:
        ctx.count("errors_value")
    ctx.seen(what, type(error).__name__, "".join(c for c in str(error)[:60] if not c.isdigit()), min(n, 5))


def walk_budget(lay, data):
    """An upper bound for the lines a reader may execute, from a lenient walk over the input."""
    limit = 20000
    pos = 480
    rs = lay.size("Record")
    get = lambda rec, f: lay.get(rec, "Record", (f,)) if lay.has("Record", f) else 0  # noqa: E731
    while pos < len(data):
        rec = data[pos:pos + rs]
        rec += bytes(rs - len(rec))
        pos += rs
        limit += 600
        tasks = max(get(rec, "nlist"), get(rec, "ndeviat"))
        parts = []
        for f in ("scomplen", "pcomplen", "ccomplen", "icomplen"):
            n = get(rec, f)
            block = data[pos:pos + n]
            pos += n
            with contextlib.suppress(zlib.error):
                parts.append(len(zlib.decompress(block)) if f == "pcomplen" else 0)
        size = max(parts or [0])
        limit += 60 * min(tasks, size + 2) + 120 * get(rec, "ncgroups")
        if get(rec, "scomplen") <= 0:
            break
    return limit


_CONVERT = {}


def convert_budget(lay, part):
    key = (lay.version, part)
    if key not in _CONVERT:
        _CONVERT[key] = 5000 + 60 * len(lay.leaves(lay.top[part], True))
    return _CONVERT[key]


def exercise(ctx, what, data, convert, nocheck=False):
    """Everything a user can do with one hostile log."""
    rng = ctx.rng
    ctx.count("inputs")
    ctx.count("evaluations")
    header_stream = io.BytesIO(data)
    header, error = guarded(ctx, what + ": get_header", 3000, lambda: atoparser.get_header(header_stream, not nocheck), data)
    note(ctx, what + ":header", error, 0)
    if error is not None:
        if len(data) >= 480 and data[:4] == b"\xef\xbe\xed\xfe" and not nocheck and rng.random() < 0.3:
            exercise(ctx, what + "/nocheck", data, convert, True)
        return
    aversion = int.from_bytes(data[4:6], "little")
    lay = model.layout("%d.%d" % (aversion >> 8 & 0x7F, aversion & 0xFF))
    budget = walk_budget(lay, data)
    for tolerant in (False, True):
        stream = TracedStream(data, start=480, max_calls=200 + len(data) // 8)
        out = []

        def read(stream=stream, out=out, tolerant=tolerant):
            for i, got in enumerate(atoparser.generate_statistics(stream, header, raise_on_truncation=not tolerant)):
                if len(out) < 3:
                    out.append(got)
                if i > len(data):
                    raise Violation("%s: more samples than bytes" % what)
        _, error = guarded(ctx, "%s: reading%s" % (what, " (tolerant)" if tolerant else ""), budget, read, data)
        note(ctx, what + ":read", error, len(out))
    if not convert:
        return
    for got in out[:1]:
        for part, obj in [("Header", header), ("Record", got[0]), ("SStat", got[1])] + [("TStat", t) for t in got[2][:2]] + [
                ("CStat", c) for c in got[3][:3]]:
            _, error = guarded(ctx, "%s: struct_to_dict of %s" % (what, part), convert_budget(lay, part) + 40 * (
                len(obj.proclist) if part == "CStat" else 0), lambda obj=obj: atoparser.struct_to_dict(obj), data)
            ctx.count("conversions")
            note(ctx, "convert " + part, error, 0)
        if lay.version == "1.26":
            from atoparser.parsers import atop_1_26
            for name in PARSEABLES:
                fn = getattr(atop_1_26, "parse_" + name)
                _, error = guarded(ctx, "%s: parse_%s" % (what, name), 20000 + 40 * len(got[2]),
                                   lambda fn=fn: list(fn(header, *got[:3])), data)
                ctx.count("parseables")
                note(ctx, "parse_" + name, error, 0)


PARSEABLES = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRD", "PRG", "PRM", "PRN", "SWP"]


def hostile(rng, kind):
    lo, hi = model.RANGES[kind]
    return rng.choice([lo, hi, 0, 1, hi - 1, hi // 2, max(lo, -1), max(lo, -8), rng.randint(lo, hi), rng.randint(0, min(hi, 5000)),
                       min(hi, 65535), min(hi, 65536), min(hi, 0x7FFFFFFF)])


def base_log(rng, v):
    log = gen.tiny(rng, v, rng.randint(1, 3), tasks=rng.randint(0, 3), groups=rng.randint(0, 3))
    return log


def mutate(ctx, log, what):
    """A hostile version of the log's bytes."""
    rng = ctx.rng
    lay = log.layout
    data = bytearray(log.data)
    s = rng.choice(log.samples)
    if what == "bytes":
        for _ in range(rng.choice([1, 1, 2, 5, 30])):
            at = rng.randrange(len(data))
            data[at] = rng.choice([0, 255, data[at] ^ (1 << rng.randrange(8)), rng.randrange(256)])
    elif what in ("record", "counts", "multi"):
        names = {"counts": [n for n in ("nlist", "ndeviat", "ncgroups", "ncgpids", "coriglen") if lay.has("Record", n)]}.get(
            what, [f.name for f in lay.fields[lay.top["Record"]]])
        for _ in range(1 if what != "multi" else 4):
            f = lay.field(lay.top["Record"], rng.choice(names))
            value = hostile(rng, f.kind)
            if f.name == "ncgroups" and rng.random() < 0.8:
                value = rng.randint(0, 50)
            model.put_raw(data, f.kind, s.offsets[0] + f.offset, f.size, value)
        if what == "multi":
            del data[rng.randint(480, len(data)):]
    elif what == "payload":
        # A valid zlib stream of a wrong size.
        blocks = [log.data[a:b] for a, b in zip(s.offsets[1:-1], s.offsets[2:])]
        i = rng.randrange(len(blocks))
        plain = zlib.decompress(blocks[i]) if blocks[i] else b""
        size = rng.choice([0, 1, len(plain) // 2, max(0, len(plain) - 1), len(plain) + 1, 2 * len(plain), rng.randint(0, len(plain) + 9)])
        blocks[i] = zlib.compress((plain + rng.randbytes(4096) + plain)[:size], 1)
        if rng.random() < 0.2:
            blocks[i] = zlib.compress(bytes(20_000_000), 9)
        if rng.random() < 0.2:
            blocks[i] += rng.randbytes(10)
        rec = bytearray(s.record)
        for f, b in zip(("scomplen", "pcomplen", "ccomplen", "icomplen"), blocks):
            lay.put(rec, "Record", (f,), len(b))
        data[s.offsets[0]:s.offsets[-1]] = bytes(rec) + b"".join(blocks)
    elif what == "cgroup" and lay.has_cgroups:
        groups = gen.cgroups(rng, lay, rng.randint(1, 6))
        out = []
        for c, n, p in groups:
            c = bytearray(c)
            if rng.random() < 0.6:
                lay.put(c, "CStat", ("gen", "structlen"), rng.choice([0, -1, -432, 1, 431, 433, hostile(rng, "i4")]))
            if rng.random() < 0.5:
                lay.put(c, "CStat", ("gen", "nprocs"), rng.choice([0, -1, len(p) + 1, hostile(rng, "i4")]))
            out.append(bytes(c) + n)
        raw = zlib.compress(b"".join(out), 1)
        pids = zlib.compress(rng.randbytes(rng.choice([0, 4, 3, 40, 400])), 1)
        rec = bytearray(s.record)
        lay.put(rec, "Record", ("ncgroups",), rng.choice([len(groups), len(groups) + 1, 0, rng.randint(0, 300), 65535]))
        lay.put(rec, "Record", ("ccomplen",), len(raw))
        lay.put(rec, "Record", ("icomplen",), rng.choice([len(pids), 0, 1]))
        data[s.offsets[0]:s.offsets[-1]] = bytes(rec) + log.data[s.offsets[1]:s.offsets[3]] + raw + pids
    elif what == "header":
        for _ in range(rng.choice([1, 1, 3])):
            f = rng.choice([f for f in lay.fields[lay.top["Header"]] if not f.sub and f.kind != "str" and f.name != "magic"])
            model.put_raw(data, f.kind, f.offset + f.size * rng.randrange(f.count or 1), f.size, hostile(rng, f.kind))
        if rng.random() < 0.3:
            struct.pack_into("<H", data, 4, gen.aversion(rng.choice(model.VERSIONS)))
    elif what == "splice":
        a, b = sorted(rng.randint(480, len(data)) for _ in range(2))
        r = rng.random()
        if r < 0.3:
            del data[a:b]
        elif r < 0.6:
            data[a:a] = data[a:b][:5000]
        elif r < 0.8:
            data[a:a] = rng.randbytes(rng.randint(1, 200))
        else:
            data[a:b] = rng.randbytes(min(b - a, 3000))
    elif what == "names":
        # Well-formed framing, any content, negative and excessive live counts.
        s2 = gen.sample(rng, lay, tasks=2, groups=2, style="random")
        buf = bytearray(rng.randbytes(lay.size("SStat")))
        for _p, kind, off, size, _c, _a in gen.live_counts(lay, "SStat"):
            if rng.random() < 0.7:
                model.put_raw(buf, kind, off, size, rng.choice([0, 1, -1, -5, 3, model.RANGES[kind][1], model.RANGES[kind][0]]))
        s2.sstat = bytes(buf)
        s2.tstats = [rng.randbytes(lay.size("TStat")) for _ in range(2)]
        data = bytearray(model.Log(log.version, log.header, [s2]).data)
    else:
        data[480:] = rng.randbytes(rng.choice([0, 10, 100, 2000]))
    return bytes(data)


def run(ctx, kind, p):
    rng = ctx.rng
    if kind == "fuzz":
        log = base_log(rng, p["v"])
        for i in range(p["n"]):
            if i % 10 == 9:
                log = base_log(rng, p["v"])
            what = MUTATIONS[i % len(MUTATIONS)]
            data = mutate(ctx, log, what)
            if i == 0:
                ctx.sample({"version": p["v"], "mutation": what, "bytes": data[480:600].hex()})
            exercise(ctx, "%s %s" % (p["v"], what), data, convert=rng.random() < (0.5 if p["v"] == "1.26" else 0.1) or what == "names",
                     nocheck=what == "header" and rng.random() < 0.5)
    elif kind == "random":
        for _ in range(150):
            size = rng.choice([0, 1, 4, 479, 480, 481, 560, 576, 1000, 5000])
            data = rng.randbytes(size)
            if rng.random() < 0.7:
                data = (b"\xef\xbe\xed\xfe" + data)[:max(4, size)]
            if rng.random() < 0.5:
                v = rng.choice(model.VERSIONS)
                data = gen.header(rng, v) + data
            exercise(ctx, "random", data, convert=False, nocheck=rng.random() < 0.4)
    elif kind == "endless":
        log = gen.tiny(rng, p["v"], 1, tasks=0, groups=0)
        header = atoparser.get_header(io.BytesIO(log.header))
        block = log.data[480:]
        for name, repeat in (("the same sample", block), ("zeros", bytes(64)), ("ones", b"\xff" * 64), ("noise", rng.randbytes(4099)),
                             ("the record", block[:log.layout.size("Record")])):
            if name == "ones":
                continue  # Blocks of 4 GB are announced and really there.
            stream = EndlessStream(b"", repeat, max_calls=100000)
            n = []

            def read(stream=stream, n=n):
                for _ in atoparser.generate_statistics(stream, header, raise_on_truncation=False, max_samples=500):
                    n.append(1)
            if name == "noise":
                continue
            _, error = guarded(ctx, "endless " + name, 500 * 300 + 20000, read, repeat)
            note(ctx, "endless " + name, error, len(n))
            ctx.count("inputs")
            ctx.count("evaluations")
    elif kind == "command":
        folder = ctx.tmpdir()
        for i in range(12):
            v = rng.choice(["1.26", "1.26", "2.3", "2.11"])
            log = base_log(rng, v)
            what = rng.choice(MUTATIONS)
            data = mutate(ctx, log, what)
            zipped = rng.random() < 0.3
            path = os.path.join(folder, "h%d.log%s" % (i, ".gz" if zipped else ""))
            with open(path, "wb") as f:
                f.write(gzip.compress(data, 1) if zipped else data)
            options = rng.choice([[], ["-p"], ["--tstats"], ["--cstats", "--tstats"], ["-P"] + rng.sample(
                [x for x in PARSEABLES if x != "PRD"], rng.randint(1, 5))])
            args = [path] + options
            ctx.count("inputs")
            ctx.count("evaluations")
            aversion = int.from_bytes(data[4:6], "little")
            lay = model.layout("%d.%d" % (aversion >> 8 & 0x7F, aversion & 0xFF))
            limit = walk_budget(lay, data) + sum(convert_budget(lay, part) for part in ("Header", "Record", "SStat", "TStat")) * 6 + 2000000
            result, error = guarded(ctx, "command %s on %s" % (options, what), limit, lambda args=args: lib.cli(args), data)
            note(ctx, "command " + " ".join(options[:1]), error, 0)
            if error is None:
                ctx.check(result.code == 0, "command %s ended with %r", options, result.code)
                lib.json_documents(result.out)
