"""P12: the same bytes give the same result through any kind of stream."""
import gzip
import io
import json
import os

import atoparser
from vf import gen, gen126, lib, model, rows, streams
from vf.harness import Violation

RULE = ("Generated logs (whole, cut at boundaries and at random bytes, with a corrupted block, header only, rejected) read "
        "through every stream kind in vf/streams.py in strict and tolerant mode, without a header given, with one read from it or from another stream, compared "
        "with the stored samples and with the same bytes read from memory; the command on plain files against gzip files of "
        "many names and container forms. Distinct by (version, log, stream kind, mode).")
REQUIRE = {"streams_read": 3000, "samples_compared": 4000, "cli_pairs": 120, "errors_compared": 300, "headers_from_elsewhere": 800, "far_positions": 18}
ASSUMPTIONS = ["a stream gives all bytes it is asked for unless it ends first, as io.BufferedIOBase specifies (raw pipes do not)"]


def cases(tier):
    q = tier == "quick"
    out = [("log", {"v": v, "i": i}) for v in model.VERSIONS for i in range(3 if q else 40)]
    out += [("damaged", {"v": v, "i": i}) for v in model.VERSIONS for i in range(2 if q else 30)]
    out += [("rejected", {"v": v}) for v in model.VERSIONS]
    out += [("cli", {"v": v, "i": i}) for v in model.VERSIONS for i in range(2 if q else 20)]
    out += [("many", {"v": v, "n": 200 if q else 1000}) for v in ("1.26", "2.8", "2.12")]
    out += [("far", {"v": v}) for v in model.VERSIONS]
    out += [("large", {"v": v, "n": n}) for v, n in zip(model.VERSIONS, [60, 250, 700, 100, 1500, 65, 400, 160, 900][:len(model.VERSIONS)] + [300] * 9)]
    return out


def read(data, factory, rng, folder, tolerant, given):
    """(header bytes, frozen samples, ending) of these bytes through one kind of stream."""
    elsewhere = given == "elsewhere" and len(data) >= 480
    stream, extra = factory(rng, folder, data[480:] if elsewhere else data)
    try:
        try:
            header = atoparser.get_header(io.BytesIO(data) if elsewhere else stream) if given else None
        except ValueError as e:
            return None, [], type(e).__name__
        kwargs = {"raise_on_truncation": False} if tolerant else {}
        if given:
            kwargs["header"] = header
        out, error = lib.read_all(stream, **kwargs)
        types = [(type(r).__name__, type(s).__name__, type(t).__name__, type(c).__name__) for r, s, t, c in out]
        ending = None if error is None else type(error).__name__
        return (lib.raw(header) if given else None), [lib.frozen(got) for got in out], ending, types, (
            header.semantic_version if given else None)
    finally:
        streams.close(stream, extra)


def compare(ctx, what, data, log=None, complete=None):
    rng = ctx.rng
    folder = ctx.tmpdir()
    want = {}
    for tolerant in (False, True):
        for given in (False, True):
            want[tolerant, given] = read(data, streams.FACTORIES["memory"], rng, folder, tolerant, given)
            if complete is not None:
                got = want[tolerant, given][1]
                if got != [lib.stored(s) for s in log.samples[:complete]]:
                    raise Violation("%s from memory: %d samples, or other ones than the %d stored" % (what, len(got), complete))
                ctx.count("samples_compared", len(got))
    for name, factory in streams.FACTORIES.items():
        tolerant, given = rng.random() < 0.5, rng.choice([False, True, "elsewhere"])
        got = read(data, factory, rng, folder, tolerant, given)
        ctx.count("headers_from_elsewhere", given == "elsewhere")
        ref = want[tolerant, bool(given)]
        for label, a, b in zip(("header", "samples", "ending", "types", "version"), got, ref):
            if a != b:
                if label == "samples":
                    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    a, b = "%d samples" % len(a), "%d (first difference at %d)" % (len(b), n)
                raise Violation("%s through %s (tolerant %s, header given %s): %s is %s instead of %s" % (
                    what, name, tolerant, given, label, lib.short(a), lib.short(b)))
        if len(got) != len(ref):
            raise Violation("%s through %s: %s instead of %s" % (what, name, lib.short(got), lib.short(ref)))
        ctx.count("streams_read")
        ctx.count("samples_compared", len(got[1]))
        ctx.count("errors_compared", got[2] is not None)
        ctx.count("evaluations")
        ctx.seen(what, name, tolerant, given, len(data))


NAMES = ["a.log.gz", "b.gz", ".gz", "c.gz.1", "d.log.gz-20240101", "e.tar.gzx", "f.gz.log", "atop_20240101.gz", "g h.gz", "ü.gz"]
PLAIN = ["a.log", "b", "gz", "c.GZ", "atop_20240101", "d.zip", "g h", "e.g.z", "x.tgz", "ü"]
DIRS = ["", "sub", "logs.gz", "x.gz.d", "a.b/c.gz/d"]


def pack(rng, data):
    r = rng.random()
    if r < 0.5:
        return gzip.compress(data, rng.randint(0, 9))
    if r < 0.7:
        return streams._members(rng, data)
    if r < 0.85:
        return streams._gzip_named(data)
    return gzip.compress(data, 1) + bytes(rng.choice([1, 100]))


def run(ctx, kind, p):
    rng = ctx.rng
    v = p["v"]
    if kind == "log":
        log = gen.log(rng, v, rng.randint(0, 3), tasks=rng.choice([0, 2, 40]), style="sparse")
        compare(ctx, "%s log %d" % (v, p["i"]), log.data, log, len(log.samples))
        ctx.sample({"version": v, "bytes": len(log.data), "streams": list(streams.FACTORIES)})
    elif kind == "many":
        log = gen.tiny(rng, v, p["n"], tasks=1, groups=1)
        compare(ctx, "%s, %d samples" % (v, p["n"]), log.data, log, p["n"])
    elif kind == "far":
        # The log begins far into a (sparse) file.
        log = gen.tiny(rng, v, 3, tasks=2, groups=2)
        folder = ctx.tmpdir()
        for at in sorted(rng.sample([(1 << 31) - 300, (1 << 31) + 1, (1 << 32) - 485, (1 << 32) + 4097, (1 << 40) + 13], 3)):
            path = os.path.join(folder, "far%d" % at)
            try:
                with open(path, "wb") as f:
                    f.seek(at)
                    f.write(log.data)
            except OSError:
                if at < 1 << 40:
                    raise
                continue  # Larger than this file system allows.
            for buffered in (True, False):
                for given in (True, False):
                    with open(path, "rb", **({} if buffered else {"buffering": 0})) as f:
                        f.seek(at)
                        header = atoparser.get_header(f) if given else None
                        out, error = lib.read_all(f, **({"header": header} if given else {}))
                        if error or [lib.frozen(g) for g in out] != [lib.stored(s) for s in log.samples]:
                            raise Violation("%s: a log at byte %d of its file is read as %d samples (%r)" % (v, at, len(out), error))
                        ctx.count("far_positions")
                        ctx.count("evaluations")
                        ctx.seen(v, "far", at, buffered, given)
            os.unlink(path)
    elif kind == "large":
        # Blocks of tens of kilobytes to megabytes.
        lay = model.layout(v)
        log = gen.tiny(rng, v, 3, tasks=1, groups=1)
        for s, n in zip(log.samples, (1, p["n"], 2)):
            s.tstats = [rng.randbytes(lay.size("TStat")) for _ in range(n)]
            if lay.has_cgroups and n > 2:
                s.cgroups = gen.cgroups(rng, lay, n // 2)
            s.how = [{"level": 1}] * 4
        log.build()
        compare(ctx, "%s, %d tasks" % (v, p["n"]), log.data, log, 3)
        s = log.samples[1]
        cut = rng.randint(s.offsets[2] + 1, s.offsets[3] - 1) if len(s.offsets) > 3 else rng.randint(s.offsets[2], log.ends[1] - 1)
        compare(ctx, "%s, %d tasks, cut at %d" % (v, p["n"], cut), log.data[:cut], log, 1)
        ctx.count("large_blocks", sum(b - a > 65536 for a, b in zip(s.offsets[1:], s.offsets[2:] + [log.ends[1]])))
    elif kind == "damaged":
        log = gen.tiny(rng, v, 3, tasks=2, groups=2)
        for _ in range(3):
            s = rng.choice(log.samples)
            points = [rng.choice(s.offsets), rng.choice(s.offsets) + rng.randint(1, 60), rng.randint(480, len(log.data)), 480]
            cut = min(len(log.data), rng.choice(points))
            complete = sum(1 for e in log.ends if e <= cut)
            compare(ctx, "%s cut at %d" % (v, cut), log.data[:cut], log, complete)
            at = rng.randint(s.offsets[1] + 1, s.offsets[2] - 5)
            new = bytearray(log.data)
            new[at:at + 4] = bytes(x ^ 0x55 for x in new[at:at + 4])
            compare(ctx, "%s corrupted at %d" % (v, at), bytes(new))
    elif kind == "rejected":
        log = gen.tiny(rng, v, 1, tasks=1)
        for data in (b"", log.header[:rng.randint(1, 479)], b"\0" + log.data, log.data[1:], bytes(480), log.header[:-1]):
            compare(ctx, "%s rejected" % v, data)
        compare(ctx, "%s header only" % v, log.header, log, 0)
    elif kind == "cli":
        root = ctx.tmpdir()
        for k in range(6):
            small = gen126.log(rng, 2, tasks=2) if v == "1.26" and rng.random() < 0.5 else gen.tiny(rng, v, 2, tasks=2, groups=2)
            data = small.data
            if rng.random() < 0.3:
                data = data[:rng.randint(480, len(data))]
            where = os.path.join(root, str(k))
            folder = [os.path.join(where, rng.choice(DIRS)) for _ in range(2)]
            for f in folder:
                os.makedirs(f, exist_ok=True)
            plain, packed = os.path.join(folder[0], rng.choice(PLAIN)), os.path.join(folder[1], rng.choice(NAMES))
            for path, body in ((plain, data), (packed, pack(rng, data))):
                with open(path, "wb") as f:
                    f.write(body)
            options = [o for o in ("-p", "--tstats", "--cstats") if rng.random() < 0.4]
            if rng.random() < 0.3:
                options += ["-P"] + rng.sample(rows.CLI_FORMATS, 2)
            outs = []
            for path in (plain, packed):
                args = os.path.relpath(path, root) if rng.random() < 0.5 else path
                result = lib.cli([args] + options, cwd=root)
                if result.code or result.err:
                    raise Violation("%s: %s %s failed: %s %s" % (v, path, options, result.code, result.err[-300:]))
                outs.append(result.out.replace(json.dumps(args)[1:-1], "FILE"))
            if outs[0] != outs[1]:
                raise Violation("%s: %s and its gzip form %s print different output with %s: %s" % (
                    v, plain, packed, options, lib.diff_at(outs[0].encode(), outs[1].encode())))
            docs = lib.json_documents(outs[0])
            if len(docs) != 1 or not isinstance(docs[0], list):
                raise Violation("%s: %d documents for one file" % (v, len(docs)))
            if "-P" not in options:
                complete = sum(1 for e in small.ends if e <= len(data))
                if len(docs[0]) != complete:
                    raise Violation("%s: %s printed %d entries, %d samples are complete" % (v, plain, len(docs[0]), complete))
            ctx.count("cli_pairs")
            ctx.count("evaluations")
            ctx.seen(v, os.path.relpath(plain, where), os.path.relpath(packed, where), options)
