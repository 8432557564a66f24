"""P05: a cut or damaged log yields exactly its intact prefix."""
import gzip
import io
import json
import os
import zlib

import atoparser
from vf import gen, lib, model
from vf.harness import Violation
from vf.monitors import TracedStream

RULE = ("Small logs of every version cut at every byte after the header (both truncation modes), larger ones at and around "
        "every structural boundary and at random bytes; each compressed block with a bit flip at every byte, overwritten, "
        "zeroed or truncated in place, or announced shorter than it is; samples with every combination of parts; logs zeroed from any byte on, "
        "or with zero bytes behind or between samples; gzip files of logs cut at many bytes; the command on cut files. The oracle is the "
        "stored samples that end at or before the fault. Distinct by (version, log, fault kind, fault position).")
ASSUMPTIONS = ["a cut inside a record may end reading quietly or with a decompression error, as the statement allows"]
LEVEL = "fault_enumeration"
REQUIRE = {"cuts": 5000, "corruptions": 3000, "gzip_cuts": 300, "quiet_ends": 3000, "decompression_errors": 3000, "cli_cuts": 20, "zeroed_tails": 2000,
           "short_lengths": 300, "late_faults": 24}


def cases(tier):
    out = []
    for v in reversed(model.VERSIONS):
        parts = 4
        for k in range(parts):
            out.append(("every", {"v": v, "k": k, "of": parts, "n": 2 if tier == "quick" else 4}))
        for k in range(2 if tier == "quick" else 10):
            out.append(("corrupt", {"v": v, "i": k}))
        out.append(("gzip", {"v": v}))
        out.append(("late", {"v": v, "n": 1500 if tier == "quick" else 9000}))
        out.append(("cli", {"v": v}))
        for i in range(2 if tier == "quick" else 25):
            out.append(("boundary", {"v": v, "i": i}))
        for k in range(2):
            out.append(("zeros", {"v": v, "k": k, "of": 2}))
        for k in range(3 if model.layout(v).has_cgroups else 1):
            out.append(("shapes", {"v": v, "k": k, "of": 3}))
    return out


def small(rng, v, n, shapes=("full",)):
    """Few bytes, but with all parts present (or as the shapes say, in turn)."""
    log = gen.tiny(rng, v, n, tasks=1, groups=2)
    for i, s in enumerate(log.samples):
        shape = shapes[i % len(shapes)]
        if shape == "no tasks":
            s.tstats = []
        if log.layout.has_cgroups:
            if shape in ("no groups", "no tasks"):
                s.cgroups = []  # The empty blocks are stored.
            elif shape in ("no pids", "pid block left out"):
                s.cgroups = [(c, nm, []) for c, nm, _ in s.cgroups]
                s.omit_pids = shape == "pid block left out"
            elif shape == "group blocks left out":
                s.cgroups = []
                s.omit_cgroups = True
        s.how = [{"level": 6}] * 4
        for i, t in enumerate(s.tstats):
            b = bytearray(len(t))
            b[:16] = rng.randbytes(16)
            s.tstats[i] = bytes(b)
        for i, (c, nm, pids) in enumerate(s.cgroups):
            b = bytearray(len(c))
            log.layout.put(b, "CStat", ("gen", "structlen"), len(c) + len(nm))
            log.layout.put(b, "CStat", ("gen", "nprocs"), len(pids))
            s.cgroups[i] = (bytes(b), nm, pids)
    log.build()
    return log


def late(ctx, v, n):
    """A fault behind very many intact samples."""
    rng = ctx.rng
    log = gen.long(rng, v, n, 1, 1)
    for k in [rng.randint(90, 140), rng.randint(260, 400), rng.randint(n - 200, n - 1)] + ([rng.randint(1000, n - 1)] if ctx.thorough else []):
        s = log.samples[k]
        block = rng.choice([b for b in range(1, len(s.offsets) - 1) if s.offsets[b] + 8 < s.offsets[b + 1]])
        start, end = s.offsets[block], s.offsets[block + 1]
        how = rng.choice(["cut", "corrupt"])
        if how == "cut":
            data = log.data[:rng.randint(start, end - 1)]
        else:
            data = log.data[:end - 4] + bytes(b ^ 0x5a for b in log.data[end - 4:end]) + log.data[end:]  # Its checksum.
        for kwargs in rng.choice([[{}, {"raise_on_truncation": False}], [{"raise_on_truncation": True}, {"raise_on_truncation": False}], [{}]]):
            what = "%s, %s in block %d of sample %d of %d, %s" % (v, how, block - 1, k, n, kwargs)
            reader = atoparser.generate_statistics(io.BytesIO(data), **kwargs)
            done, error = 0, None
            try:
                for got in reader:
                    if done >= k:
                        raise Violation("%s: a sample beyond the fault" % what)
                    if done % 50 == 0 or done > k - 3:
                        lib.check_sample("%s: sample %d" % (what, done), got, log.samples[done])
                    done += 1
            except (zlib.error, EOFError) as e:
                error = e
            ctx.count("evaluations")
            ctx.count("late_faults")
            ctx.seen(v, "late", k, how, block, sorted(kwargs))
            tolerant = "raise_on_truncation" in kwargs and not kwargs["raise_on_truncation"]
            if done != k:
                raise Violation("%s: %d samples delivered (%r)" % (what, done, error))
            if tolerant and error is not None or not tolerant and not isinstance(error, zlib.error):
                raise Violation("%s: ended with %r" % (what, error))




def judge(ctx, what, log, stream, complete, must_raise, may_raise, tolerant, header=True, errors=(zlib.error,)):
    """Read a faulty stream; exactly the first `complete` samples, then a quiet end or an error as specified."""
    kwargs = {}
    if tolerant:
        kwargs["raise_on_truncation"] = False
    elif ctx.rng.random() < 0.5:
        kwargs["raise_on_truncation"] = True
    if header:
        kwargs["header"] = atoparser.get_header(stream)
    out, error = lib.read_all(stream, limit=len(log.samples) + 5, **kwargs)
    ctx.count("evaluations")
    mode = "tolerant" if tolerant else "strict"
    if len(out) != complete:
        raise Violation("%s, %s: %d samples delivered, %d are complete (%r)" % (what, mode, len(out), complete, error))
    for i in range(complete):
        lib.check_sample("%s, %s: sample %d" % (what, mode, i), out[i], log.samples[i])
    if error is None:
        if must_raise and not tolerant:
            raise Violation("%s, %s: no error although compressed data is incomplete or corrupt" % (what, mode))
        ctx.count("quiet_ends")
    else:
        if tolerant or not (must_raise or may_raise):
            raise Violation("%s, %s: ended with %r" % (what, mode, error))
        if not isinstance(error, errors):
            raise Violation("%s, %s: ended with %r instead of a decompression error" % (what, mode, error))
        ctx.count("decompression_errors")


def outcome(log, cut):
    """(complete samples, must raise, may raise) for a log that ends at byte cut."""
    complete = sum(1 for e in log.ends if e <= cut)
    must = may = False
    if complete < len(log.samples):
        offsets = log.samples[complete].offsets
        must = cut >= offsets[1]
        may = offsets[0] < cut < offsets[1]
    return complete, must, may


def cut_at(ctx, log, cut, name):
    complete, must, may = outcome(log, cut)
    ctx.count("cuts")
    ctx.seen(log.version, name, "cut", cut)
    data = log.data[:cut]
    for tolerant in (True, False):
        r = ctx.rng.random()
        stream = io.BytesIO(data) if r < 0.8 else TracedStream(data, max_calls=100 + 10 * len(log.samples))
        judge(ctx, "%s cut at byte %d (parts start at %s)" % (log.version, cut, [s.offsets for s in log.samples[:6]]), log,
              stream, complete, must, may, tolerant, ctx.rng.random() < 0.7)


SHAPES = ("no pids", "pid block left out", "no groups", "no tasks", "group blocks left out", "full")


def walk(log, data):
    """How a damaged copy of a log reads: (complete samples, must raise, may raise), from zlib and the layout alone."""
    lay = log.layout
    size = lay.size("Record")
    parts = [("scomplen", None), ("pcomplen", None)] + ([("ccomplen", 1), ("icomplen", 1)] if lay.has_cgroups else [])
    for i, s in enumerate(log.samples):
        if data[:s.offsets[-1]] == log.data[:s.offsets[-1]]:
            continue
        at = s.offsets[0]
        record = data[at:at + size]
        if len(record) < size:
            record += bytes(size - len(record))
            return i, False, True
        at += size
        if lay.get(record, "Record", ("scomplen",)) == 0:
            return i, False, False
        for field, optional in parts:
            n = lay.get(record, "Record", (field,))
            if n or not optional:
                try:
                    zlib.decompress(data[at:at + n])
                except zlib.error:
                    return i, True, False
            at += n
        return None, False, False  # Only its structures are wrong: not judged here.
    return len(log.samples), False, False


def damaged(ctx, log, data, name, what):
    """Read a damaged copy in both modes."""
    complete, must, may = walk(log, data)
    if complete is None:
        ctx.count("unjudged")
        return
    ctx.count(name)
    ctx.seen(log.version, name, what)
    for tolerant in (True, False):
        judge(ctx, "%s %s (parts start at %s)" % (log.version, what, [s.offsets for s in log.samples[:6]]), log,
              io.BytesIO(data), complete, must, may, tolerant, ctx.rng.random() < 0.7)


def run(ctx, kind, p):
    rng = ctx.rng
    v = p["v"]
    lay = model.layout(v)
    if kind == "zeros":  # What a crash leaves of blocks that were never written.
        log = small(lib.seeded(ctx.seed, v, "zeros"), v, 3)
        step = 1 if ctx.thorough else 3
        for at in range(480 + p["k"] * step, len(log.data) + 1, p["of"] * step):
            data = log.data[:at] + bytes(len(log.data) - at)
            if data != log.data:
                damaged(ctx, log, data, "zeroed_tails", "zeroed from byte %d" % at)
        if p["k"] == 0:
            for more in [1, 2, 7, 19, 20, 63, 64, lay.size("Record") - 1, lay.size("Record"), lay.size("Record") + 1, 4096, 100000]:
                data = log.data + bytes(more)
                ctx.count("zeroed_tails")
                ctx.seen(v, "zeros behind", more)
                for tolerant in (True, False):
                    judge(ctx, "%s followed by %d zero bytes" % (v, more), log, io.BytesIO(data), len(log.samples), False, False, tolerant,
                          rng.random() < 0.7)
                for i, e in enumerate(log.ends):  # A lost stretch in the middle hides what follows.
                    data = log.data[:e] + bytes(max(more, lay.size("Record"))) + log.data[e:]
                    ctx.count("zeroed_tails")
                    ctx.seen(v, "zeros after sample", i, more)
                    for tolerant in (True, False):
                        judge(ctx, "%s with zero bytes after sample %d" % (v, i), log, io.BytesIO(data), i + 1, False, False, tolerant,
                              rng.random() < 0.7)
    elif kind == "shapes":
        shapes = SHAPES if lay.has_cgroups else ("no tasks", "full")
        log = small(rng, v, len(shapes), shapes)
        names = ["scomplen", "pcomplen"] + (["ccomplen", "icomplen"] if lay.has_cgroups else [])
        for i, s in enumerate(log.samples):
            if lay.has_cgroups and i % p["of"] != p["k"]:
                continue
            for b, (start, end) in enumerate(zip(s.offsets[1:-1], s.offsets[2:])):
                shape = shapes[i % len(shapes)]
                for cut in range(start, end + 1):
                    cut_at(ctx, log, cut, "shape " + shape)
                lengths = set(range(end - start)) if ctx.thorough else lib.interesting(rng, end - start - 1, end - start - 4, 1, 2) if end > start else ()
                for n in sorted(n for n in lengths if 0 <= n < end - start):
                    if n == 0 and b > 1:
                        continue
                    data = bytearray(log.data)
                    record = data[s.offsets[0]:s.offsets[1]]
                    lay.put(record, "Record", (names[b],), n)
                    data[s.offsets[0]:s.offsets[1]] = record
                    damaged(ctx, log, bytes(data), "short_lengths", "block %d of sample %d (%s) announced as %d bytes" % (b, i, shape, n))
                for at in range(start, end):
                    data = bytearray(log.data)
                    data[at] ^= 1 << rng.randrange(8)
                    damaged(ctx, log, bytes(data), "corruptions", "byte %d flipped, block %d of sample %d (%s)" % (at, b, i, shape))
    elif kind == "late":
        late(ctx, v, p["n"])
    elif kind in ("every", "boundary", "corrupt", "gzip", "cli"):
        run_cuts(ctx, kind, p)


def run_cuts(ctx, kind, p):
    rng = ctx.rng
    v = p["v"]
    lay = model.layout(v)
    if kind == "every":
        log = small(lib.seeded(ctx.seed, v), v, p["n"])
        for cut in range(480 + p["k"], len(log.data) + 1, p["of"]):
            cut_at(ctx, log, cut, "every%d" % p["n"])
        if p["k"] == 0:
            ctx.sample({"version": v, "log bytes": len(log.data), "cut at": "every byte from 480", "parts": [s.offsets for s in log.samples]})
    elif kind == "boundary":
        log = gen.log(rng, v, rng.randint(1, 4))
        points = {480, len(log.data)}
        for s in log.samples:
            points |= set(s.offsets)
            points |= {s.offsets[0] + k for k in (8, 16, 20, 24, 28, 32, 80, 84, 88, 92)}
        cuts = set(lib.interesting(rng, len(log.data), *points))
        cuts |= {rng.randint(480, len(log.data)) for _ in range(30)}
        for cut in sorted(c for c in cuts if c >= 480):
            cut_at(ctx, log, cut, p["i"])
    elif kind == "corrupt":
        log = small(rng, v, 3)
        victim = log.samples[p["i"] % 3]
        index = p["i"] % 3
        blocks = list(zip(victim.offsets[1:-1], victim.offsets[2:]))
        for b, (start, end) in enumerate(blocks):
            if start == end:
                continue
            block = log.data[start:end]
            right = zlib.decompress(block)
            faults = []
            for at in range(len(block)):
                new = bytearray(block)
                new[at] ^= 1 << rng.randrange(8)
                faults.append(("flip %d" % at, bytes(new)))
            for _ in range(12):
                faults.append(("random", rng.randbytes(len(block))))
            faults += [("zeros", bytes(len(block))), ("ones", b"\xff" * len(block)), ("text", (b"text" * len(block))[:len(block)]),
                       ("header only", block[:2] + bytes(len(block) - 2)), ("no checksum", block[:-4] + bytes(4)),
                       ("half", block[:len(block) // 2] + bytes(len(block) - len(block) // 2)),
                       ("reversed", block[::-1]), ("rotated", block[1:] + block[:1])]
            for name, new in faults:
                try:
                    got = zlib.decompress(new)
                except zlib.error:
                    got = None
                if got is not None:
                    ctx.count("harmless_flips" if got == right else "collisions")
                    continue
                ctx.count("corruptions")
                ctx.seen(v, p["i"], "block", b, name)
                data = log.data[:start] + new + log.data[end:]
                for tolerant in (True, False):
                    judge(ctx, "%s block %d of sample %d corrupted (%s)" % (v, b, index, name), log, io.BytesIO(data), index,
                          True, False, tolerant, rng.random() < 0.7)
    elif kind == "gzip":
        for level in (1, 6, 9):
            log = gen.log(rng, v, 3, style="sparse") if level == 6 else small(rng, v, 4)
            packed = gzip.compress(log.data, level)
            positions = {rng.randint(20, len(packed) - 1) for _ in range(12 if not ctx.thorough else 200)}
            positions |= {len(packed) - k for k in (1, 4, 8, 9, 12)}
            for cut in sorted(positions):
                d = zlib.decompressobj(31)
                available = d.decompress(packed[:cut])
                if len(available) < 480 or d.eof:
                    continue
                complete, must, may = outcome(log, len(available))
                ctx.count("gzip_cuts")
                ctx.seen(v, level, "gzip", cut)
                for tolerant in (True, False):
                    stream = gzip.GzipFile(fileobj=io.BytesIO(packed[:cut]))
                    judge(ctx, "%s gzip file cut at byte %d of %d" % (v, cut, len(packed)), log, stream, complete, must, True,
                          tolerant, rng.random() < 0.7, (zlib.error, EOFError))
    elif kind == "cli":
        folder = ctx.tmpdir()
        log = small(rng, v, 3)
        for i in range(6):
            cut = rng.choice([480, log.ends[0], log.ends[1], rng.randint(480, len(log.data)), log.samples[2].offsets[1] + 1,
                              log.samples[1].offsets[2], log.samples[1].offsets[0] + 40])
            complete = outcome(log, cut)[0]
            path = os.path.join(folder, "cut.log" if i % 2 else "cut.log.gz")
            data = log.data[:cut]
            if i % 2 == 0:
                packed = gzip.compress(log.data, 6)
                at = rng.randint(len(packed) // 2, len(packed) - 1)
                data = packed[:at]
                available = zlib.decompressobj(31).decompress(data)
                if len(available) < 480:
                    continue
                complete = outcome(log, len(available))[0]
            with open(path, "wb") as f:
                f.write(data)
            ctx.count("evaluations")
            ctx.count("cli_cuts")
            ctx.seen(v, "cli", i, len(data))
            result = lib.cli([path])
            docs = lib.json_documents(result.out)
            if result.code or len(docs) != 1 or not isinstance(docs[0], list) or len(docs[0]) != complete:
                raise Violation("%s: the command printed %s for a file with %d complete samples: exit %r %s" % (
                    v, [len(x) for x in docs], complete, result.code, result.err[-300:]))
            for j, entry in enumerate(docs[0]):
                want = lay.get(bytes(log.samples[j].record), "Record", ("curtime",))
                if entry["record"]["curtime"] != want:
                    raise Violation("%s: entry %d of the command is not sample %d" % (v, j, j))
