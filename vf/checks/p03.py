"""P03: every stored sample once, in order, byte-exact, then a clean end."""
import io
import itertools
import struct

import atoparser
from vf import gen, lib, model
from vf.harness import Violation
from vf.monitors import TracedStream

RULE = ("Generated well-formed logs: any version, 0 to thousands of samples, 0 to 70000 tasks, up to 65535 cgroups, every "
        "zlib level, window, strategy and flush pattern, incompressible blocks of 1 to 66 MB and more, boundary values in each record and header field, repeated and "
        "all-zero samples. Compared sample by sample with what was stored, at the moment of delivery and again at the end. "
        "A sample is distinct by the bytes of its record and the shape and compressed sizes of its blocks.")
REQUIRE = {"samples_compared": 1500, "tasks_compared": 8000, "cgroups_compared": 1500, "clean_ends": 150, "long_logs": 6}

GIVE_UP = {"tasks": 90, "block": 90, "groups": 90}


def cases(tier):
    out = []
    big = ["1.26", "2.3", "2.11", "2.12"] if tier == "quick" else model.VERSIONS
    for v in big:
        out.append(("tasks", {"v": v}))
    for v in model.CGROUP_VERSIONS:
        out.append(("groups", {"v": v}))
    big = [("tasks", m, v) for m, v in ((1, "2.3"), (5, "2.8"), (17, "1.26"), (66, "2.12"))] + [("groups", 17, "2.11")]
    big += [("pids", m, v) for m, v in ((1, "2.11"), (5, "2.12"), (17, "2.12"))]
    if tier != "quick":
        big += [("tasks", m, v) for m in (2, 9, 33) for v in model.VERSIONS] + [("tasks", 130, "2.5"), ("pids", 66, "2.11")]
    for part, size, v in big:
        out.append(("block", {"v": v, "part": part, "mb": size}))
    for v in model.VERSIONS:
        out.append(("many", {"v": v, "n": 130 if tier == "quick" else 1000}))
        out.append(("long", {"v": v, "n": 1500 if tier == "quick" else 12000}))
        out.append(("meta", {"v": v}))
        out.append(("repeat", {"v": v}))
        out.append(("header", {"v": v}))
        out.append(("sizes", {"v": v}))
    out.append(("many", {"v": "1.26", "n": 3000 if tier == "quick" else 20000}))
    for i in range(8 if tier == "quick" else 80):
        for v in model.VERSIONS:
            out.append(("log", {"v": v, "i": i}))
    return out


def verify(ctx, log, how=None, keep=True, **kwargs):
    """Read the log and compare everything."""
    how = how or ctx.rng.choice(["header", "noheader", "traced", "keyword"])
    stream = TracedStream(log.data, max_calls=50 + 12 * (len(log.samples) + 1)) if how == "traced" else io.BytesIO(log.data)
    what = "%s, %d samples" % (log.version, len(log.samples))
    if how == "noheader":
        reader = atoparser.generate_statistics(stream, **kwargs)
    else:
        header = atoparser.get_header(stream)
        lib.check_bytes(what + ": header", header, log.header)
        if how == "keyword":
            reader = atoparser.generate_statistics(raw_file=stream, header=header, **kwargs)
        else:
            reader = atoparser.generate_statistics(stream, header, **kwargs)
    ctx.count("evaluations")
    kept = []
    it = iter(reader)
    for i, s in enumerate(log.samples):
        try:
            got = next(it)
        except StopIteration:
            raise Violation("%s: ended after %d samples" % (what, i)) from None
        lib.check_sample("%s: sample %d" % (what, i), got, s)
        ctx.count("samples_compared")
        ctx.count("tasks_compared", len(s.tstats))
        ctx.count("cgroups_compared", len(s.cgroups))
        if len(ctx.keys) < 20000:
            ctx.seen(log.version, bytes(s.record), len(s.tstats), len(s.cgroups), s.offsets[-1] - s.offsets[0])
        if keep:
            kept.append((got, i))
    extra = list(itertools.islice(it, 3))
    if extra:
        raise Violation("%s: %d more samples than stored" % (what, len(extra)))
    ctx.count("clean_ends")
    if next(it, None) is not None:
        raise Violation("%s: samples after the end" % what)
    for got, i in kept[-40:]:
        lib.check_sample("%s: sample %d, looked at again after the end" % (what, i), got, log.samples[i])
    if len(log.samples) and len(ctx.samples) < 1:
        ctx.sample({"version": log.version, "samples": len(log.samples), "bytes": len(log.data), "how": how,
                    "first": {"tasks": len(log.samples[0].tstats), "cgroups": len(log.samples[0].cgroups),
                              "record": bytes(log.samples[0].record).hex()}})


def block_log(rng, version, part, megabytes):
    """One block of many incompressible megabytes between ordinary ones."""
    lay = model.layout(version)
    log = gen.tiny(rng, version, 3, tasks=2, groups=2)
    s = log.samples[1]
    size = (megabytes << 20) + rng.randint(1000, 300000)
    if part == "tasks":
        one = lay.size("TStat")
        raw = rng.randbytes(size)
        s.tstats = [raw[i:i + one] for i in range(0, size - one, one)]
    elif part == "groups":
        one = bytearray(rng.randbytes(lay.size("CStat")))
        n = min(65535, size // (len(one) + 240))
        names = rng.randbytes(n * 240)
        lay.put(one, "CStat", ("gen", "structlen"), len(one) + 240)
        lay.put(one, "CStat", ("gen", "nprocs"), 2)
        s.cgroups = [(bytes(one), names[i * 240:i * 240 + 240], [i, -i]) for i in range(n)]
    else:
        n = size // 4
        pids = struct.unpack("<%di" % n, rng.randbytes(4 * n))
        at = sorted(rng.randrange(n) for _ in range(2))
        s.cgroups = []
        for some in (pids[:at[0]], pids[at[0]:at[1]], pids[at[1]:]):
            c = bytearray(rng.randbytes(lay.size("CStat")))
            lay.put(c, "CStat", ("gen", "structlen"), len(c))
            lay.put(c, "CStat", ("gen", "nprocs"), len(some))
            s.cgroups.append((bytes(c), b"", list(some)))
    s.how = [{"level": rng.choice([0, 0, 1])}] * 4
    log.build()
    return log


def run(ctx, kind, p):
    rng = ctx.rng
    lay = model.layout(p["v"])
    if kind == "log":
        verify(ctx, gen.log(rng, p["v"], counts="any" if rng.random() < 0.2 else "small"))
    elif kind == "many":
        verify(ctx, gen.tiny(rng, p["v"], p["n"], tasks=rng.randint(0, 2), groups=rng.randint(0, 2)), keep=p["n"] < 500)
    elif kind == "long":  # A day and more.
        verify(ctx, gen.long(rng, p["v"], p["n"], rng.randint(0, 2), rng.randint(1, 3)), rng.choice(["header", "noheader", "keyword"]), keep=False)
        ctx.count("long_logs")
    elif kind == "tasks":
        for n in (255, 256, 257, 1000, 32768, 65536, 70001) if ctx.thorough else (256, 70001):
            base = gen.blob(rng, lay, "TStat", "dense")
            tasks = []
            for i in range(n):
                t = bytearray(base)
                t[0:8] = i.to_bytes(8, "little")
                t[-8:] = (n - i).to_bytes(8, "big")
                tasks.append(t)
            log = gen.tiny(rng, p["v"], 2, tasks=1, groups=1)
            log.samples[0].tstats = [bytes(t) for t in tasks]
            log.samples[0].how = [{"level": 1}] * 4
            log.build()
            verify(ctx, log)
    elif kind == "groups":
        for n in (255, 256, 32768, 65535) if ctx.thorough else (257, 65535):
            base = gen.blob(rng, lay, "CStat", "dense")
            groups = []
            for i in range(n):
                c = bytearray(base)
                c[-8:] = i.to_bytes(8, "big")
                ln = (i * 7) % 33
                lay.put(c, "CStat", ("gen", "structlen"), len(c) + ln)
                lay.put(c, "CStat", ("gen", "nprocs"), i % 3)
                groups.append((bytes(c), b"n" * ln, [i * 10 + k for k in range(i % 3)]))
            log = gen.tiny(rng, p["v"], 2, tasks=1, groups=1)
            log.samples[0].cgroups = groups
            log.samples[0].how = [{"level": 1}] * 4
            log.build()
            verify(ctx, log)
    elif kind == "block":
        verify(ctx, block_log(rng, p["v"], p["part"], p["mb"]))
        ctx.count("large_block_megabytes", p["mb"])
    elif kind == "meta":
        # Every record field that is not a length or count of this sample's parts takes each boundary value.
        derived = {"scomplen", "pcomplen", "nlist", "ndeviat", "ncgroups", "ccomplen", "icomplen", "coriglen", "ncgpids"}
        fields = [f for f in lay.fields[lay.top["Record"]] if f.name not in derived]
        records = []
        for f in fields:
            lo, hi = model.RANGES[f.kind]
            values = [0, 1, 2, 4, 8, 16, 32, 60, 64, 128, 256, 600, 1024, 4096, 86400, lo, hi, hi // 2 + 1, hi - 1]
            values += [1 << b for b in range(16, hi.bit_length())]
            for v in values:
                if lo <= v <= hi:
                    rec = bytearray(lay.size("Record") if rng.random() < 0.5 else rng.randbytes(lay.size("Record")))
                    model.put_raw(rec, f.kind, f.offset + f.size * rng.randrange(f.count or 1), f.size, v)
                    records.append(rec)
        rng.shuffle(records)
        log = gen.tiny(rng, p["v"], len(records), tasks=1, groups=1)
        for s, rec in zip(log.samples, records):
            s.record = rec
            if rng.random() < 0.3:
                s.tstats = []
        log.build()
        for how in ("header", "noheader"):
            verify(ctx, log, how, keep=False)
    elif kind == "repeat":
        # Equal neighbours, all-zero samples, times that stand still or run backwards.
        log = gen.tiny(rng, p["v"], 12, tasks=2, groups=2)
        a, b = log.samples[0], log.samples[1]
        zero = model.Sample(bytes(lay.size("Record")), bytes(lay.size("SStat")), [bytes(lay.size("TStat"))] * 2)
        empty = model.Sample(bytes(lay.size("Record")), bytes(lay.size("SStat")), [])
        seq = [a, a, a, b, a, zero, zero, empty, empty, b, zero, a, a]
        samples = []
        for i, s in enumerate(seq):
            t = model.Sample(s.record, s.sstat, s.tstats, s.cgroups, s.how)
            samples.append(t)
        now = 1700000000
        for s, step in zip(log.samples, (60, 0, 0, -60, 3600, -7200, 1, 1, 0, 86400, -1, 60)):
            now += step
            lay.put(s.record, "Record", ("curtime",), now)
            samples.append(s)
        verify(ctx, model.Log(p["v"], log.header, samples))
        verify(ctx, model.Log(p["v"], log.header, []))
        for i in range(1, 4):
            verify(ctx, model.Log(p["v"], log.header, samples[:i]))
    elif kind == "header":
        # Header content beyond magic, version and lengths does not influence reading.
        log = gen.tiny(rng, p["v"], 2, tasks=2, groups=2)
        fixed = set(gen.lengths(lay)) | {"magic", "aversion"}
        for f in lay.fields[lay.top["Header"]]:
            if f.name in fixed or f.sub or f.kind == "str":
                continue
            lo, hi = model.RANGES[f.kind]
            for v in {0, 1, 2, 4, 8, 16, 22, 32, 64, 100, 250, 256, 1000, 4096, 16384, lo, hi}:
                if lo <= v <= hi:
                    header = bytearray(log.header)
                    for i in range(f.count or 1):
                        model.put_raw(header, f.kind, f.offset + i * f.size, f.size, v)
                    verify(ctx, model.Log(p["v"], bytes(header), log.samples), keep=False)
        for style in ("zero", "ones", "random", "dense"):
            for flag in (True, False):
                verify(ctx, model.Log(p["v"], gen.header(rng, p["v"], style, flag), log.samples), keep=False)
    elif kind == "sizes":
        # Incompressible, stored and minimal blocks.
        samples = []
        for level in (0, 0, 1, 9) if not ctx.thorough else range(10):
            s = gen.sample(rng, lay, tasks=rng.choice([0, 1, 40]), groups=rng.choice([0, 1, 40]),
                           style=rng.choice(["random", "zero", "ones"]))
            s.how = [{"level": level, "flush": rng.choice([0, 3])}] * 4
            samples.append(s)
        verify(ctx, model.Log(p["v"], gen.header(rng, p["v"]), samples))
