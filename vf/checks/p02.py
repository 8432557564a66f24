"""P02: every named field, read as an attribute, against the value stored at its place in the C structure."""
import glob
import gzip
import io
import os
import subprocess
import zlib

import atoparser
from vf import clayout, cprod, gen, lib, model
from vf.harness import REPO, Inconclusive, Violation

RULE = ("For each version and structure: contents that are boundary-biased in every leaf, fully random, all ones or all zero, "
        "read through the public functions; every named leaf (array elements included) is compared with the value at its C "
        "offset. The same with logs written by a compiled C program that assigns members by name, and with the bundled real "
        "logs. A leaf of a version counts once as distinct when a non-zero value was stored in it.")
ASSUMPTIONS = ["cref/*.h restate atop's C structures", "x86-64 C ABI, as atop writes and the package reads"]
REQUIRE = {"leaves_compared": 500000, "c_leaves_compared": 300000, "probe_fields": 2000}


def cases(tier):
    out = [("probe", {"v": v}) for v in model.VERSIONS]
    for v in reversed(model.VERSIONS):
        for i in range(1 if tier == "quick" else 6):
            out.append(("cprod", {"v": v, "i": i}))
    n = 3 if tier == "quick" else 40
    for i in range(n):
        for v in reversed(model.VERSIONS):
            out.append(("fill", {"v": v, "i": i}))
    for path in sorted(glob.glob(os.path.join(REPO, "atoparser/test/files/*.log.gz"))):
        out.append(("real", {"file": os.path.basename(path)}))
    return out


def run(ctx, kind, p):
    rng = ctx.rng
    if kind == "probe":
        try:
            got = clayout.probe(p["v"], ctx.tmpdir())
        except (OSError, subprocess.SubprocessError) as e:
            raise Inconclusive("no C compiler: %r" % e) from None
        stored = clayout_json(p["v"])
        if got != stored:
            raise Inconclusive("layouts/%s.json is not what the C compiler says" % p["v"])
        ctx.count("probe_fields", sum(len(s["fields"]) for s in got["structs"].values()))
        return
    if kind == "fill":
        lay = model.layout(p["v"])
        style = ["dense", "random", "ones", "dense", "dense", "zero"][p["i"] % 6]
        header = bytearray(gen.header(rng, p["v"], style))
        s = gen.sample(rng, lay, tasks=6, groups=5, sstat=None, style=style)
        s.sstat = gen.blob(rng, lay, "SStat", style, "any")
        s.tstats = [gen.blob(rng, lay, "TStat", st) for st in ("dense", "random", "ones", "dense", "zero", "dense")]
        s.record = bytearray(gen.blob(rng, lay, "Record", "dense"))
        if lay.has_cgroups:
            s.omit_cgroups = False
        log = model.Log(p["v"], bytes(header), [s])
        read_and_compare(ctx, lay, log.data, log.header, [(bytes(s.record), s.sstat, s.tstats, [c for c, _n, _p in s.cgroups])])
        for part, data in (("Header", log.header), ("Record", bytes(s.record)), ("SStat", s.sstat), ("TStat", s.tstats[0])):
            note(ctx, lay, part, data)
        if lay.has_cgroups:
            note(ctx, lay, "CStat", s.cgroups[0][0])
        ctx.sample({"version": p["v"], "style": style, "record": lay.part_dict("Record", bytes(s.record))})
    elif kind == "real":
        with gzip.open(os.path.join(REPO, "atoparser/test/files", p["file"])) as f:
            data = f.read()
        aversion = int.from_bytes(data[4:6], "little")
        version = "%d.%d" % (aversion >> 8 & 0x7F, aversion & 0xFF)
        lay = model.layout(version)
        expected = parse(lay, data)
        read_and_compare(ctx, lay, data, data[:480], expected)
        ctx.count("real_samples", len(expected))
    elif kind == "cprod":
        try:
            exe = cprod.build(p["v"], ctx.tmpdir())
            path = os.path.join(ctx.tmpdir(), "c.log")
            seed = rng.getrandbits(62)
            samples, tasks, groups = 1 + p["i"] % 2, rng.randint(1, 5), rng.randint(1, 7)
            subprocess.run([exe, str(samples), str(tasks), str(groups), str(seed), path], check=True, timeout=200)
        except (OSError, subprocess.SubprocessError) as e:
            raise Inconclusive("no C compiler: %r" % e) from None
        compare_c(ctx, model.layout(p["v"]), path, seed, samples, tasks, groups)


def clayout_json(version):
    import json
    with open(os.path.join(clayout.LAYOUTS, version + ".json")) as f:
        data = json.load(f)
    for s in data["structs"].values():
        if not s["limits"]:
            del s["limits"]
    return data


def note(ctx, lay, part, data):
    for path, _k, off, size in lay.leaves(lay.top[part]):
        if any(data[off:off + size]):
            ctx.seen(lay.version, part, path)


def read_and_compare(ctx, lay, data, header_raw, expected):
    stream = io.BytesIO(data)
    header = atoparser.get_header(stream)
    n = lib.check_fields("%s header" % lay.version, header, lay, lay.top["Header"], header_raw)
    out, error = lib.read_all(stream, header=header)
    if error is not None or len(out) != len(expected):
        raise Violation("%s: %d samples and %r instead of %d samples" % (lay.version, len(out), error, len(expected)))
    for (record, sstat, tstats, cgroups), (r, s, t, c) in zip(out, expected):
        ctx.count("evaluations")
        n += lib.check_fields("%s record" % lay.version, record, lay, lay.top["Record"], r)
        n += lib.check_fields("%s sstat" % lay.version, sstat, lay, lay.top["SStat"], s)
        if len(tstats) != len(t) or len(cgroups) != len(c):
            raise Violation("%s: %d tasks, %d cgroups instead of %d, %d" % (lay.version, len(tstats), len(cgroups), len(t), len(c)))
        for i, raw in enumerate(t):
            n += lib.check_fields("%s task %d" % (lay.version, i), tstats[i], lay, lay.top["TStat"], raw)
        for i, raw in enumerate(c):
            n += lib.check_fields("%s cgroup %d" % (lay.version, i), lib.attr(cgroups[i], "cstat"), lay, lay.top["CStat"], raw)
    ctx.count("leaves_compared", n)


def parse(lay, data):
    """An independent reading of an intact log."""
    pos, out = 480, []
    size = lay.size("Record")
    while pos + size <= len(data):
        rec = data[pos:pos + size]
        pos += size
        get = lambda f: lay.get(rec, "Record", (f,))  # noqa: E731
        blocks = []
        for f in ("scomplen", "pcomplen") + (("ccomplen", "icomplen") if lay.has_cgroups else ()):
            blocks.append(zlib.decompress(data[pos:pos + get(f)]))
            pos += get(f)
        n = get("nlist" if lay.has("Record", "nlist") else "ndeviat")
        ts = lay.size("TStat")
        cs = []
        at = 0
        for _ in range(get("ncgroups") if lay.has_cgroups else 0):
            c = blocks[2][at:at + lay.size("CStat")]
            cs.append(c)
            at += lay.get(c, "CStat", ("gen", "structlen"))
        out.append((rec, blocks[0], [blocks[1][i * ts:(i + 1) * ts] for i in range(n)], cs))
    return out


def compare_c(ctx, lay, path, seed, samples, tasks, groups):
    exp = cprod.Expected(seed)
    skip = {"magic", "aversion", "scomplen", "pcomplen", "ndeviat", "nlist", "ncgroups", "ccomplen", "icomplen", "coriglen",
            "ncgpids", "structlen", "nprocs"} | set(gen.lengths(lay))

    def compare(what, obj, part, skipped=()):
        n = 0
        for p, f, want in exp.leaves(lay, lay.top[part]):
            if f.reserved or p[-1] in skipped:
                continue
            got = obj
            for step in p:
                got = got[step] if isinstance(step, int) else lib.attr(got, step)
            if got != want:
                raise Violation("%s %s%s: %r instead of %r, which the C program stored" % (lay.version, what, list(p), got, want))
            n += 1
        ctx.count("c_leaves_compared", n)

    with open(path, "rb") as f:
        header = atoparser.get_header(f)
        compare("header", header, "Header", skip)
        out, error = lib.read_all(f, header=header)
    if error is not None or len(out) != samples:
        raise Violation("%s: %d samples and %r instead of %d from the C producer" % (lay.version, len(out), error, samples))
    for record, sstat, tstats, cgroups in out:
        ctx.count("evaluations")
        compare("record", record, "Record", skip)
        compare("sstat", sstat, "SStat")
        ctx.check(len(tstats) == tasks, "%s: %d tasks instead of %d", lay.version, len(tstats), tasks)
        for t in tstats:
            compare("task", t, "TStat")
        if lay.has_cgroups:
            ctx.check(len(cgroups) == groups, "%s: %d cgroups instead of %d", lay.version, len(cgroups), groups)
            for i, c in enumerate(cgroups):
                compare("cgroup", c.cstat, "CStat", ("structlen", "nprocs"))
                pids = []
                for _ in range(i):
                    v = exp.next() & 0xFFFFFFFF
                    pids.append(v - (1 << 32) if v >> 31 else v)
                ctx.check(list(c.proclist) == pids, "%s cgroup %d pids", lay.version, i)
    ctx.seen("cprod", lay.version)
