"""P10: the rows of every 1.26 parseable format, from the library functions."""
import io

import atoparser
from vf import gen, gen126, lib, model, rows
from vf.harness import Violation

RULE = ("Generated 1.26 samples: every field boundary-biased or random, disk/volume/multi-device/interface arrays with 0 to all "
        "entries named and leftovers behind the first unnamed one, 0 to 64 cpus, 0 to hundreds of tasks, every combination of "
        "support flags, any name bytes. Rows of all 16 parse functions are compared with the model's table (keys, types, values, "
        "number, order). Distinct by (format, row count, row content).")
ASSUMPTIONS = ["the labels are those the package documents by its output; the meaning of each column is atop's parseable.c",
               "counts beside the named arrays lie between 0 and the array's capacity, and need not agree with the names"]
REQUIRE = {"rows": 20000, "empty_formats": 50, "full_arrays": 20, "flag_rows": 300}


def cases(tier):
    out = [("sample", {"i": i}) for i in range(64 if tier == "quick" else 1500)]
    out += [("unique", {"i": i}) for i in range(8 if tier == "quick" else 80)]
    out += [("flags", {}), ("names", {}), ("counts", {})]
    return out


def parse(name):
    from atoparser.parsers import atop_1_26
    return getattr(atop_1_26, "parse_" + name)


def compare(ctx, log, formats=rows.FORMATS):
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    out, error = lib.read_all(stream, header=header)
    ctx.check(error is None and len(out) == len(log.samples), "1.26 log is not read: %r", error)
    for i, (got, s) in enumerate(zip(out, log.samples)):
        for fmt in formats:
            want = rows.rows(fmt, log.header, bytes(s.record), s.sstat, s.tstats)
            have = list(parse(fmt)(header, got[0], got[1], got[2]))
            ctx.count("evaluations")
            d = lib.differ(have, want, order=False)
            if d:
                raise Violation("%s of sample %d%s" % (fmt, i, d))
            ctx.count("rows", len(want))
            if not want:
                ctx.count("empty_formats")
            if fmt in ("DSK", "LVM", "MDD", "NETL", "cpu") and len(want) in (256, 128, 32, 64):
                ctx.count("full_arrays")
            if fmt in ("PRD", "PRN"):
                ctx.count("flag_rows", len(want))
            ctx.seen(fmt, len(want), hash(repr(want)))
    return header, out


def run(ctx, kind, p):
    rng = ctx.rng
    lay = rows.LAY
    if kind == "sample":
        log = gen126.log(rng, 2)
        compare(ctx, log)
        ctx.sample({"rows of the first sample": {f: len(rows.rows(f, log.header, bytes(log.samples[0].record), log.samples[0].sstat,
                                                                   log.samples[0].tstats)) for f in rows.FORMATS}})
    elif kind == "unique":
        # Every leaf has a value of its own.
        def fill(part):
            buf = bytearray(lay.size(part))
            n = rng.randrange(1 << 20)
            for path, k, off, size in lay.leaves(lay.top[part]):
                n += 1
                if k == "str":
                    model.put_raw(buf, k, off, size, (b"n%d" % n)[:size])
                elif k == "ch":
                    buf[off] = n % 128
                elif k == "f4":
                    model.put_raw(buf, k, off, size, float(n))
                else:
                    model.put_raw(buf, k, off, size, (n * 2654435761) % (model.RANGES[k][1] + 1))
            return buf
        h = fill("Header")
        base = gen.header(rng, "1.26", "zero")
        for f in ("magic", "aversion", *gen.lengths(lay)):
            k, off, size = lay.locate("Header", (f,))
            h[off:off + size] = base[off:off + size]
        ss = fill("SStat")
        for path, v in ((("cpu", "nrcpu"), 64), (("dsk", "ndsk"), 256), (("dsk", "nmdd"), 128), (("dsk", "nlvm"), 256),
                        (("intf", "nrintf"), 32)):
            lay.put(ss, "SStat", path, v)
        s = model.Sample(fill("Record"), ss, [fill("TStat") for _ in range(20)])
        compare(ctx, model.Log("1.26", bytes(h), [s]))
    elif kind == "flags":
        for flags in list(range(32)) + [-1, ~2, ~4, ~6, 2**31 - 1, -2**31]:
            h = bytearray(gen.header(rng, "1.26"))
            lay.put(h, "Header", ("supportflags",), flags)
            s = gen.sample(rng, lay, tasks=3, style="zero")
            compare(ctx, model.Log("1.26", bytes(h), [s]))
    elif kind == "names":
        tasks = []
        for text in [b"", b"\xff\xfe", b"x" * 15, b"y" * 16, "é".encode() * 8, b"(sd-pam)", b"a b", b"\xc3", "日本語日本語".encode()[:16], b"a\0b"]:
            t = bytearray(gen.blob(rng, lay, "TStat", "dense"))
            for path in (("gen", "name"), ("gen", "cmdline")):
                k, off, size = lay.locate("TStat", path)
                raw = (text * (20 if path[1] == "cmdline" else 1))[:size]
                t[off:off + size] = raw + bytes(size - len(raw))
            tasks.append(bytes(t))
        for st in range(256):
            t = bytearray(tasks[st % len(tasks)])
            lay.put(t, "TStat", ("gen", "state"), bytes([st]))
            tasks.append(bytes(t))
        ss = bytearray(gen126.sstat(rng))
        compare(ctx, model.Log("1.26", gen126.header(rng), [model.Sample(bytes(80), ss, tasks)]))
    else:
        # Every fill of every named array, every cpu count.
        base = gen.blob(rng, lay, "SStat", "random", "small")
        for n in range(0, 257, 1 if ctx.thorough else 5):
            buf = bytearray(base)
            for path, cap in ((("dsk", "dsk"), 256), (("dsk", "lvm"), 256), (("dsk", "mdd"), 128), (("intf", "intf"), 32)):
                live = n % (cap + 1)
                for i in range(cap):
                    lay.put(buf, "SStat", path + (i, "name"), b"d%d" % i if i < live else b"" if i == live else b"left")
                    if path[0] == "intf":
                        lay.put(buf, "SStat", path + (i, "duplex"), b"\x01")
                lay.put(buf, "SStat", {"dsk": ("dsk", "ndsk"), "lvm": ("dsk", "nlvm"), "mdd": ("dsk", "nmdd"),
                                       "intf": ("intf", "nrintf")}[path[1]],
                        live if rng.random() < 0.5 else rng.randint(0, cap))
            lay.put(buf, "SStat", ("cpu", "nrcpu"), n % 65)
            compare(ctx, model.Log("1.26", gen126.header(rng), [model.Sample(bytes(80), buf, [])]),
                    ["cpu", "DSK", "LVM", "MDD", "NETL"])
