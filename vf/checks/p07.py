"""P07: struct_to_dict against the model's conversion."""
import io
import json

import atoparser
from vf import gen, lib, model
from vf.harness import Violation

RULE = ("Structures of every version with boundary-biased, random, all-ones and zero content, each live count at 0, 1, capacity "
        "-1, capacity, capacity+1 and far beyond while the other counts differ, any bytes in names; header, record, system, "
        "task, cgroup and nested structures and array elements converted on their own. Compared with the model's conversion "
        "in keys, key order, value types and values, and through a JSON round trip. Distinct by (structure, live counts) and "
        "by content hash.")
ASSUMPTIONS = ["negative live counts and non-finite floats are not specified"]
REQUIRE = {"dicts": 800, "limited_arrays": 3000, "json_round_trips": 500, "substructures": 300}


def cases(tier):
    out = []
    for v in reversed(model.VERSIONS):
        for i in range(3 if tier == "quick" else 40):
            out.append(("random", {"v": v, "i": i}))
        out.append(("limits", {"v": v}))
        out.append(("full", {"v": v}))
        out.append(("strings", {"v": v}))
    return out


def deliver(log):
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    out, error = lib.read_all(stream, header=header)
    if error is not None or len(out) != len(log.samples):
        raise Violation("%s: %d of %d samples, %r" % (log.version, len(out), len(log.samples), error))
    return header, out


def convert(ctx, what, obj, lay, name, data, base=0, round_trip=True):
    got = atoparser.struct_to_dict(obj)
    want = lay.to_dict(name, data, base)
    ctx.count("evaluations")
    ctx.count("dicts")
    d = lib.differ(got, want)
    if d:
        raise Violation("%s %s%s" % (lay.version, what, d))
    if round_trip:
        d = lib.differ(json.loads(json.dumps(got)), want)
        if d:
            raise Violation("%s %s after a JSON round trip: %s" % (lay.version, what, d))
        ctx.count("json_round_trips")
    return got


def substructures(ctx, lay, part, obj, data):
    """Nested structures and array elements, converted on their own."""
    name, base, what = lay.top[part], 0, part
    for _ in range(4):
        subs = [f for f in lay.fields[name] if f.sub]
        if not subs:
            return
        f = ctx.rng.choice(subs)
        i = ctx.rng.randrange(f.count) if f.count else 0
        obj = lib.attr(obj, f.name)
        if f.count:
            obj = obj[i]
        base += f.offset + i * f.size
        name, what = f.sub, "%s.%s[%d]" % (what, f.name, i)
        convert(ctx, what, obj, lay, name, data, base)
        ctx.count("substructures")


def whole(ctx, log, subs=6):
    lay = log.layout
    header, out = deliver(log)
    convert(ctx, "header", header, lay, lay.top["Header"], log.header)
    for got, s in zip(out, log.samples):
        rec = bytes(s.record)
        convert(ctx, "record", got[0], lay, lay.top["Record"], rec)
        before = lib.raw(got[1])
        convert(ctx, "sstat", got[1], lay, lay.top["SStat"], s.sstat)
        if lib.raw(got[1]) != before:
            raise Violation("%s: conversion changed the structure" % lay.version)
        counts = [lay.get(s.sstat, "SStat", c[0]) for c in gen.live_counts(lay, "SStat")]
        ctx.count("limited_arrays", len(counts))
        ctx.seen(lay.version, counts, hash(s.sstat))
        for t, raw in zip(got[2], s.tstats):
            convert(ctx, "task", t, lay, lay.top["TStat"], raw)
            ctx.seen(lay.version, "task", hash(raw))
        for g, (c, _n, pids) in zip(got[3], s.cgroups):
            convert(ctx, "cstat", g.cstat, lay, lay.top["CStat"], c)
            d = lib.differ(atoparser.struct_to_dict(g), lib.cgroup_dict(lay, c, pids))
            if d:
                raise Violation("%s cgroup%s" % (lay.version, d))
            ctx.seen(lay.version, "cgroup", hash(c))
        for _ in range(subs):
            substructures(ctx, lay, "SStat", got[1], s.sstat)
            substructures(ctx, lay, "Header", header, log.header)
            if s.tstats:
                substructures(ctx, lay, "TStat", got[2][0], s.tstats[0])
            if s.cgroups:
                substructures(ctx, lay, "CStat", got[3][0].cstat, s.cgroups[0][0])
        ctx.sample({"version": lay.version, "live counts": counts, "record": lay.part_dict("Record", rec)})


def one(rng, v, sstat, header=None):
    lay = model.layout(v)
    s = gen.sample(rng, lay, tasks=1, groups=1, style="zero")
    s.sstat = bytes(sstat)
    s.how = [{"level": 1}] * 4
    return model.Log(v, header or gen.header(rng, v, "dense"), [s])


def run(ctx, kind, p):
    rng = ctx.rng
    v = p["v"]
    lay = model.layout(v)
    if kind == "random":
        log = gen.log(rng, v, 2, tasks=12, groups=8, style=["random", "ones", "sparse"][p["i"] % 3], counts="any" if p["i"] % 4 == 1 else "small")
        for s in log.samples:
            s.tstats += [gen.blob(rng, lay, "TStat", "dense") for _ in range(6)]
        log.build()
        whole(ctx, log)
    elif kind == "full":
        for mode in ("full", "zero"):
            whole(ctx, one(rng, v, gen.blob(rng, lay, "SStat", "random", mode)))
        buf = bytearray(gen.blob(rng, lay, "SStat", "random", "full"))
        for path, k, off, size, cap, _a in gen.live_counts(lay, "SStat"):
            model.put_raw(buf, k, off, size, cap + 1)
        whole(ctx, one(rng, v, buf), 0)
    elif kind == "limits":
        # One array at a boundary, all others at different counts.
        base = gen.blob(rng, lay, "SStat", "random", "zero")
        live = gen.live_counts(lay, "SStat")
        samples = []
        for k, (path, kk, off, size, cap, _a) in enumerate(live):
            for n in sorted({0, 1, 2, cap - 1, cap, cap + 1, 2 * cap, min(model.RANGES[kk][1], 2**31 - 1), model.RANGES[kk][1]}):
                buf = bytearray(base)
                others = rng.sample(range(1, 30), len(live))
                for j, (_p, k2, off2, size2, cap2, _a2) in enumerate(live):
                    model.put_raw(buf, k2, off2, size2, others[j])
                model.put_raw(buf, kk, off, size, n)
                samples.append(bytes(buf))
        for raw in samples:
            log = one(rng, v, raw)
            _h, out = deliver(log)
            convert(ctx, "sstat with live counts %s" % [lay.get(raw, "SStat", c[0]) for c in live], out[0][1], lay,
                    lay.top["SStat"], raw, round_trip=False)
            ctx.count("limited_arrays", len(live))
            ctx.seen(v, [lay.get(raw, "SStat", c[0]) for c in live])
    elif kind == "strings":
        # Every string member of every structure with every kind of content.
        special = [b"", b"\0hidden", b"\xff", b"\xc3", b"\xc3\xa9", b"a\xffb", b"\xe2\x82", b"\xf0\x9f\x98\x80", b"\xf0\x9f\x98", b"\xed\xa0\x80",
                   b"\xc0\x80", b"a\0b\0c", b"\x7f\x01\x1f", b"\"\\/", b"\r\n\t", b"\xef\xbb\xbfbom", b"\x80\x81", b"  ", b"\xf8\x88\x80\x80\x80",
                   "é日本😀".encode(), b"x\xe6\x97y"]
        fill = [b"a", b"xyz", "é日😀".encode(), b"\xff\xfe\xfd", b"end "]
        for part in ("Header", "TStat", "SStat", "CStat") if lay.has_cgroups else ("Header", "TStat", "SStat"):
            leaves = [x for x in lay.leaves(lay.top[part]) if x[1] in ("str", "ch") and x[3]]
            if part == "SStat":
                seen, some = {}, []
                for leaf in leaves:  # First element of each array only.
                    key = tuple(s for s in leaf[0] if not isinstance(s, int))
                    if key not in seen:
                        seen[key] = 1
                        some.append(leaf)
                leaves = some
            for text in special + fill:
                buf = bytearray(gen.blob(rng, lay, part, "zero", "small"))
                if part == "SStat":
                    gen.set_counts(rng, lay, part, buf, "zero")
                    for _p, k, off, size, _c, _a in gen.live_counts(lay, part):
                        model.put_raw(buf, k, off, size, 2)
                for path, k, off, size in leaves:
                    if k == "ch":
                        buf[off] = (text or b"\0")[0]
                    else:
                        raw = (text * (size if text in fill else 70) if text in fill or rng.random() < 0.3 else text)[:size]
                        buf[off:off + size] = raw + b"\0" * (size - len(raw))
                        ctx.count("filled_strings", int(b"\0" not in raw and len(raw) == size))
                if part == "Header":
                    header = bytearray(gen.header(rng, v, "zero"))
                    for _path, k, off, size in leaves:
                        header[off:off + size] = buf[off:off + size]
                    log = one(rng, v, bytes(lay.size("SStat")), bytes(header))
                elif part == "SStat":
                    log = one(rng, v, buf)
                else:
                    log = one(rng, v, bytes(lay.size("SStat")))
                    if part == "TStat":
                        log.samples[0].tstats = [bytes(buf)]
                    else:
                        lay.put(buf, "CStat", ("gen", "structlen"), len(buf))
                        lay.put(buf, "CStat", ("gen", "nprocs"), 0)
                        log.samples[0].cgroups = [(bytes(buf), b"", [])]
                    log.samples[0].omit_cgroups = False
                    log.samples[0].omit_pids = False
                    log.build()
                whole(ctx, log, 1)
                ctx.count("strings", len(leaves))
