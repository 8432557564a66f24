"""P01: header acceptance and version selection, against the layout's lengths."""
import io
import struct

import atoparser
from vf import gen, lib, model
from vf.harness import Violation

RULE = ("480-byte headers with random content; the version sweep is every major.minor with and without atop's marker bit, "
        "with the right and with wrong lengths; every single length field over boundary and other versions' values (16-bit "
        "ones over all values), pairs and compensating pairs; every shorter input; magic bit flips. A header counts as "
        "distinct by (version, lengths, size, magic) and is non-trivial when the oracle's accept/reject decision was compared.")
ASSUMPTIONS = ["layouts/*.json hold atop's struct sizes (cross-checked against a C compiler by P02)"]
REQUIRE = {"accepted": 1000, "rejected": 1000, "layout_reads": 11}
OTHERS = ["0.0", "0.255", "1.0", "1.25", "1.27", "2.0", "2.1", "2.2", "2.13", "2.100", "2.255", "3.0", "3.3", "12.2", "21.1",
          "26.1", "127.255", "127.0", "1.3", "2.26"]


def cases(tier):
    out = [("sweep", {"hi": hi, "of": 8}) for hi in range(8)]
    for v in model.VERSIONS + OTHERS[:6 if tier == "quick" else None]:
        out += [("lengths", {"v": v}), ("prefix", {"v": v}), ("magic", {"v": v}), ("nocheck", {"v": v})]
    for v in model.VERSIONS + OTHERS:
        out.append(("read", {"v": v}))
    for i in range(4 if tier == "quick" else 60):
        out.append(("random", {"i": i}))
    return out


def expect(ctx, data, version, accept, how="check", why=""):
    """Read a header and compare the outcome."""
    ctx.count("evaluations")
    stream = io.BytesIO(data)
    try:
        if how == "check":
            header = atoparser.get_header(stream)
        elif how == "nocheck":
            header = atoparser.get_header(stream, check_compatibility=False)
        elif how == "nocheck-positional":
            header = atoparser.get_header(stream, False)
        else:  # Through the bulk reader.
            out = list(atoparser.generate_statistics(stream))
            if out or not accept:
                raise Violation("bulk reading accepted %s" % why if not accept else "samples from a bare header")
            ctx.count("accepted_bulk")
            return None
    except ValueError as e:
        if accept:
            raise Violation("%s: rejected (%s): %s, header %s" % (how, why, e, data[:40].hex())) from None
        ctx.count("rejected")
        return None
    except Exception as e:  # pylint: disable=broad-except
        if isinstance(e, Violation):
            raise
        raise Violation("%s: %s: %r for header %s" % (how, why, e, data[:40].hex())) from None
    if not accept:
        raise Violation("%s: accepted although %s: header %s" % (how, why, data[:40].hex()))
    ctx.count("accepted")
    got = header.semantic_version
    if got != version or (header.major_version, header.minor_version) != tuple(int(x) for x in version.split(".")):
        raise Violation("%s: version %s reported as %r, %r, %r" % (
            how, version, got, header.major_version, header.minor_version))
    return header


def with_lengths(data, lay, lengths):
    buf = bytearray(data)
    for field, value in lengths.items():
        lay.put(buf, "Header", (field,), value)
    return bytes(buf)


def run(ctx, kind, p):
    rng = ctx.rng
    if kind == "sweep":
        known = {v: gen.lengths(model.layout(v)) for v in model.VERSIONS}
        bases = {v: gen.header(rng, v, "random") for v in model.VERSIONS}
        for major in range(p["hi"], 128, p["of"]):
            for minor in range(256):
                version = "%d.%d" % (major, minor)
                own = version if version in known else model.NEWEST
                for flag in (0x8000, 0):
                    raw = bytearray(bases[own])
                    struct.pack_into("<H", raw, 4, flag | major << 8 | minor)
                    expect(ctx, bytes(raw), version, True, why="lengths of %s" % own)
                    other = rng.choice(model.VERSIONS)
                    raw = bytearray(bases[other])
                    struct.pack_into("<H", raw, 4, flag | major << 8 | minor)
                    expect(ctx, bytes(raw), version, same(own, other), why="lengths of %s for version %s" % (other, version))
                ctx.seen("sweep", version)
        return
    if kind == "random":
        for _ in range(2000):
            v = rng.choice(model.VERSIONS)
            lay = model.layout(v)
            lengths = gen.lengths(lay)
            wrong = {}
            for f in lengths:
                if rng.random() < 0.25:
                    k = lay.field(lay.top["Header"], f).kind
                    wrong[f] = rng.choice([gen.number(rng, k), max(0, lengths[f] + rng.choice([-8, -1, 1, 8]))])
            data = with_lengths(gen.header(rng, v), lay, wrong)
            ok = all(lengths[f] == w for f, w in wrong.items())
            size = rng.choice([480, 480, 480, 481, 600, rng.randint(0, 479)])
            data = (data + rng.randbytes(200))[:size]
            ctx.seen(v, sorted(wrong.items()), size)
            h = expect(ctx, data, v, ok and size >= 480, why="wrong lengths %s, size %d" % (wrong, size))
            if h is not None:
                fields(ctx, h, lay, data)
        return
    v = p["v"]
    lay = model.layout(v)
    lengths = gen.lengths(lay)
    if kind == "lengths":
        base = gen.header(rng, v, "random")
        ctx.sample({"version": v, "lengths": lengths})
        expect(ctx, base, v, True, why="all right")
        expect(ctx, base, v, True, "bulk", why="all right")
        for f, right in lengths.items():
            k = lay.field(lay.top["Header"], f).kind
            lo, hi = model.RANGES[k]
            values = {0, 1, hi, lo, hi - 1, right ^ 1, right * 2, right // 2, right + 4, right - 4, right + 8, right - 8}
            values |= {right + (1 << b) for b in range(32)} | {right - (1 << b) for b in range(32)} | {right ^ (1 << b) for b in range(32)}
            values |= {x for u in model.VERSIONS for x in gen.lengths(model.layout(u)).values()}
            if k == "u2":
                values |= set(range(65536)) if ctx.thorough else set(range(0, 65536, 7)) | set(range(0, 1200))
            else:
                values |= {rng.randint(lo, hi) for _ in range(300)} | set(range(right - 200, right + 200))
            for w in sorted(values):
                if lo <= w <= hi and w != right:
                    ctx.seen(v, f, w)
                    data = with_lengths(base, lay, {f: w})
                    expect(ctx, data, v, False, why="%s is %d, not %d" % (f, w, right))
                    if rng.random() < 0.02:
                        expect(ctx, data, v, False, "bulk", why="%s is %d, not %d" % (f, w, right))
        names = list(lengths)
        for a in names:
            for b in names:
                if a == b:
                    continue
                for d in (1, 8, 16, 480 - 96):
                    for sign in (1, -1):
                        wrong = {a: max(0, lengths[a] + d * sign), b: max(0, lengths[b] - d * sign)}
                        ctx.seen(v, sorted(wrong.items()))
                        expect(ctx, with_lengths(base, lay, wrong), v, False, why="wrong %s" % wrong)
                wrong = {a: lengths[b] & 0xFFFF, b: lengths[a] & 0xFFFF}
                ok = all(lengths[f] == w for f, w in wrong.items())
                expect(ctx, with_lengths(base, lay, wrong), v, ok, why="swapped %s" % wrong)
        for u in model.VERSIONS:
            theirs = gen.lengths(model.layout(u))
            ours = dict(zip(lengths, list(theirs.values())[:len(lengths)]))
            ok = all(lengths[f] == w for f, w in ours.items())
            expect(ctx, with_lengths(base, lay, ours), v, ok, why="lengths of %s" % u)
    elif kind == "prefix":
        base = gen.header(rng, v, "random")
        for n in range(480):
            ctx.seen(v, "prefix", n)
            for how in ("check", "nocheck", "bulk"):
                expect(ctx, base[:n], v, False, how, why="only %d bytes" % n)
        for n in (0, 1, 96, 1000):
            h = expect(ctx, base + b"\0" * n, v, True, why="followed by %d bytes" % n)
            fields(ctx, h, lay, base)
    elif kind == "magic":
        base = gen.header(rng, v, "random")
        values = [model.MAGIC ^ (1 << b) for b in range(32)] + [0xEFBEEDFE, 0, 0xFFFFFFFF, 0xFEEDBEE0, 0xFEED, 0xBEEF, 0xDEADBEEF,
                  0xFEEDBEEF >> 8, 0xBEEFFEED, 0xFEEDFACE] + [rng.getrandbits(32) for _ in range(100)]
        for m in values:
            if m == model.MAGIC:
                continue
            ctx.seen(v, "magic", m)
            for how in ("check", "nocheck", "bulk", "nocheck-positional"):
                expect(ctx, struct.pack("<I", m) + base[4:], v, False, how, why="magic is %x" % m)
    elif kind == "nocheck":
        for _ in range(300):
            base = gen.header(rng, v)
            wrong = {f: gen.number(rng, lay.field(lay.top["Header"], f).kind) for f in lengths if rng.random() < 0.6}
            data = with_lengths(base, lay, wrong)
            ctx.seen(v, "nocheck", sorted(wrong.items()))
            h = expect(ctx, data, v, True, rng.choice(["nocheck", "nocheck-positional"]), why="check is off")
            fields(ctx, h, lay, data)
    elif kind == "read":
        log = gen.log(rng, v, 2, tasks=2, groups=2, style="sparse", counts="small")
        stream = io.BytesIO(log.data)
        header = atoparser.get_header(stream)
        if rng.random() < 0.5:
            ctx.check(header.minor_version == int(v.split(".")[1]), "minor version")
        fields(ctx, header, lay, log.header)
        out, error = lib.read_all(stream, header=header)
        if error is not None:
            raise Violation("version %s: reading ends with %r" % (v, error))
        ctx.count("evaluations")
        ctx.check(len(out) == 2, "version %s: %d samples instead of 2", v, len(out))
        for i, (got, s) in enumerate(zip(out, log.samples)):
            lib.check_sample("version %s sample %d" % (v, i), got, s)
            parts = [("Record", got[0], bytes(s.record)), ("SStat", got[1], s.sstat), ("TStat", got[2][0], s.tstats[0])]
            if lay.has_cgroups:
                parts.append(("CStat", got[3][0].cstat, s.cgroups[0][0]))
            for part, obj, raw in parts:
                lib.check_fields("version %s (structures of %s) %s" % (v, lay.version, part), obj, lay, lay.top[part], raw, full=False)
            if lay.has_cgroups:
                ctx.count("cgroups_read", len(got[3]))
            else:
                ctx.check(list(got[3]) == [], "version %s has cgroups", v)
            ctx.count("layout_reads")
        ctx.seen(v, "read")


def same(own, other):
    """Whether a header with the lengths of version other fits the layout of version own."""
    if own == other:
        return True
    a, b = model.layout(own), model.layout(other)
    la, lb = list(gen.lengths(a).values()), list(gen.lengths(b).values())
    if la[:4] != lb[:4]:
        return False
    if a.has_cgroups:
        return b.has_cgroups and la[4] == lb[4]
    return True


def fields(ctx, header, lay, data):
    """The header's named fields are those of the layout, with the stored values."""
    lib.check_bytes("header", header, data[:480])
    for f in lay.fields[lay.top["Header"]]:
        if f.reserved or f.sub:
            continue
        got = lib.attr(header, f.name)
        want = model.get_raw(data, f.kind, f.offset, f.size)
        if got != want:
            raise Violation("header field %s is %r instead of %r" % (f.name, got, want))
    ctx.count("headers_decoded")
