"""One path whose content changes between looks by one process: whatever was there before, what is there now is read."""
import gzip
import io
import os

import atoparser
from vf import gen, gen126, lib, model
from vf.harness import Violation

WAYS = ["in place", "replaced", "deleted", "linked", "in place, same time", "replaced, same time", "in place, same size",
        "in place, same size and time"]


def sibling(rng, log):
    """A log of the same version and size with other content: header, records and statistics."""
    lay = log.layout
    for _ in range(20):
        head = bytearray(log.header)
        for field in ("hertz", "pagesize"):
            if lay.has("Header", field):
                lay.put(head, "Header", (field,), rng.randrange(1, 1 << 15))
        kind, off, size = lay.locate("Header", ("utsname", "nodename"))
        model.put_raw(head, kind, off, size, b"host%d" % rng.randrange(1000))
        samples = []
        for s in log.samples:
            rec = bytearray(s.record)
            lay.put(rec, "Record", ("curtime",), rng.randrange(1, 1 << 30))
            lay.put(rec, "Record", ("interval",), rng.randrange(1, 1 << 15))
            stored = [{"level": 0}] * 4  # Not compressed: the size depends on the structures only.
            samples.append(model.Sample(rec, rng.choice([s.sstat, s.sstat, gen.blob(rng, lay, "SStat", "sparse", "small")]),
                                        [gen.blob(rng, lay, "TStat", "sparse") for _ in s.tstats] if rng.random() < 0.5 else s.tstats,
                                        s.cgroups, stored))
        out = model.Log(log.version, bytes(head), samples)
        if len(out.data) == len(log.data) or any(h != {"level": 0} for s in log.samples for h in s.how):
            return out
    return out


def any_log(rng, version=None):
    v = version or rng.choice(model.VERSIONS)
    log = gen126.log(rng, rng.randint(1, 2), tasks=2) if v == "1.26" else gen.tiny(rng, v, rng.randint(0, 3), tasks=2, groups=2)
    return sibling(rng, log)


def put(path, data, way, rng):
    """Give the path this content."""
    old = os.stat(path) if os.path.exists(path) else None
    if old is None or way.startswith("deleted"):
        if old:
            os.unlink(path)
        with open(path, "wb") as f:
            f.write(data)
    elif way.startswith("replaced"):
        with open(path + ".new", "wb") as f:
            f.write(data)
        os.replace(path + ".new", path)
    elif way == "linked":
        target = path + ".%d" % rng.randrange(1 << 40)
        with open(target, "wb") as f:
            f.write(data)
        os.unlink(path)
        os.symlink(target, path)
    else:
        with open(path, "r+b") as f:
            f.write(data)
            f.truncate()
    if old and way.endswith("time"):
        os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
    elif rng.random() < 0.3:
        then = rng.choice([0, 10 ** 9, 4 * 10 ** 9])
        os.utime(path, (then, then))


def read(what, path, log, packed):
    """All samples through the library."""
    opener = gzip.open if packed else open
    with opener(path, "rb") as f:
        header = atoparser.get_header(f)
        if lib.raw(header) != bytes(log.header):
            raise Violation("%s: the header is not the one that is stored now" % what)
        got, error = lib.read_all(f, header=header)
    if error is not None or len(got) != len(log.samples):
        raise Violation("%s: %d samples instead of %d, %r" % (what, len(got), len(log.samples), error))
    for i, (one, s) in enumerate(zip(got, log.samples)):
        lib.check_sample("%s: sample %d" % (what, i), one, s)


def same_stream(ctx, rng, looks):
    """One stream object that gets new content."""
    stream = io.BytesIO()
    log = any_log(rng)
    for k in range(looks):
        log = sibling(rng, log) if rng.random() < 0.5 else any_log(rng)
        stream.seek(0)
        stream.truncate()
        stream.write(log.data)
        stream.seek(0)
        what = "look %d at a stream in memory that is filled anew" % k
        header = atoparser.get_header(stream)
        if lib.raw(header) != bytes(log.header):
            raise Violation("%s: the header is not the one that is stored now" % what)
        got, error = lib.read_all(stream, header=header)
        if error is not None or len(got) != len(log.samples):
            raise Violation("%s: %d samples instead of %d, %r" % (what, len(got), len(log.samples), error))
        for i, (one, s) in enumerate(zip(got, log.samples)):
            lib.check_sample("%s: sample %d" % (what, i), one, s)
        ctx.count("rewritten_looks")


def run(ctx, looks=12, library=True, printed=None, parsed=None):
    """printed/parsed(what, path, log): judge the command's output for it."""
    rng = ctx.rng
    folder = ctx.tmpdir()
    packed = rng.random() < 0.3
    path = os.path.join(folder, "log" + (".gz" if packed else ""))
    log = any_log(rng)
    for k in range(looks):
        way = rng.choice(WAYS)
        log = sibling(rng, log) if "size" in way or rng.random() < 0.4 else any_log(rng)
        data = gzip.compress(log.data, 1, mtime=0) if packed else log.data
        put(path, data, way, rng)
        what = "look %d at a path whose file was %s, now %s" % (k, way, log.version)
        if library:
            read(what, path, log, packed)
        if printed and (not library or rng.random() < 0.6):
            printed(what, path, log)
        if parsed and rng.random() < 0.4:
            parsed(what, path, log)
        ctx.count("rewritten_looks")
        ctx.count("evaluations")
        ctx.seen("rewritten", way, log.version, len(log.samples), packed, k)
    if library:
        same_stream(ctx, rng, looks // 2)
