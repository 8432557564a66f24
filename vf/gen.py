"""Workload generator: structure contents, metadata, compression settings and whole logs, from a seeded random source."""
import copy
import struct
import zlib

from vf import model

LIVE_COUNTS = {c for v in model.VERSIONS for lim in model.layout(v).limits.values() for c in lim.values()}
WORDS = ["init", "(sd-pam)", "kworker/0:1", "postgres: écrivain", "java -Xmx2g", "naïve", "日本語プロセス", "a", "x" * 14, "y" * 15,
         "with space", "quote\"back\\slash", "tab\there", "new\nline", "emoji😀", "\x01\x7f", "null-ish", "-", "0", "{}[]",
         # What a host has, and words that mean something elsewhere.
         "lo", "eth0", "wlan0", "docker0", "sda", "sda1", "dm-0", "md127", "nvme0n1", "vg0-root", "loop0", "sr0", "zram0", "cpu", "swapper/0",
         "kthreadd", "<defunct>", "error", "name", "parseable", "file", "total", "all", "none", "None", "null", "true", "nan", "unknown",
         "future", "CPU", "PRC", "system.slice", "/", "/dev/sda", "..", "%s", "$HOME", "a,b", "#x", ";", "'"]


def number(rng, kind):
    """A boundary-biased value of an integer or float kind."""
    if kind == "f4":
        r = rng.random()
        if r < 0.2:
            return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 100.0, 3.4028234663852886e38, -3.4028234663852886e38,
                               1.401298464324817e-45, 1.1754943508222875e-38])
        if r < 0.6:
            return struct.unpack("<f", struct.pack("<f", rng.uniform(-1000, 1000)))[0]
        while True:
            bits = rng.getrandbits(32)
            if (bits >> 23) & 0xFF != 0xFF:
                return struct.unpack("<f", struct.pack("<I", bits))[0]
    lo, hi = model.RANGES[kind]
    r = rng.random()
    if r < 0.15:
        return rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 2 + 1])
    if r < 0.17:  # Numbers that mean something elsewhere.
        v = rng.choice([model.MAGIC, model.MAGIC | rng.getrandbits(31) << 32, 480, 86400, 4096, 1 << 53, (1 << 53) + 1, 10 ** 9, 10 ** 12, 65536, 1000])
        return v if v <= hi else v - (1 << 32) if lo <= v - (1 << 32) <= hi else v & 127
    if r < 0.25:
        return -1 if lo < 0 else hi
    if r < 0.4:
        return rng.randint(0, 255) if hi > 255 else rng.randint(0, hi)
    if r < 0.55:
        v = (1 << rng.randrange(hi.bit_length())) + rng.choice([-1, 0, 1])
        if lo < 0 and rng.random() < 0.5:
            v = -v
        return min(hi, max(lo, v))
    return rng.randint(lo, hi)


def name(rng, size, empty=True):
    """Bytes of a char array: at most size of them, unterminated when they fill it."""
    if size == 0:
        return b""
    r = rng.random()
    if r < 0.1:
        return b"" if empty else b"e"[:size]
    if r < 0.35:
        return rng.choice(WORDS).encode()[:size]  # May end inside a character.
    if r < 0.5:
        return ("".join(rng.choice("aé日😀z") for _ in range(size)).encode())[:size]  # Full length.
    if r < 0.65:
        return bytes(rng.randrange(1, 256) for _ in range(size))  # Full length, any bytes.
    if r < 0.8:
        return bytes(rng.randrange(1, 256) for _ in range(rng.randint(1, size)))
    if r < 0.9:
        return bytes(rng.randrange(33, 127) for _ in range(rng.randint(1, size)))
    return b"ok\xff\xfe\x80" [:size]


def after_nul(rng, raw, size):
    """The array content for a name: atop leaves old bytes behind the terminator."""
    if len(raw) >= size or rng.random() < 0.5:
        return raw + b"\0" * (size - len(raw))
    return raw + b"\0" + rng.randbytes(size - len(raw) - 1)


def put(rng, buf, kind, off, size):
    if kind == "str":
        buf[off:off + size] = after_nul(rng, name(rng, size), size)
    elif kind == "ch":
        buf[off] = rng.choice([0, 65, 83, 127, rng.randrange(128), rng.randrange(256)])
    else:
        model.put_raw(buf, kind, off, size, number(rng, kind))


_FLOATS = {}
_LIVE = {}


def floats(lay, part):
    """Offsets of all floats in a part."""
    key = (lay.version, part)
    if key not in _FLOATS:
        _FLOATS[key] = [o for _, k, o, _ in lay.leaves(lay.top[part], True) if k == "f4"]
    return _FLOATS[key]


def live_counts(lay, part):
    """[(path, kind, offset, size, capacity, array path)] of the live counts in a part."""
    key = (lay.version, part)
    if key not in _LIVE:
        out = []

        def walk(struct_name, path, base):
            for array, counter in lay.limits[struct_name].items():
                c, a = lay.field(struct_name, counter), lay.field(struct_name, array)
                out.append((path + (counter,), c.kind, base + c.offset, c.size, a.count, path + (array,)))
            for f in lay.fields[struct_name]:
                if f.sub and f.count is None:
                    walk(f.sub, path + (f.name,), base + f.offset)
        walk(lay.top[part], (), 0)
        _LIVE[key] = out
    return _LIVE[key]


def set_counts(rng, lay, part, buf, mode):
    """Give every live count a specified value. mode: small, any (0 to beyond capacity), full, zero."""
    for _path, kind, off, size, cap, _array in live_counts(lay, part):
        if mode == "small":
            n = rng.choice([0, 1, 1, 2, 3, 5])
        elif mode == "zero":
            n = 0
        elif mode == "full":
            n = cap
        else:
            n = rng.choice([0, 1, 2, rng.randint(0, cap), cap - 1, cap, cap + 1, 2 * cap,
                            model.RANGES[kind][1]])
        model.put_raw(buf, kind, off, size, min(n, model.RANGES[kind][1]))


def pooled(rng, buf, every):
    """Few different values, so that many fields (and neighbouring tasks, disks, ...) are equal to each other."""
    numbers = [rng.choice([0, 1, 2, 100, 4096, rng.randint(0, 127), rng.getrandbits(15), rng.getrandbits(31), rng.getrandbits(63),
                           -1, -rng.getrandbits(15)]) for _ in range(rng.randint(1, 4))]
    names = [name(rng, 15) for _ in range(2)]
    for _p, kind, off, size in every:
        if kind == "str":
            raw = rng.choice(names)[:size]
            buf[off:off + size] = raw + bytes(size - len(raw))
        elif kind == "ch":
            buf[off] = numbers[0] & 127
        elif kind == "f4":
            model.put_raw(buf, kind, off, size, float(numbers[-1] & 4095))
        else:
            lo, hi = model.RANGES[kind]
            value = rng.choice(numbers)
            model.put_raw(buf, kind, off, size, value if lo <= value <= hi else value & 127)


def blob(rng, lay, part, style=None, counts="small", leaves=200):
    """Bytes of one structure."""
    size = lay.size(part)
    style = style or rng.choice(["random", "sparse", "dense" if size < 5000 else "sparse", "ones", "zero", "pool" if size < 5000 else "sparse"])
    if style in ("zero", "sparse"):
        buf = bytearray(size)
    elif style == "ones":
        buf = bytearray(b"\xff" * size)
    else:
        buf = bytearray(rng.randbytes(size))
    every = lay.leaves(lay.top[part])
    if style == "pool":
        pooled(rng, buf, every)
    elif style == "dense":
        for _p, kind, off, sz in every:
            put(rng, buf, kind, off, sz)
    elif style != "zero":
        for _ in range(min(leaves, len(every))):
            _p, kind, off, sz = rng.choice(every)
            put(rng, buf, kind, off, sz)
    for off in floats(lay, part):
        if style in ("random", "ones"):
            struct.pack_into("<f", buf, off, number(rng, "f4"))
    if part == "SStat":
        set_counts(rng, lay, part, buf, counts)
    return bytes(buf)


def aversion(version, flag=True):
    major, minor = (int(x) for x in version.split("."))
    return (0x8000 if flag else 0) | (major << 8) | minor


def lengths(lay):
    """The header's length fields and what they must be."""
    out = {"rawheadlen": lay.size("Header"), "rawreclen": lay.size("Record"), "sstatlen": lay.size("SStat"),
           ("tstatlen" if lay.has("Header", "tstatlen") else "pstatlen"): lay.size("TStat")}
    if lay.has_cgroups:
        out["cstatlen"] = lay.size("CStat")
    return out


def header(rng, version, style=None, flag=None):
    """A valid header with any content in its other fields."""
    lay = model.layout(version)
    buf = bytearray(blob(rng, lay, "Header", style))
    lay.put(buf, "Header", ("magic",), model.MAGIC)
    lay.put(buf, "Header", ("aversion",), aversion(version, rng.random() < 0.8 if flag is None else flag))
    for field, value in lengths(lay).items():
        lay.put(buf, "Header", (field,), value)
    return bytes(buf)


def how(rng, size):
    """How one block is compressed."""
    r = rng.random()
    if r < 0.3:
        return {"level": rng.choice([0, 1, 1]) if size > 50000 else rng.randint(0, 9)}
    if r < 0.5:
        return {"level": 1, "wbits": rng.choice([9, 10, 12, 14, 15])}
    if r < 0.6:
        return {"level": 1, "strategy": rng.choice([zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED, zlib.Z_FILTERED])}
    if r < 0.75:
        return {"level": 1, "flush": rng.randint(1, 5)}
    return {"level": 6} if size < 200000 or r < 0.8 else {"level": 1}


def cgroups(rng, lay, n, mode="any"):
    """n cgroups with names of any length and their pids."""
    out = []
    for i in range(n):
        c = bytearray(blob(rng, lay, "CStat", rng.choice(["random", "dense", "sparse", "zero", "ones", "pool"])))
        r = rng.random()
        if r < 0.2:
            ln = 0
        elif r < 0.6:
            ln = 8 * rng.randint(1, 8)  # atop rounds up to keep alignment.
        elif r < 0.9:
            ln = rng.randint(1, 70)
        else:
            ln = rng.randint(200, 600)
        nm = name(rng, ln) if rng.random() < 0.7 else rng.randbytes(ln)
        nm = nm + b"\0" * (ln - len(nm))
        r = rng.random()
        np = 0 if r < 0.3 else rng.randint(1, 4) if r < 0.8 else rng.randint(5, 60)
        if mode == "nopids":
            np = 0
        pids = [number(rng, "i4") if rng.random() < 0.3 else rng.randint(1, 4194304) for _ in range(np)]
        if out and mode != "nopids" and rng.random() < 0.2:  # Just like the one before, in part.
            same, named, listed = rng.choice(out[-3:])
            r = rng.random()
            if r < 0.5:
                c = bytearray(same)
            if r < 0.3 or r > 0.8:
                nm = named
                ln = len(nm)
            pids = list(listed)
            np = len(pids)
        lay.put(c, "CStat", ("gen", "structlen"), lay.size("CStat") + ln)
        lay.put(c, "CStat", ("gen", "nprocs"), np)
        out.append((bytes(c), nm, pids))
    return out


def sample(rng, lay, tasks=None, groups=None, sstat=None, style=None, counts="small"):
    """One sample; sstat: a template whose bytes are varied a little instead of generating a new one."""
    record = blob(rng, lay, "Record", rng.choice(["random", "dense", "ones", "zero", "pool"]))
    if sstat is None:
        sstat = blob(rng, lay, "SStat", style, counts)
    else:
        buf = bytearray(sstat)
        every = lay.leaves(lay.top["SStat"])
        for _ in range(20):
            _p, kind, off, sz = rng.choice(every)
            if _p[-1] not in LIVE_COUNTS:
                put(rng, buf, kind, off, sz)
        sstat = bytes(buf)
    if tasks is None:
        tasks = rng.choice([0, 1, 2, 3, rng.randint(4, 30)])
    tstats = [blob(rng, lay, "TStat", rng.choice(["random", "dense", "sparse", "ones", "zero", "pool"]), leaves=20) for _ in range(tasks)]
    if tasks > 1 and rng.random() < 0.3:  # Tasks that differ in little or nothing.
        for i in range(1, tasks):
            if rng.random() < 0.5:
                buf = bytearray(tstats[i - 1])
                for _ in range(rng.choice([0, 1, 3])):
                    _p, kind, off, sz = rng.choice(lay.leaves(lay.top["TStat"]))
                    put(rng, buf, kind, off, sz)
                tstats[i] = bytes(buf)
    s = model.Sample(record, sstat, tstats, how=[how(rng, len(sstat)), how(rng, 1000), how(rng, 1000), how(rng, 100)])
    if lay.has_cgroups:
        if groups is None:
            groups = rng.choice([0, 1, 2, 3, rng.randint(4, 20)])
        s.cgroups = cgroups(rng, lay, groups, rng.choice(["any", "any", "any", "nopids"]))
        if not groups:
            s.omit_cgroups = rng.random() < 0.6
        if not any(p for _, _, p in s.cgroups):
            s.omit_pids = rng.random() < 0.5
        loosen(rng, s)
    if rng.random() < 0.25:
        relate(rng, lay, s)
    return s


def loosen(rng, s, share=0.15):
    """Totals beside the blocks: nothing that is read depends on them."""
    for field, true in (("ncgpids", sum(len(ps) for _c, _n, ps in s.cgroups)), ("coriglen", sum(len(c) + len(n) for c, n, _ps in s.cgroups))):
        if rng.random() < share:
            s.loose[field] = rng.choice([0, 1, max(0, true - 1), true + 1, true // 2, 2 * true, rng.randrange(1 << 16)])


def relate(rng, lay, s):
    """Metadata that repeat, or just miss, numbers of the sample itself: counts, sizes, ids."""
    tasks, groups, pids = len(s.tstats), len(s.cgroups), [p for _c, _n, ps in s.cgroups for p in ps]
    known = [tasks, groups, len(pids), tasks + groups, 0, 1, 480, lay.size("Record"), lay.size("SStat"), lay.size("TStat"), len(s.tstats) * lay.size("TStat"), model.MAGIC]
    for path, kind, off, size in lay.leaves(lay.top["Record"]):
        if kind not in ("str", "ch", "f4") and rng.random() < 0.6:
            lo, hi = model.RANGES[kind]
            value = rng.choice(known) + rng.choice([0, 0, -1, 1])
            model.put_raw(s.record, kind, off, size, value if lo <= value <= hi else value & 127)


def history(rng, lay, samples):
    """How neighbouring samples relate: unrelated, at regular times, at one time, backwards, or repeats of each other."""
    r = rng.random()
    if r < 0.4 or len(samples) < 2:
        return samples
    if r < 0.8:
        now, step = rng.randint(0, 1 << 31), rng.choice([1, 10, 60, 600, 86400])
        move = rng.choice([step, step, 0, -step if now > step * len(samples) else 0])
        for s in samples:
            lay.put(s.record, "Record", ("curtime",), now)
            lay.put(s.record, "Record", ("interval",), step)
            if move == step or rng.random() < 0.5:
                lay.put(s.record, "Record", ("flags",), 0)
            now = (now + move) % (1 << 31)
        return samples
    for i in range(1, len(samples)):
        if rng.random() < 0.6:
            samples[i] = copy.deepcopy(samples[i - 1])
            if rng.random() < 0.3:
                samples[i].record[rng.randrange(4)] ^= 1
    return samples


def log(rng, version, n=None, tasks=None, groups=None, template=None, style=None, counts="small"):
    """A well-formed log. template: share one SStat content between samples (for many-sample logs)."""
    lay = model.layout(version)
    n = rng.randint(0, 6) if n is None else n
    if template is None:
        template = n > 6
    base = blob(rng, lay, "SStat", style or "sparse", counts) if template else None
    samples = [sample(rng, lay, tasks, groups, base, style, counts) for _ in range(n)]
    return model.Log(version, header(rng, version), history(rng, lay, samples) if n <= 50 else samples)


def long(rng, version, n, tasks=1, groups=1, kinds=7):
    """A log of very many samples, of a few kinds; their records all differ."""
    base = tiny(rng, version, kinds, tasks, groups)
    lay, samples = base.layout, []
    now = rng.randrange(1, 1 << 31)
    blocks = [s.blocks(lay) for s in base.samples]
    for i in range(n):
        k = rng.randrange(len(base.samples))
        b = base.samples[k]
        s = model.Sample(b.record, b.sstat, b.tstats, b.cgroups, b.how)
        s.omit_cgroups, s.omit_pids, s.loose, s.packed = b.omit_cgroups, b.omit_pids, b.loose, blocks[k]
        now += rng.choice([0, 1, 60, 60, 600])
        lay.put(s.record, "Record", ("curtime",), now)
        lay.put(s.record, "Record", ("interval",), i + 1)
        samples.append(s)
    return model.Log(version, base.header, samples)


def tiny(rng, version, n, tasks=1, groups=1):
    """A log of small samples, cheap to build and to read many times."""
    lay = model.layout(version)
    base = bytearray(lay.size("SStat"))
    samples = []
    for i in range(n):
        struct.pack_into("<Q", base, 8, rng.getrandbits(64))
        rec = bytearray(blob(rng, lay, "Record", "random"))
        s = model.Sample(rec, base, [blob(rng, lay, "TStat", "sparse", leaves=4) for _ in range(tasks)],
                         cgroups(rng, lay, groups) if lay.has_cgroups else (), [{"level": 6}] * 4)
        samples.append(s)
    return model.Log(version, header(rng, version), history(rng, lay, samples) if n <= 50 else samples)
