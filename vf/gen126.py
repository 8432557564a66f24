"""1.26 samples for the parseable formats: name arrays of any fill, counts from none to full, support flags."""
from vf import gen, model, rows

LAY = rows.LAY


def entry(path, i):
    """Where entry i of an array lies."""
    spots = [LAY.locate("SStat", path + (k, "cpunr" if path[0] == "cpu" else "name"))[1] for k in (0, 1)]
    step = spots[1] - spots[0]
    start = array_start(path)
    return start + i * step, start + (i + 1) * step


STARTS = {}


def array_start(path):
    if path not in STARTS:
        STARTS[path] = min(off for p, _k, off, _s in LAY.leaves(LAY.top["SStat"]) if p[:len(path)] == path)
    return STARTS[path]


def sstat(rng, style=None):
    buf = bytearray(gen.blob(rng, LAY, "SStat", style or rng.choice(["random", "sparse", "dense", "ones", "pool"]), "small"))
    for array, cap, path in (("dsk", 256, ("dsk", "dsk")), ("lvm", 256, ("dsk", "lvm")), ("mdd", 128, ("dsk", "mdd")),
                             ("intf", 32, ("intf", "intf"))):
        n = rng.choice([0, 1, 2, rng.randint(0, cap), cap - 1, cap, cap])
        idle = rng.choice([0, 0, 0, 0.3, 1])
        for i in range(cap):
            p = path + (i, "name")
            kind, off, size = LAY.locate("SStat", p)
            if i < n and rng.random() < idle:  # Nothing but a name.
                first, last = entry(path, i)
                buf[first:last] = bytes(last - first)
            if i == n:
                raw = b"" + (b"\0" + rng.randbytes(size - 1) if rng.random() < 0.5 else bytes(size))
            elif i < n:
                raw = gen.after_nul(rng, gen.name(rng, size, empty=False), size)
            elif rng.random() < 0.3:
                raw = gen.after_nul(rng, b"after%d" % i, size)  # Left over behind the end.
            else:
                continue
            buf[off:off + size] = raw
            if array == "intf":
                LAY.put(buf, "SStat", path + (i, "duplex"), bytes([rng.choice([0, 1, 2, rng.randrange(128)])]))
        counts = {"dsk": "ndsk", "lvm": "nlvm", "mdd": "nmdd", "intf": "nrintf"}
        # The names say how many there are; the count beside them may be of another moment.
        LAY.put(buf, "SStat", path[:1] + (counts[array],), n if rng.random() < 0.6 else rng.choice([0, 1, max(0, n - 1), min(cap, n + 1), cap, rng.randint(0, cap)]))
    if rng.random() < 0.3:  # Cpus that are not in use.
        for i in rng.sample(range(64), rng.choice([1, 5, 64])):
            first, last = entry(("cpu", "cpu"), i)
            buf[first:last] = bytes(last - first)
    LAY.put(buf, "SStat", ("cpu", "nrcpu"), rng.choice([0, 1, 2, 4, rng.randint(0, 64), rng.randint(0, 64), 63, 64, 64, 64, 65, rng.choice([66, 128, 1000, 1 << 31])]))
    return bytes(buf)


def header(rng):
    h = bytearray(gen.header(rng, "1.26"))
    LAY.put(h, "Header", ("supportflags",), rng.choice([0, 1, 2, 4, 8, 6, 15, -1, ~2, ~4, rng.getrandbits(31)]))
    return bytes(h)


def log(rng, n=None, tasks=None):
    samples = []
    for _ in range(rng.randint(0, 4) if n is None else n):
        s = gen.sample(rng, LAY, tasks=rng.choice([0, 1, 2, 7, 40]) if tasks is None else tasks, style="zero")
        s.sstat = sstat(rng)
        if s.tstats and rng.random() < 0.3:  # Processes that did nothing, one of them twice.
            for _ in range(rng.randint(1, 4)):
                t = bytearray(LAY.size("TStat"))
                LAY.put(t, "TStat", ("gen", "name"), gen.name(rng, 15))
                LAY.put(t, "TStat", ("gen", "pid"), rng.choice([0, 1, 2, rng.getrandbits(15)]))
                s.tstats[rng.randrange(len(s.tstats))] = bytes(t)
            s.tstats[-1] = s.tstats[0]
        samples.append(s)
    return model.Log("1.26", header(rng), samples)
