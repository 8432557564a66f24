"""The reference model: C layouts, an encoder/decoder over them, and logs built from them. No ctypes, no atoparser."""
import json
import os
import struct
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERSIONS = ["1.26", "2.3", "2.4", "2.5", "2.6", "2.7", "2.8", "2.9", "2.10", "2.11", "2.12"]
CGROUP_VERSIONS = ("2.11", "2.12")
NEWEST = "2.12"
MAGIC = 0xFEEDBEEF
HEADER_SIZE = 480
FORMATS = {"i1": "<b", "i2": "<h", "i4": "<i", "i8": "<q", "u1": "<B", "u2": "<H", "u4": "<I", "u8": "<Q", "f4": "<f"}
PACKERS = {k: struct.Struct(v) for k, v in FORMATS.items()}
RANGES = {"i1": (-2**7, 2**7 - 1), "i2": (-2**15, 2**15 - 1), "i4": (-2**31, 2**31 - 1), "i8": (-2**63, 2**63 - 1),
          "u1": (0, 2**8 - 1), "u2": (0, 2**16 - 1), "u4": (0, 2**32 - 1), "u8": (0, 2**64 - 1)}


def text(raw):
    """C string in a fixed array, as text: up to the terminator, undecodable bytes dropped."""
    return raw.split(b"\0", 1)[0].decode("utf-8", "ignore")


class Field:
    __slots__ = ("name", "kind", "offset", "size", "count", "sub", "reserved")

    def __init__(self, name, kind, offset, size, count):
        self.name, self.kind, self.offset, self.size, self.count = name, kind, offset, size, count
        self.sub = kind[3:] if kind.startswith("st:") else None
        self.reserved = "future" in name and not self.sub


class Layout:
    """One atop version's structures."""

    def __init__(self, data):
        self.version = data["version"]
        self.top = data["top"]
        self.sizes = {n: s["size"] for n, s in data["structs"].items()}
        self.fields = {n: [Field(*f) for f in s["fields"]] for n, s in data["structs"].items()}
        self.limits = {n: s.get("limits") or {} for n, s in data["structs"].items()}
        self._leaves = {}
        self.has_cgroups = "CStat" in self.top

    def size(self, part):
        """Size of a top structure (Header, Record, SStat, TStat, CStat)."""
        return self.sizes[self.top[part]]

    def field(self, name, member):
        for f in self.fields[name]:
            if f.name == member:
                return f
        raise KeyError((name, member))

    def has(self, part, member):
        return any(f.name == member for f in self.fields[self.top[part]])

    def leaves(self, name, reserved=False):
        """[(path, kind, offset, size)] of every scalar or string, array elements included, in order."""
        key = (name, reserved)
        if key not in self._leaves:
            out = []
            for f in self.fields[name]:
                if f.reserved and not reserved:
                    continue
                for i in range(1 if f.count is None else f.count):
                    path = (f.name,) if f.count is None else (f.name, i)
                    off = f.offset + i * f.size
                    if f.sub:
                        out += [(path + p, k, off + o, s) for p, k, o, s in self.leaves(f.sub, reserved)]
                    else:
                        out.append((path, f.kind, off, f.size))
            self._leaves[key] = out
        return self._leaves[key]

    def locate(self, part, path):
        """(kind, offset, size) of a member path like ("cpu", "cpu", 3, "stime")."""
        name, off = self.top[part], 0
        for i, step in enumerate(path):
            if isinstance(step, int):
                continue
            f = self.field(name, step)
            off += f.offset
            if i + 1 < len(path) and isinstance(path[i + 1], int):
                off += path[i + 1] * f.size
            name = f.sub
        return f.kind, off, f.size

    def put(self, buf, part, path, value):
        kind, off, size = self.locate(part, path)
        put_raw(buf, kind, off, size, value)

    def get(self, data, part, path):
        kind, off, size = self.locate(part, path)
        return get_raw(data, kind, off, size)

    def to_dict(self, name, data, base=0):
        """What struct_to_dict must give for this structure (floats must be finite for comparisons)."""
        out = {}
        for f in self.fields[name]:
            if f.reserved:
                continue
            off = base + f.offset
            if f.count is None:
                out[f.name] = self._value(f, data, off)
                continue
            n = f.count
            limiter = self.limits[name].get(f.name)
            if limiter:
                lf = self.field(name, limiter)
                live = get_raw(data, lf.kind, base + lf.offset, lf.size)
                n = min(n, live)
                if live < 0:
                    raise ValueError("negative live counts are not specified")
            out[f.name] = [self._value(f, data, off + i * f.size) for i in range(n)]
        return out

    def _value(self, f, data, off):
        if f.sub:
            return self.to_dict(f.sub, data, off)
        if f.kind == "str":
            return text(bytes(data[off:off + f.size]))
        if f.kind == "ch":
            return bytes(data[off:off + 1]).decode("utf-8", "ignore")
        return PACKERS[f.kind].unpack_from(data, off)[0]

    def part_dict(self, part, data):
        return self.to_dict(self.top[part], data)


def put_raw(buf, kind, off, size, value):
    if kind == "str":
        assert len(value) <= size
        buf[off:off + size] = value + b"\0" * (size - len(value))
    elif kind == "ch":
        buf[off:off + 1] = value
    else:
        PACKERS[kind].pack_into(buf, off, value)


def get_raw(data, kind, off, size):
    """The raw value: numbers as numbers, strings as the bytes up to the terminator, a char as one byte."""
    if kind == "str":
        return bytes(data[off:off + size]).split(b"\0", 1)[0]
    if kind == "ch":
        return bytes(data[off:off + 1])
    return PACKERS[kind].unpack_from(data, off)[0]


def load(version):
    with open(os.path.join(ROOT, "layouts", version + ".json")) as f:
        return Layout(json.load(f))


_CACHE = {}


def layout(version):
    """The layout of a version; of the newest for versions without one of their own."""
    version = version if version in VERSIONS else NEWEST
    if version not in _CACHE:
        _CACHE[version] = load(version)
    return _CACHE[version]


def pack(data, level=6, wbits=15, strategy=0, flush=0, step=0):
    """zlib stream of data; flush > 0 puts that many full flushes into it."""
    c = zlib.compressobj(level, zlib.DEFLATED, wbits, 8, strategy)
    if not flush:
        return c.compress(data) + c.flush()
    out, step = [], max(1, len(data) // (flush + 1))
    for i in range(0, max(1, len(data)), step):
        out.append(c.compress(data[i:i + step]))
        out.append(c.flush(zlib.Z_FULL_FLUSH))
    return b"".join(out) + c.flush()


class Sample:
    """One stored sample: raw structures, and how their blocks are compressed."""

    def __init__(self, record, sstat, tstats, cgroups=(), how=None):
        self.record = bytearray(record)  # Lengths and counts are filled in by Log.build.
        self.sstat = bytes(sstat)
        self.tstats = [bytes(t) for t in tstats]
        self.cgroups = list(cgroups)  # [(cstat bytes, name bytes, [pids])]
        self.how = how or [{}] * 4
        self.omit_cgroups = False  # No cgroup blocks at all (ccomplen = icomplen = 0).
        self.omit_pids = False  # icomplen = 0; only without any pid.
        self.loose = {}  # Totals in the record that say something else than what is stored.
        self.offsets = None
        self.packed = None  # Blocks that are known already, of a sample of which there are many.

    def blocks(self, lay):
        """The compressed parts as they are stored."""
        out = [pack(self.sstat, **self.how[0]), pack(b"".join(self.tstats), **self.how[1])]
        if lay.has_cgroups:
            if self.omit_cgroups:
                out += [b"", b""]
            else:
                out.append(pack(b"".join(c + n for c, n, _ in self.cgroups), **self.how[2]))
                pids = [p for _, _, ps in self.cgroups for p in ps]
                out.append(b"" if self.omit_pids else pack(struct.pack("<%di" % len(pids), *pids), **self.how[3]))
        return out


class Log:
    """A well-formed log: bytes, and where each part of it is."""

    def __init__(self, version, header, samples):
        self.version = version
        self.layout = layout(version)
        self.header = bytes(header)
        self.samples = samples
        self.data = None
        self.build()

    def build(self):
        lay = self.layout
        out = [self.header]
        pos = len(self.header)
        for s in self.samples:
            rec = s.record
            blocks = s.packed or s.blocks(lay)
            lay.put(rec, "Record", ("scomplen",), len(blocks[0]))
            lay.put(rec, "Record", ("pcomplen",), len(blocks[1]))
            lay.put(rec, "Record", ("nlist" if lay.has("Record", "nlist") else "ndeviat",), len(s.tstats))
            if lay.has_cgroups:
                lay.put(rec, "Record", ("ncgroups",), len(s.cgroups))
                lay.put(rec, "Record", ("ncgpids",), sum(len(ps) for _, _, ps in s.cgroups))
                lay.put(rec, "Record", ("coriglen",), sum(len(c) + len(n) for c, n, _ in s.cgroups))
                lay.put(rec, "Record", ("ccomplen",), len(blocks[2]))
                lay.put(rec, "Record", ("icomplen",), len(blocks[3]))
                for field, value in s.loose.items():
                    lay.put(rec, "Record", (field,), value)
            s.offsets = [pos]
            out.append(bytes(rec))
            pos += len(rec)
            for b in blocks:
                s.offsets.append(pos)
                out.append(b)
                pos += len(b)
            s.offsets.append(pos)
        self.data = b"".join(out)

    @property
    def ends(self):
        """Stream position after each sample."""
        return [s.offsets[-1] for s in self.samples]
