"""Every kind of binary stream a log may be read from. Each factory returns (stream, what to close afterwards)."""
import bz2
import gzip
import io
import lzma
import os
import socket
import tarfile
import tempfile
import threading
import zipfile
import zlib

from vf.monitors import TracedStream


class Chunky(io.RawIOBase):
    """A raw stream that gives as little as it likes at a time, as pipes and sockets do."""

    def __init__(self, data, rng):
        self._data, self._pos, self._rng = data, 0, rng

    def readable(self):
        return True

    def readinto(self, target):
        n = min(len(target), len(self._data) - self._pos, self._rng.choice([1, 7, 100, 4096, 1 << 20]))
        target[:n] = self._data[self._pos:self._pos + n]
        self._pos += n
        return n


class ReadOnlyBase(io.BufferedIOBase):
    """A minimal binary reader: only read() of its own, readinto() comes from the base class."""

    def __init__(self, data):
        self._data, self._pos = data, 0

    def readable(self):
        return True

    def read(self, size=-1):
        size = len(self._data) if size is None or size < 0 else size
        out = self._data[self._pos:self._pos + size]
        self._pos += len(out)
        return out

    read1 = read


def _write(folder, name, data):
    path = os.path.join(folder, name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def _pipe(rng, folder, data):
    r, w = os.pipe()

    def feed():
        try:
            with os.fdopen(w, "wb", buffering=0) as out:
                at = 0
                while at < len(data):
                    n = rng_feed.choice([1, 100, 5000, 60000, 1 << 20])
                    at += out.write(data[at:at + n])
        except OSError:
            pass
    import random
    rng_feed = random.Random(rng.random())
    thread = threading.Thread(target=feed, daemon=True)
    thread.start()
    return os.fdopen(r, "rb"), [thread]


def _socket(rng, folder, data):
    a, b = socket.socketpair()

    def feed():
        try:
            b.sendall(data)
        except OSError:
            pass
        b.close()
    thread = threading.Thread(target=feed, daemon=True)
    thread.start()
    stream = a.makefile("rb")
    return stream, [a, thread]


def _offset(rng, folder, data, opener):
    prefix = rng.choice([b"\0", b"x" * 480, data[:480], rng.randbytes(rng.randint(1, 10000))])
    stream, extra = opener(prefix + data)
    if rng.random() < 0.5:
        stream.seek(len(prefix))
    else:
        stream.read(len(prefix))
    return stream, extra


def _members(rng, data):
    cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.randint(1, 6)))
    return b"".join(gzip.compress(data[a:b], rng.randint(0, 9)) for a, b in zip([0] + cuts, cuts + [len(data)]))


def _gzip_named(data):
    out = io.BytesIO()
    with gzip.GzipFile(filename="atop_20240101", mode="wb", fileobj=out, mtime=123456789) as f:
        f.write(data)
    return out.getvalue()


def _zip(rng, folder, data):
    path = os.path.join(folder, "log.zip")
    with zipfile.ZipFile(path, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        z.writestr("log", data)
    z = zipfile.ZipFile(path)
    return z.open("log"), [z]


def _tar(rng, folder, data):
    raw = io.BytesIO()
    mode = rng.choice(["", "gz"])
    with tarfile.open(fileobj=raw, mode="w:" + mode) as t:
        for name, body in (("before", b"b" * 700), ("log", data)):
            info = tarfile.TarInfo(name)
            info.size = len(body)
            t.addfile(info, io.BytesIO(body))
    t = tarfile.open(fileobj=io.BytesIO(raw.getvalue()))
    return t.extractfile("log"), [t]


def _spooled(rng, folder, data):
    f = tempfile.SpooledTemporaryFile(max_size=rng.choice([10, 1 << 30]), dir=folder)
    f.write(data)
    f.seek(0)
    return f, []


def _random(rng, folder, data):
    return open(_write(folder, "rw.log", data), "r+b"), []


def _misnamed(rng, folder, data):
    """The name says something else than the content."""
    return open(_write(folder, "plain.log.gz", data), "rb"), []


def _nested(rng, folder, data):
    inner = gzip.GzipFile(mode="rb", fileobj=io.BytesIO(gzip.compress(gzip.compress(data, 1), 1)))
    return gzip.GzipFile(mode="rb", fileobj=inner), [inner]


class MyBytesIO(io.BytesIO):
    """A subclass with a name of its own."""
    name = None
    mode = "wb+"


class Hidden(io.BytesIO):
    """In memory too, but only what is read makes sense."""

    def __init__(self, data):
        super().__init__(bytes(data).translate(self.TABLE))

    TABLE = bytes(x ^ 0x5A for x in range(256))

    def read(self, size=-1):
        return super().read(size).translate(self.TABLE)

    def read1(self, size=-1):
        return super().read1(size).translate(self.TABLE)

    def readinto(self, target):
        got = super().readinto(target)
        view = memoryview(target).cast("B")
        view[:got] = bytes(view[:got]).translate(self.TABLE)
        return got

    readinto1 = readinto

    def readline(self, size=-1):
        raise io.UnsupportedOperation("a log has no lines")


class HiddenFile(io.BufferedReader):
    """A file whose content only makes sense as read."""
    TABLE = Hidden.TABLE

    def read(self, size=-1):
        return super().read(size).translate(self.TABLE)

    read1 = read

    def readinto(self, target):
        got = self.read(len(memoryview(target).cast("B")))
        memoryview(target).cast("B")[:len(got)] = got
        return len(got)

    readinto1 = readinto


def _hidden_file(rng, folder, data):
    return HiddenFile(io.FileIO(_write(folder, "hidden.log", data.translate(Hidden.TABLE)))), []


FACTORIES = {
    "memory": lambda rng, folder, data: (io.BytesIO(data), []),
    "memory subclass": lambda rng, folder, data: (MyBytesIO(data), []),
    "transforming memory": lambda rng, folder, data: (Hidden(data), []),
    "transforming file": _hidden_file,
    "memory at an offset": lambda rng, folder, data: _offset(rng, folder, data, lambda d: (io.BytesIO(d), [])),
    "buffered file": lambda rng, folder, data: (open(_write(folder, "a.log", data), "rb"), []),
    "unbuffered file": lambda rng, folder, data: (open(_write(folder, "b.log", data), "rb", buffering=0), []),
    "oddly buffered file": lambda rng, folder, data: (
        open(_write(folder, "c.log", data), "rb", buffering=rng.choice([2, 7, 479, 481, 4096, 1 << 20])), []),
    "read-write file": _random,
    "file at an offset": lambda rng, folder, data: _offset(
        rng, folder, data, lambda d: (open(_write(folder, "d.log", d), "rb", buffering=rng.choice([0, 512, 8192])), [])),
    "misnamed file": _misnamed,
    "gzip file": lambda rng, folder, data: (gzip.open(_write(folder, "e.log.gz", gzip.compress(data, rng.randint(0, 9)))), []),
    "gzip object": lambda rng, folder, data: (gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(data, 1))), []),
    "gzip with a name": lambda rng, folder, data: (gzip.GzipFile(fileobj=io.BytesIO(_gzip_named(data))), []),
    "gzip members": lambda rng, folder, data: (gzip.GzipFile(fileobj=io.BytesIO(_members(rng, data))), []),
    "gzip padded": lambda rng, folder, data: (gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(data, 1) + bytes(512))), []),
    "gzip in gzip": _nested,
    "gzip at an offset": lambda rng, folder, data: _offset(
        rng, folder, data, lambda d: (gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(d, 1))), [])),
    "bz2": lambda rng, folder, data: (bz2.open(_write(folder, "f.log.bz2", bz2.compress(data, rng.randint(1, 9)))), []),
    "xz": lambda rng, folder, data: (lzma.open(_write(folder, "g.log.xz", lzma.compress(data, preset=rng.randint(0, 3)))), []),
    "pipe": _pipe,
    "socket": _socket,
    "chunky": lambda rng, folder, data: (io.BufferedReader(Chunky(data, rng), rng.choice([1, 100, 8192])), []),
    "minimal": lambda rng, folder, data: (ReadOnlyBase(data), []),
    "traced": lambda rng, folder, data: (TracedStream(data), []),
    "zip member": _zip,
    "tar member": _tar,
    "spooled": _spooled,
}


def close(stream, extra):
    for f in [stream] + extra:
        if isinstance(f, threading.Thread):
            f.join(30)
        elif not isinstance(f, TracedStream):
            try:
                f.close()
            except BufferError:  # Something still refers to the memory; not what is asked here.
                pass


def gunzipped(packed):
    """What a cut gzip file still gives."""
    return zlib.decompressobj(31).decompress(packed)
