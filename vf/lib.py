"""What several checks share: comparing delivered objects with the model, running the command, small helpers."""
import contextlib
import io
import itertools
import json
import os
import pty
import random
import re
import select
import subprocess
import sys
import termios
import zlib

import atoparser
from vf import model
from vf.harness import REPO, Inconclusive, Violation

STRING = re.compile(r'("(?:[^"\\]|\\.)*")')
PART_NAMES = ("record", "sstat", "tstats", "cgroups")


def attr(obj, name):
    """getattr that reports a missing public attribute as a violation."""
    try:
        return getattr(obj, name)
    except AttributeError as e:
        raise Violation("%s has no %r: %s" % (type(obj).__name__, name, e)) from None


def diff_at(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return "first difference at byte %d: %s != %s" % (i, a[i:i + 8].hex(), b[i:i + 8].hex())
    return "lengths %d and %d" % (len(a), len(b))


def raw(obj):
    """The memory of a structure."""
    return bytes(memoryview(obj))


def check_bytes(what, obj, expected):
    got = raw(obj)
    if got != expected:
        raise Violation("%s: %s" % (what, diff_at(got, expected)))


def check_cgroups(what, got, expected):
    if not isinstance(got, (list, tuple)) or len(got) != len(expected):
        raise Violation("%s: %s cgroups instead of %d" % (what, len(got) if hasattr(got, "__len__") else got, len(expected)))
    for i, (g, (cstat, _name, pids)) in enumerate(zip(got, expected)):
        check_bytes("%s cgroup %d" % (what, i), attr(g, "cstat"), cstat)
        found = list(attr(g, "proclist"))
        if found != pids:
            raise Violation("%s cgroup %d: pids %r instead of %r" % (what, i, found[:20], pids[:20]))


def check_sample(what, got, sample):
    """One yielded tuple against the stored sample."""
    if not isinstance(got, tuple) or len(got) != 4:
        raise Violation("%s: not a 4-tuple: %r" % (what, type(got)))
    record, sstat, tstats, cgroups = got
    check_bytes(what + " record", record, bytes(sample.record))
    check_bytes(what + " sstat", sstat, sample.sstat)
    if not isinstance(tstats, list) or len(tstats) != len(sample.tstats):
        raise Violation("%s: %s tasks instead of %d" % (what, len(tstats), len(sample.tstats)))
    for i, (t, e) in enumerate(zip(tstats, sample.tstats)):
        check_bytes("%s task %d" % (what, i), t, e)
    check_cgroups(what, cgroups, sample.cgroups)


def frozen(got):
    """Everything in a yielded tuple, as plain comparable data."""
    record, sstat, tstats, cgroups = got
    return (raw(record), raw(sstat), [raw(t) for t in tstats], [(raw(c.cstat), list(c.proclist)) for c in cgroups])


def stored(sample):
    return (bytes(sample.record), sample.sstat, list(sample.tstats), [(c, p) for c, _n, p in sample.cgroups])


def read_all(stream, limit=100000, **kwargs):
    """(yielded tuples, exception or None)."""
    out = []
    try:
        for got in itertools.islice(atoparser.generate_statistics(stream, **kwargs), limit):
            out.append(got)
    except Exception as e:  # pylint: disable=broad-except
        if isinstance(e, Violation):
            raise
        return out, e
    return out, None


def sample_dict(lay, header, s, tstats=False, cstats=False):
    """The command's entry for a sample."""
    out = {"header": lay.part_dict("Header", header), "record": lay.part_dict("Record", bytes(s.record)),
           "sstat": lay.part_dict("SStat", s.sstat)}
    if tstats:
        out["tstat"] = [lay.part_dict("TStat", t) for t in s.tstats]
    if cstats:
        out["cgroup"] = [cgroup_dict(lay, c, pids) for c, _n, pids in s.cgroups]
    return out


def cgroup_dict(lay, cstat, pids):
    return {"cstat": lay.part_dict("CStat", cstat), "proclist": list(pids)}


def differ(a, b, path="", order=True):
    """Where two JSON-like values differ in type, (key order) or value; None if they are the same."""
    if type(a) is not type(b):
        return "%s: %s %r instead of %s %r" % (path, type(a).__name__, short(a), type(b).__name__, short(b))
    if isinstance(a, dict):
        if list(a) != list(b) and (order or set(a) != set(b)):
            extra, missing = [k for k in a if k not in b], [k for k in b if k not in a]
            return "%s: keys differ: extra %s missing %s%s" % (path, extra[:5], missing[:5],
                                                               "" if extra or missing else " (order)")
        for k in b:
            d = differ(a[k], b[k], "%s.%s" % (path, k), order)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d elements instead of %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s[%d]" % (path, i), order)
            if d:
                return d
        return None
    if isinstance(a, float):
        return None if a == b and str(a) == str(b) else "%s: %r instead of %r" % (path, a, b)
    return None if a == b else "%s: %s instead of %s" % (path, short(a), short(b))


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."


class Run:
    """What the command did."""

    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err


@contextlib.contextmanager
def patched_argv(argv):
    saved = sys.argv
    sys.argv = argv
    try:
        yield
    finally:
        sys.argv = saved


def cli(args, cwd=None):
    """Run the command in this process."""
    from atoparser import reader
    out, err = io.StringIO(), io.StringIO()
    saved = os.getcwd() if cwd else None
    code = 0
    try:
        if cwd:
            os.chdir(cwd)
        with patched_argv(["atoparser"] + list(args)), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                sys.exit(reader.main())  # As the installed entry point calls it.
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    finally:
        if cwd:
            os.chdir(saved)
    return Run(code, out.getvalue(), err.getvalue())


ENTRY = ["-c", "import sys; from atoparser.reader import main; sys.exit(main())"]  # What pip's console script does.


def on_terminal(args, env, cwd="/", which=("in", "out")):
    """(exit status, output, messages) of a command of whose standard streams these are a terminal, a small one."""
    ends = {}
    try:
        for name in which:
            ends[name] = pty.openpty() if name == "err" or not ends else next(iter(ends.values()))
    except OSError as e:
        raise Inconclusive("no terminal: %s" % e) from None
    for ours, theirs in ends.values():
        mode = termios.tcgetattr(theirs)
        mode[1] &= ~termios.OPOST
        mode[3] &= ~termios.ECHO
        termios.tcsetattr(theirs, termios.TCSANOW, mode)
        termios.tcsetwinsize(theirs, (5, 20))
    given = {name: theirs for name, (_, theirs) in ends.items()}
    with subprocess.Popen(args, env=dict(env, TERM="xterm-256color"), cwd=cwd, stdin=given.get("in", subprocess.DEVNULL),
                          stdout=given.get("out", subprocess.PIPE), stderr=given.get("err", subprocess.PIPE)) as p:
        for fd in set(given.values()):
            os.close(fd)
        got = {}
        for name, pipe in (("out", p.stdout), ("err", p.stderr)):
            got[ends[name][0] if name in ends else pipe.fileno()] = (name, [])
        pipes = list(got)
        while pipes:
            for fd in select.select(pipes, [], [], 300)[0] or pipes[:]:
                try:
                    chunk = os.read(fd, 1 << 16)
                except OSError:  # The other side is closed.
                    chunk = b""
                if not chunk:
                    pipes.remove(fd)
                got[fd][1].append(chunk)
        p.wait(60)
    for fd in {ours for ours, _ in ends.values()}:
        os.close(fd)
    out = {name: b"".join(chunks) for name, chunks in got.values()}
    return p.returncode, out["out"], out["err"]


TERMINALS = [(), (), ("in",), ("in", "out"), ("out",), ("err",), ("in", "err"), ("in", "out", "err")]


def cli_process(args, cwd, env=None, timeout=200, installed=False, terminals=()):
    """Run the command as a separate process."""
    full = {k: v for k, v in os.environ.items() if k not in ("PYTHONUTF8", "PYTHONUNBUFFERED")}
    full.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    full.update(env or {})
    if terminals:
        code, out, err = on_terminal([sys.executable] + (ENTRY if installed else ["-m", "atoparser.reader"]) + list(args), full, cwd, terminals)
        return Run(code, out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "replace"))
    p = subprocess.run([sys.executable] + (ENTRY if installed else ["-m", "atoparser.reader"]) + list(args), cwd=cwd, env=full, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
    return Run(p.returncode, p.stdout.decode("utf-8", "surrogateescape"), p.stderr.decode("utf-8", "replace"))


def unique(pairs):
    out = dict(pairs)
    if len(out) != len(pairs):
        raise Violation("an object repeats a key: %s" % [k for k, _ in pairs][:40])
    return out


def outside_strings(out):
    """The text without whitespace outside strings."""
    return "".join(part if part.startswith('"') else "".join(part.split()) for part in STRING.split(out))


def json_documents(out):
    """The JSON documents printed one after another."""
    decoder = json.JSONDecoder(object_pairs_hook=unique)
    docs, pos = [], 0
    while True:
        while pos < len(out) and out[pos] in " \t\r\n":
            pos += 1
        if pos >= len(out):
            return docs
        try:
            doc, pos = decoder.raw_decode(out, pos)
        except ValueError as e:
            raise Violation("stdout is not a sequence of JSON documents: %s near %r" % (e, out[pos:pos + 80])) from None
        docs.append(doc)


def interesting(rng, n, *points):
    """Positions in 0..n around the given points."""
    out = set()
    for p in points:
        for d in (-3, -2, -1, 0, 1, 2, 3):
            if 0 <= p + d <= n:
                out.add(p + d)
    return sorted(out)


def seeded(*parts):
    return random.Random(":".join(map(str, parts)))


def damage(e):
    """Whether an exception is a decompression error."""
    return isinstance(e, zlib.error)


def check_fields(what, obj, lay, name, data, base=0, full=True, counter=None):
    """Every named member of a structure, read as an attribute, against the value stored at its place in the C layout."""
    n = 0
    for f in lay.fields[name]:
        if f.reserved:
            continue
        got = attr(obj, f.name)
        off = base + f.offset
        where = "%s.%s" % (what, f.name)
        if f.count is None:
            if f.sub:
                n += check_fields(where, got, lay, f.sub, data, off, full)
            else:
                n += 1
                check_value(where, got, f, data, off)
            continue
        if len(got) != f.count:
            raise Violation("%s has %d elements instead of %d" % (where, len(got), f.count))
        indices = range(f.count) if full or f.count < 5 else (0, 1, f.count // 2, f.count - 1)
        for i in indices:
            at = off + i * f.size
            if f.sub:
                n += check_fields("%s[%d]" % (where, i), got[i], lay, f.sub, data, at, full)
            else:
                n += 1
                check_value("%s[%d]" % (where, i), got[i], f, data, at)
    return n


def check_value(where, got, f, data, off):
    want = model.get_raw(data, f.kind, off, f.size)
    if got != want and not (f.kind == "f4" and got != got and want != want):
        raise Violation("%s is %r instead of %r (%s at offset %d)" % (where, got, want, f.kind, off))
    if type(got) is not type(want):
        raise Violation("%s is a %s instead of a %s" % (where, type(got).__name__, type(want).__name__))
