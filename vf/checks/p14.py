"""P14: reading has no side effects beyond consuming the given stream."""
import atexit
import builtins
import codecs
import collections.abc
import contextlib
import copy
import copyreg
import csv
import ctypes
import decimal
import faulthandler
import fcntl
import gc
import gzip
import hashlib
import io
import json
import locale
import logging
import mimetypes
import multiprocessing.util  # noqa: F401
import numbers
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import sysconfig
import threading
import tracemalloc
import warnings

import atoparser
import atoparser.reader  # noqa: F401  (What it uses is loaded before the first picture of it is taken.)
from vf import gen, gen126, lib, model, rows
from vf.harness import PACKAGE, REPO, ROOT, Inconclusive, Violation
from vf.monitors import AuditMonitor, TracedStream, open_fds, shared_tables, tables_changed

RULE = ("Library: every public function over good, cut, corrupted and rejected logs of every version, on a traced stream, "
        "with an audit hook recording every file, process, network and import event of the interpreter. Command: separate "
        "processes with the hook in place before the package is loaded, a scratch home, temporary and working directory whose "
        "trees are compared before and after, all option sets, good and failing files; in-process runs watched for open "
        "descriptors and unclosed-file warnings; the tables, classes and defaults of the standard modules are compared with what they were. Distinct by (version, input, operations or options).")
REQUIRE = {"library_runs": 200, "recorded_streams": 1000, "audited_events": 2000, "stream_events": 1500, "command_processes": 30, "files_opened": 60,
           "trees_compared": 30, "descriptor_checks": 100, "failed_commands": 25, "large_logs": 20, "tables_compared": 5000, "stream_configurations": 100, "controls_noticed": 100, "unusual_settings": 400}
ASSUMPTIONS = ["audit events cover what Python code can do without native extensions; the package has none"]
CASE_LIMIT = {"quick": 600, "thorough": 1200}

STDLIB = tuple({os.path.realpath(p) + os.sep for p in (sysconfig.get_path("stdlib"), sysconfig.get_path("platstdlib"))} |
               {p + os.sep for p in (sysconfig.get_path("stdlib"), sysconfig.get_path("platstdlib"))})
FORBIDDEN = ("os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate",
             "os.chmod", "os.chown", "os.utime", "os.putenv", "os.unsetenv", "os.chdir", "os.fchdir", "os.system", "os.exec",
             "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.kill", "os.killpg", "os.setxattr", "os.removexattr",
             "os.chflags", "os.lchown", "os.startfile", "os.lockf", "subprocess.", "socket.", "shutil.", "tempfile.", "urllib.",
             "http.", "ftplib.", "smtplib.", "poplib.", "imaplib.", "nntplib.", "telnetlib.", "webbrowser.", "pty.", "sqlite3.",
             "pickle.", "fcntl.", "signal.", "resource.", "syslog.", "pdb.", "cpython.run", "sys.addaudithook", "glob.")
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def stdlib(path):
    path = os.path.realpath(path)
    return path.startswith(STDLIB) and "site-packages" not in path and "dist-packages" not in path or path.endswith(".zip")


def package(path):
    return os.path.realpath(path).startswith(os.path.realpath(PACKAGE) + os.sep)


def judge_events(ctx, what, events, given, cwd):
    """Every audited event against what reading may do."""
    given = {os.path.realpath(os.path.join(cwd, p)) for p in given}
    opened = set()
    for event in events:
        name, args = event[0], list(event[1:])
        ctx.count("audited_events")
        if name.startswith(FORBIDDEN):
            raise Violation("%s: %s %s" % (what, name, args[:3]))
        if name == "open":
            path, mode, flags = (args + [None] * 3)[:3]
            if isinstance(mode, str) and any(c in mode for c in "wax+") or isinstance(flags, int) and flags & WRITE_FLAGS:
                raise Violation("%s: opened %s for writing (%s, %s)" % (what, path, mode, flags))
            if not isinstance(path, str):
                continue
            real = os.path.realpath(os.path.join(cwd, path))
            if real in given:
                opened.add(real)
                ctx.count("files_opened")
            elif not stdlib(real) and not package(real) and not translation(real):
                raise Violation("%s: opened %s, which it was not given" % (what, path))
        elif name == "import" and len(args) > 1 and isinstance(args[1], str) and not stdlib(args[1]) and not package(args[1]):
            raise Violation("%s: loaded %s" % (what, args[1]))
        elif name in ("exec", "compile"):
            source = [a for a in args if isinstance(a, str)][-1:]
            path = source[0][5:] if source and source[0].startswith("code:") else None
            if path and os.path.isabs(path) and not stdlib(path) and not package(path):
                raise Violation("%s: ran code of %s" % (what, path))
        elif name == "ctypes.dlopen" and args and args[0] not in (None, ""):
            raise Violation("%s: loaded the library %s" % (what, args[0]))
    return opened


def translation(path):
    """argparse looks for message catalogues."""
    return path.endswith(".mo") or "/locale" in path


def tree(root):
    """{path: (type, size, mtime, content hash)}"""
    out = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            path = os.path.join(folder, name)
            st = os.lstat(path)
            body = None
            if os.path.isfile(path):
                with open(path, "rb") as f:
                    body = hashlib.blake2b(f.read(), digest_size=8).hexdigest()
            out[os.path.relpath(path, root)] = (st.st_mode, st.st_size if body else 0, st.st_mtime_ns if body else 0, body)
    return out


def sources():
    return {k: v for k, v in tree(PACKAGE).items() if "__pycache__" not in k}


TABLES = shared_tables()  # Before anything was read.


def same_tables(ctx, what):
    """The standard library is as it was before anything was read."""
    changed = [place for place in tables_changed(TABLES) if place not in OURS]
    if changed:
        raise Violation("%s: changed in the standard library: %s" % (what, changed[:8]))
    ctx.count("tables_compared", len(TABLES))


def cases(tier):
    q = tier == "quick"
    out = [("library", {"v": v, "i": i}) for v in model.VERSIONS + ["2.2", "2.13", "3.0"] for i in range(3 if q else 40)]
    out += [("large", {"v": v, "i": i}) for v in model.VERSIONS for i in range(1 if q else 12)]
    out += [("command", {"i": i}) for i in range(72 if q else 600)]
    out += [("descriptors", {"i": i}) for i in range(12 if q else 150)]
    return out


def umask():
    with open("/proc/self/status", encoding="ascii") as f:
        return next((line for line in f if line.startswith("Umask")), "")


def state():
    """What the library has no business with."""
    return {"working directory": os.getcwd(), "environment": dict(os.environ), "sys.path": list(sys.path), "threads": threading.active_count(),
            "descriptors": open_fds(), "collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()), "recursion limit": sys.getrecursionlimit(),
            "stdout": sys.stdout, "stderr": sys.stderr, "warning filters": list(warnings.filters), "random state": hash(random.getstate()),
            "signal handlers": [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD)],
            "all handlers": [signal.getsignal(n) for n in sorted(signal.valid_signals())], "blocked signals": signal.pthread_sigmask(signal.SIG_BLOCK, []),
            "limits": [resource.getrlimit(n) for n in range(resource.RLIM_NLIMITS if hasattr(resource, "RLIM_NLIMITS") else 16)],
            "priority": os.getpriority(os.PRIO_PROCESS, 0), "cpus": os.sched_getaffinity(0), "umask": umask(), "timers": signal.getitimer(signal.ITIMER_VIRTUAL),
            "locale": locale.setlocale(locale.LC_ALL), "trace functions": (sys.gettrace(), sys.getprofile()),
            "excepthook": sys.excepthook, "switch interval": sys.getswitchinterval(), "builtins": sorted(vars(builtins)),
            "open": builtins.open, "print": builtins.print, "socket timeout": socket.getdefaulttimeout(),
            "hooks": (sys.unraisablehook, sys.displayhook, threading.excepthook), "log handlers": list(logging.getLogger().handlers),
            "log level": logging.getLogger().level, "extensions": extensions(), "numbers": sys.get_int_max_str_digits(), "decimal": repr(decimal.getcontext())}


def extensions():
    """What is hooked into the interpreter: everything that is called at some later time."""
    loggers = logging.getLogger().manager.loggerDict
    return {"faulthandler": faulthandler.is_enabled(), "exit functions": atexit._ncallbacks(), "collector's callbacks": list(gc.callbacks),
            "importers": (list(sys.meta_path), list(sys.path_hooks)), "dlopen flags": sys.getdlopenflags(), "coroutines": (
                sys.get_coroutine_origin_tracking_depth(), sys.get_asyncgen_hooks()), "traced memory": tracemalloc.is_tracing(),
            "warnings": (warnings.showwarning, warnings.formatwarning, warnings.warn), "breakpoints": sys.breakpointhook, "import": builtins.__import__,
            "loggers": {k: (v.level, v.propagate, v.disabled, list(v.handlers)) for k, v in loggers.items() if isinstance(v, logging.Logger)},
            "logging": (logging.root.manager.disable, logging.raiseExceptions, logging.getLoggerClass()), "prompt": (hasattr(sys, "ps1"), hasattr(sys, "ps2")),
            "thread hooks": (threading.gettrace(), threading.getprofile(), stack_size()), "argv": list(sys.argv), "exception hook": sys.excepthook,
            "standard streams": [f is getattr(sys, "__%s__" % n) for n, f in (("stdin", sys.stdin), ("stderr", sys.stderr))],
            "written code": (sys.dont_write_bytecode, sys.pycache_prefix), "session": (os.getsid(0), os.getpgrp()), "fields of csv": csv.field_size_limit(), "dialects": csv.list_dialects(),
            "mime types": mimetypes.inited, "codecs": sorted(copyreg.dispatch_table, key=repr), "contexts": decimal.DefaultContext.prec,
            "blocking": [os.get_blocking(fd) for fd in (0, 1, 2)], "inheritable": [os.get_inheritable(fd) for fd in (0, 1, 2)], "frozen": gc.get_freeze_count(), "error handlers": [codecs.lookup_error(n) for n in HANDLERS],
            "kinds of objects": [(c, a) for c in KINDS for a in ABSTRACT if issubclass(c, a)], "wakeup": wakeup(), "error number": ctypes.get_errno(),
            "aliases of the package": sorted(n for n, m in list(sys.modules.items()) if package(getattr(m, "__file__", None) or "/") and not n.startswith((
                "atoparser", "__m")))}


HANDLERS = ("strict", "ignore", "replace", "backslashreplace", "xmlcharrefreplace", "namereplace", "surrogateescape", "surrogatepass")
KINDS = (ctypes.Structure, ctypes.Array, ctypes.Union, ctypes.c_int, int, str, bytes, list, dict)
ABSTRACT = [getattr(m, n) for m in (collections.abc, numbers) for n in m.__all__] + [os.PathLike, io.IOBase]


def stack_size():
    size = threading.stack_size()  # Asking sets it to the default.
    threading.stack_size(size)
    return size


def wakeup():
    """The descriptor that signals are written to, which only shows by being replaced."""
    if threading.current_thread() is not threading.main_thread():
        return None
    fd = signal.set_wakeup_fd(-1)
    if fd != -1:
        signal.set_wakeup_fd(fd, warn_on_full_buffer=False)
    return fd


# What unusual() itself sets; state() looks at these.
OURS = {"logging.root.handlers", "logging.root.level", "logging.root.manager.disable", "warnings.filters", "warnings.formatwarning",
        "warnings.formatwarning()"}


@contextlib.contextmanager
def unusual(ctx):
    """Settings of the process that are not what they usually are: whatever puts them back to that changes them."""
    rng = ctx.rng
    with contextlib.ExitStack() as stack:
        def put(get, put_, value, share=0.5):
            if rng.random() < share:
                old = get()
                stack.callback(put_, old)
                put_(value)
                ctx.count("unusual_settings")

        def attribute(obj, name, value, share=0.5):
            put(lambda: getattr(obj, name), lambda v: setattr(obj, name, v), value, share)

        folder = ctx.tmpdir()
        ours = socket.socketpair()
        stack.callback(ours[1].close)
        stack.callback(ours[0].close)
        ours[0].setblocking(False)
        stack.callback(signal.set_wakeup_fd, -1)
        signal.set_wakeup_fd(ours[0].fileno(), warn_on_full_buffer=False)
        put(ctypes.get_errno, ctypes.set_errno, 77, 1)
        put(gc.isenabled, lambda on: gc.enable() if on else gc.disable(), False)
        put(gc.get_threshold, lambda v: gc.set_threshold(*v), (rng.choice([50, 900, 20000]), 7, 9))
        put(sys.getrecursionlimit, sys.setrecursionlimit, rng.choice([900, 1200, 4000]))
        put(sys.getswitchinterval, sys.setswitchinterval, rng.choice([0.001, 0.02, 0.05]))
        put(sys.get_int_max_str_digits, sys.set_int_max_str_digits, rng.choice([0, 5000, 1000]))
        put(sys.get_coroutine_origin_tracking_depth, sys.set_coroutine_origin_tracking_depth, 2)
        put(sys.getdlopenflags, sys.setdlopenflags, os.RTLD_NOW | os.RTLD_GLOBAL, 0.3)
        put(lambda: os.umask(0o022), os.umask, rng.choice([0o027, 0o077, 0o002]))
        put(socket.getdefaulttimeout, socket.setdefaulttimeout, 12.5)
        put(os.getcwd, os.chdir, folder)
        put(lambda: csv.field_size_limit(), csv.field_size_limit, 4444)
        put(lambda: os.sched_getaffinity(0), lambda v: os.sched_setaffinity(0, v), set(sorted(os.sched_getaffinity(0))[:2]), 0.3)
        put(lambda: resource.getrlimit(resource.RLIMIT_CORE), lambda v: resource.setrlimit(resource.RLIMIT_CORE, v),
            (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))
        put(threading.stack_size, threading.stack_size, 1 << 20, 0.3)
        for n in (signal.SIGPIPE, signal.SIGTERM, signal.SIGUSR1, signal.SIGHUP):
            put(lambda n=n: signal.getsignal(n), lambda v, n=n: signal.signal(n, v), rng.choice([lambda *_: None, signal.SIG_IGN, signal.SIG_DFL]))
        put(lambda: signal.pthread_sigmask(signal.SIG_BLOCK, []), lambda v: signal.pthread_sigmask(signal.SIG_SETMASK, v), {signal.SIGUSR2, signal.SIGWINCH})
        put(lambda: locale.setlocale(locale.LC_NUMERIC), lambda v: locale.setlocale(locale.LC_NUMERIC, v), "C" if rng.random() < 0.5 else "C.UTF-8")
        put(random.getstate, random.setstate, random.Random(rng.random()).getstate())
        put(lambda: logging.root.manager.disable, logging.disable, 15)
        put(lambda: logging.getLogger().level, logging.getLogger().setLevel, logging.DEBUG)
        handler = logging.NullHandler()
        put(lambda: handler, lambda h: logging.getLogger().removeHandler(h) if h in logging.getLogger().handlers else logging.getLogger().addHandler(h), handler)
        seen = lambda *_: None  # noqa: E731
        put(lambda: seen, lambda f: gc.callbacks.remove(f) if f in gc.callbacks else gc.callbacks.append(f), seen)
        for obj, name in ((sys, "excepthook"), (sys, "displayhook"), (sys, "unraisablehook"), (threading, "excepthook"), (sys, "breakpointhook"),
                          (warnings, "formatwarning")):
            attribute(obj, name, lambda *_a, **_k: None, 0.3)
        attribute(warnings, "filters", [("ignore", None, DeprecationWarning, None, 0)] + warnings.filters)
        attribute(sys, "argv", ["caller", "-x"])
        attribute(sys, "pycache_prefix", os.path.join(folder, "cache"), 1)
        attribute(sys, "dont_write_bytecode", not sys.dont_write_bytecode)
        attribute(decimal.getcontext(), "prec", 9)
        attribute(decimal.DefaultContext, "prec", 11)
        if rng.random() < 0.5:
            os.environ["ATOPRC"] = "caller"
            stack.callback(os.environ.pop, "ATOPRC", None)
        yield


def damage(rng, log):
    """(name, data) variants of a log."""
    data = log.data
    s = rng.choice(log.samples)
    out = [("good", data), ("cut", data[:rng.randint(481, len(data) - 1)]), ("cut in a record", data[:s.offsets[0] + 30]),
           ("header only", data[:480]), ("short", data[:rng.randint(1, 479)]), ("empty", b""), ("magic", b"\0" + data[1:])]
    bad = bytearray(data)
    at = rng.randint(s.offsets[1], s.offsets[3 if len(s.offsets) > 3 else 2] - 1)
    bad[at] ^= 0xFF
    out.append(("corrupt", bytes(bad)))
    bad = bytearray(data)
    kind, off, size = log.layout.locate("Header", ("sstatlen",))
    bad[off] ^= 1
    out.append(("length", bytes(bad)))
    lay, rec = log.layout, s.offsets[0]
    count = "nlist" if lay.has("Record", "nlist") else "ndeviat"
    for name, field, value in (("more tasks", count, 1000), ("negative length", "pcomplen", -5 if not unsigned(lay, "pcomplen") else 0),
                               ("long", "scomplen", 100000), ("zero length", "scomplen", 0)):
        bad = bytearray(data)
        kind, off, size = lay.locate("Record", (field,))
        model.put_raw(bad, kind, rec + off, size, value)
        out.append((name, bytes(bad)))
    return out


def unsigned(lay, field):
    return lay.locate("Record", (field,))[0].startswith("u")


def use_library(rng, stream, version):
    """All public functions on one stream; returns how it ended."""
    from atoparser.parsers import atop_1_26
    try:
        header = atoparser.get_header(stream, rng.random() < 0.9)
        atoparser.struct_to_dict(header)
        _ = header.semantic_version, header.major_version, header.minor_version
        if rng.random() < 0.3:
            record = atoparser.get_record(stream, header)
            sstat = atoparser.get_sstat(stream, header, record)
            atoparser.get_tstat(stream, header, record)
            if header.CStat is not None:
                atoparser.get_cstat(stream, header, record)
            atoparser.struct_to_dict(sstat)
        reader = atoparser.generate_statistics(stream, header, raise_on_truncation=rng.random() < 0.5)
        for k, (record, sstat, tstats, cgroups) in enumerate(reader):
            atoparser.struct_to_dict(record)
            json.dumps(atoparser.struct_to_dict(sstat))
            for x in list(tstats) + list(cgroups):
                atoparser.struct_to_dict(x)
            if version == "1.26":
                for fmt in rows.FORMATS if hasattr(rows, "FORMATS") else rows.CLI_FORMATS:
                    list(getattr(atop_1_26, "parse_" + fmt)(header, record, sstat, tstats))
            if k == 1 and rng.random() < 0.2:
                break
        reader.close()
        return "ended"
    except Exception as e:  # pylint: disable=broad-except
        return type(e).__name__


RECORDING = (io.BytesIO, io.BufferedReader, io.BufferedRandom, io.FileIO, gzip.GzipFile)
FOREIGN = ("close", "seek", "write", "writelines", "truncate", "detach", "__exit__", "__enter__")


def recording(kind, data, folder):
    """(stream of this kind, list of the calls made on it that a reader has no business with)"""
    calls = []

    def spy(name):
        original = getattr(kind, name)

        def method(self, *args, **kwargs):
            caller = sys._getframe(1).f_code.co_filename  # pylint: disable=protected-access
            if caller.startswith(PACKAGE):
                calls.append(name)
            return original(self, *args, **kwargs)
        return method
    cls = type("Recorded" + kind.__name__, (kind,), {n: spy(n) for n in FOREIGN if hasattr(kind, n)})
    path = os.path.join(folder, "stream")
    if kind is io.BytesIO:
        return cls(data), calls
    if kind is gzip.GzipFile:
        return cls(fileobj=io.BytesIO(gzip.compress(data, 1))), calls
    with open(path, "wb") as f:
        f.write(data)
    if kind is io.FileIO:
        return cls(path, "rb"), calls
    return cls(io.FileIO(path, "rb" if kind is io.BufferedReader else "r+b")), calls


def look_of(stream):
    """What a stream is besides its content: attributes it carries, flags of its descriptor."""
    try:
        fd = stream.fileno()
    except (OSError, AttributeError):
        return sorted(vars(stream)), None
    return sorted(vars(stream)), fcntl.fcntl(fd, fcntl.F_GETFL), fcntl.fcntl(fd, fcntl.F_GETFD), fcntl.fcntl(fd, fcntl.F_GETOWN), os.fstat(fd).st_mode


def library(ctx, v):
    rng = ctx.rng
    log = gen126.log(rng, 3) if v == "1.26" else gen.tiny(rng, v, 3, tasks=2, groups=2)
    with unusual(ctx):
        watched(ctx, rng, log, v)


def watched(ctx, rng, log, v):
    earlier = state()
    use_library(rng, io.BytesIO(log.data), v)  # Lazy imports of the standard library happen here or below, both watched.
    changed_settings(v, earlier)
    monitor = AuditMonitor()
    control(ctx, monitor)
    for name, data in damage(rng, log):
        what = "%s %s" % (v, name)
        stream = TracedStream(data, max_calls=200)
        modules = set(sys.modules)
        before = state()
        out, err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = out, err
        try:
            with monitor:
                ending = use_library(rng, stream, v)
        finally:
            sys.stdout, sys.stderr = before["stdout"], before["stderr"]
        judge_events(ctx, what, monitor.events, [], os.getcwd())
        ctx.count("audited_events", monitor.total)
        changed_settings(what, before)
        same_tables(ctx, what)
        if out.getvalue() or err.getvalue():
            raise Violation("%s: the library printed %r" % (what, (out.getvalue() + err.getvalue())[:200]))
        check_modules(what, {m: getattr(sys.modules[m], "__file__", None) for m in set(sys.modules) - modules})
        if stream.forbidden or stream.closed:
            raise Violation("%s: the library called %s on the caller's stream" % (what, stream.forbidden))
        ctx.count("stream_events", len(stream.events))
        ctx.count("library_runs")
        ctx.count("evaluations")
        ctx.seen(v, name, ending, len(data), len(stream.events))
        # The stream remains the caller's also when the reader is dropped in the middle or collected.
        stream = TracedStream(data, max_calls=200)
        try:
            reader = atoparser.generate_statistics(stream)
            next(reader, None)
            del reader
        except Exception:  # pylint: disable=broad-except
            pass
        gc.collect(1)
        if stream.forbidden:
            raise Violation("%s: dropping the reader called %s on the caller's stream" % (what, stream.forbidden))
    # Streams of the standard library, which have more to offer than reading.
    folder = ctx.tmpdir()
    for kind in RECORDING:
        for name, data in damage(rng, log):
            stream, calls = recording(kind, data, folder)
            if kind in (io.FileIO, io.BufferedReader) and rng.random() < 0.5:
                os.set_blocking(stream.fileno(), False)
                os.set_inheritable(stream.fileno(), True)
            about = look_of(stream)
            use_library(rng, stream, v)
            if not stream.closed and look_of(stream) != about:
                raise Violation("%s %s: the caller's %s is another one: %s instead of %s" % (v, name, kind.__name__, look_of(stream), about))
            seen, closed = list(calls), stream.closed
            if closed or seen:
                raise Violation("%s %s: the library called %s on the caller's %s" % (v, name, seen[:5], kind.__name__))
            if kind is io.BytesIO and stream.getvalue() != data:
                raise Violation("%s %s: the library wrote to the caller's stream" % (v, name))
            ctx.count("recorded_streams")
            stream.close()
            path = os.path.join(folder, "stream")
            if kind is not io.BytesIO and kind is not gzip.GzipFile:
                with open(path, "rb") as f:
                    if f.read() != data:
                        raise Violation("%s %s: the library wrote to the caller's file" % (v, name))
    ctx.sample({"version": v, "inputs": [n for n, _ in damage(rng, log)]})


CONFIGURATION = ("encoding", "errors", "newlines", "line_buffering", "write_through", "closed", "mode", "name")


def standard_streams(ctx, names, options):
    """The streams of the process belong to who called the command: they stay configured as they were, open, and in place."""
    rng = ctx.rng
    raw = io.BytesIO() if rng.random() < 0.7 else io.BufferedWriter(io.BytesIO(), rng.choice([16, 8192]))
    streams = [io.TextIOWrapper(b, rng.choice(["utf-8", "ascii", "latin-1", "utf-16"]), rng.choice(["strict", "replace", "backslashreplace"]),
                                rng.choice([None, "", "\n", "\r\n"]), rng.random() < 0.3, rng.random() < 0.3)
               for b in (io.BytesIO(), raw, io.BytesIO())]
    kept = sys.stdin, sys.stdout, sys.stderr
    look = lambda: [[getattr(f, a, None) for a in CONFIGURATION] for f in streams]
    before, handles = look(), [f.buffer for f in streams]
    saved_argv, sys.argv = sys.argv, ["atoparser"] + names + options
    sys.stdin, sys.stdout, sys.stderr = streams
    try:
        atoparser.reader.main()
    except (Exception, SystemExit):  # pylint: disable=broad-except
        pass
    finally:
        now = sys.stdin, sys.stdout, sys.stderr
        sys.stdin, sys.stdout, sys.stderr = kept
        sys.argv = saved_argv
    what = "command %s %s" % (names[:5], options)
    if any(a is not b for a, b in zip(now, streams)) or any(f.buffer is not b for f, b in zip(streams, handles)):
        raise Violation("%s: a standard stream was replaced" % what)
    if look() != before:
        raise Violation("%s: the standard streams are configured otherwise: %s instead of %s" % (what, look(), before))
    ctx.count("stream_configurations")


def control(ctx, monitor):
    """The monitor and its judgement notice what they are there for."""
    folder = ctx.tmpdir()
    path = os.path.join(folder, "control")
    with open(path, "wb") as f:
        f.write(b"x")
    for act in (lambda: open(path, "ab").close(), lambda: os.close(os.open(path, os.O_RDWR)), lambda: open(path, "rb").close(),
                lambda: open(os.fsencode(path), "rb").close(), lambda: os.rename(path, path),
                lambda: socket.socket().close(), lambda: os.remove(path)):
        with monitor:
            act()
        try:
            judge_events(ctx, "control", monitor.events, [], folder)
        except Violation:
            ctx.count("controls_noticed")
        else:
            raise Inconclusive("a control was not noticed: %s" % monitor.events)


def changed_settings(what, before):
    for label, a in state().items():
        if a != before[label]:
            if isinstance(a, dict):
                a = {k: (before[label].get(k), v) for k, v in a.items() if before[label].get(k) != v} or a
            raise Violation("%s: the %s changed: %s" % (what, label, lib.short(a)))


def large(ctx, v):
    with unusual(ctx):
        large_logs(ctx, v)


def large_logs(ctx, v):
    """More samples and larger blocks than anyone would keep in a buffer."""
    from atoparser import reader
    rng = ctx.rng
    lay = model.layout(v)
    log = gen.log(rng, v, 3, tasks=rng.choice([150, 700, 2500]), groups=rng.randint(520, 700), style="sparse")
    s = log.samples[1]
    s.sstat = bytearray(rng.randbytes(lay.size("SStat")))
    gen.set_counts(rng, lay, "SStat", s.sstat, "small")
    s.tstats = [rng.randbytes(lay.size("TStat")) for _ in s.tstats]
    log.samples += [copy.deepcopy(log.samples[rng.choice([0, 2])]) for _ in range(9)]
    log.build()
    folder = ctx.tmpdir()
    path = os.path.join(folder, "large.log" + rng.choice(["", ".gz"]))
    with open(path, "wb") as f:
        f.write(gzip.compress(log.data, 1) if path.endswith(".gz") else log.data)
    control(ctx, AuditMonitor())
    before = state()
    for how in ("library", "command"):
        monitor = AuditMonitor()
        with monitor:
            if how == "library":
                n = sum(1 for _ in atoparser.generate_statistics(io.BytesIO(log.data)))
            else:
                kept, sys.stdout = sys.stdout, io.StringIO()
                try:
                    reader.parse_file(path, None, True)
                    n = len(lib.json_documents(sys.stdout.getvalue())[0])
                finally:
                    sys.stdout = kept
        if n != len(log.samples):
            raise Violation("%s large: %d of %d samples" % (v, n, len(log.samples)))
        judge_events(ctx, "%s large, %s" % (v, how), monitor.events, [path], folder)
        changed_settings("%s large, %s" % (v, how), before)
        same_tables(ctx, "%s large, %s" % (v, how))
        if os.listdir(folder) != [os.path.basename(path)]:
            raise Violation("%s large: files appeared: %s" % (v, os.listdir(folder)))
        ctx.count("audited_events", monitor.total)
        ctx.count("large_logs")
        ctx.count("evaluations")
        ctx.seen(v, "large", how, len(log.data))


def check_modules(what, modules):
    for name, path in modules.items():
        if path and not stdlib(path) and not package(path):
            raise Violation("%s: the module %s was loaded from %s" % (what, name, path))


def some_files(ctx, rng, folder):
    """A few files, good and bad; [(path, reads without error)]"""
    out = []
    for k in range(rng.randint(1, 4)):
        v = rng.choice(model.VERSIONS + ["2.2", "2.13"])
        log = gen126.log(rng, 2, tasks=2) if v == "1.26" else gen.tiny(rng, v, 2, tasks=1, groups=1)
        name, data = rng.choice(damage(rng, log)) if rng.random() < 0.5 else ("good", log.data)
        good = name in ("good", "cut", "cut in a record", "header only", "corrupt")
        path = os.path.join(folder, "f%d.log" % k)
        if rng.random() < 0.4:
            path += ".gz"
            data = gzip.compress(data, 1)
            if rng.random() < 0.15:
                data, good = rng.choice([(b"no gzip", False), (data[:15], False)])
        if rng.random() < 0.1:
            out.append((os.path.join(folder, "missing%d" % k), False))
            continue
        with open(path, "wb") as f:
            f.write(data)
        os.chmod(path, rng.choice([0o644, 0o444, 0o600]))
        out.append((path, good))
    return out


def some_options(rng):
    options = [o for o in ("-p", "--tstats", "--cstats") if rng.random() < 0.4]
    if rng.random() < 0.4:
        options += ["-P"] + rng.sample(rows.CLI_FORMATS, rng.randint(1, 3))
    return options


def lower():
    """Limits that could be raised."""
    for which, soft in ((resource.RLIMIT_NOFILE, 300), (resource.RLIMIT_STACK, 4 << 20), (resource.RLIMIT_CORE, 0), (resource.RLIMIT_NPROC, 5000),
                        (resource.RLIMIT_AS, 8 << 30), (resource.RLIMIT_DATA, 8 << 30)):
        hard = resource.getrlimit(which)[1]
        if hard == resource.RLIM_INFINITY or hard > soft:
            resource.setrlimit(which, (soft, hard))


def command(ctx, i):
    rng = ctx.rng
    root = ctx.tmpdir()
    for name in ("home", "tmp", "cwd", "data"):
        os.mkdir(os.path.join(root, name))
    files = some_files(ctx, rng, os.path.join(root, "data"))
    cwd = os.path.join(root, "cwd")
    names = [os.path.relpath(p, cwd) if rng.random() < 0.5 else p for p, _ in files]
    if i % 9 == 4:  # Very many of them.
        names, files = names * (rng.randint(260, 700) // len(names)), files * 1
    options = some_options(rng)
    if i % 9 == 8:
        options = rng.choice([["-h"], ["-P", "NOPE"], ["--unknown"]])
    report = os.path.join(ctx.tmpdir(), "report.json")
    env = {"PATH": os.environ.get("PATH", ""), "HOME": os.path.join(root, "home"), "TMPDIR": os.path.join(root, "tmp"),
           "XDG_CACHE_HOME": os.path.join(root, "home"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "LANG": "C.UTF-8",
           "ATOP": "1", "ATOPARSER_CACHE": os.path.join(root, "tmp"), "DEBUG": "1"}
    before, code_before = tree(root), sources()
    p = subprocess.run([sys.executable, os.path.join(ROOT, "vf", "auditrun.py"), report, REPO] + names + options, cwd=cwd, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=250, check=False,
                       preexec_fn=lower)
    what = "command %s %s" % ([os.path.basename(n) for n in names[:10]], options)
    if not os.path.exists(report):
        raise Violation("%s: the process ended with %s before it could report: %s" % (what, p.returncode, p.stderr[-500:]))
    with open(report) as f:
        seen = json.load(f)
    opened = judge_events(ctx, what, seen["events"], [f for f, _ in files], cwd)
    check_modules(what, seen["modules"])
    after = tree(root)
    if after != before:
        changed = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
        raise Violation("%s: files changed: %s" % (what, changed))
    if sources() != code_before:
        raise Violation("%s: the package's own files changed" % what)
    if seen["changed"]:
        raise Violation("%s: %s changed" % (what, seen["changed"]))
    if seen["warned"]:
        raise Violation("%s: %s" % (what, seen["warned"][:3]))
    if seen["fds"]:
        raise Violation("%s: descriptors %s stay open" % (what, seen["fds"]))
    ctx.count("trees_compared")
    ctx.count("command_processes")
    ctx.count("evaluations")
    ctx.count("failed_commands", p.returncode != 0)
    ctx.seen(names, options, p.returncode)
    if all(good for _, good in files) and i % 9 != 8:
        if p.returncode or len(opened) != len(files):
            raise Violation("%s: exit %s, %s, opened %s" % (what, p.returncode, seen["error"], sorted(opened)))
    ctx.sample({"files": [os.path.basename(n) for n in names], "options": options, "exit": p.returncode, "events": len(seen["events"])})


def descriptors(ctx):
    """The command in this process: nothing stays open, nothing is closed by the collector instead of by the command."""
    from atoparser import reader
    rng = ctx.rng
    for _ in range(12):
        folder = ctx.tmpdir()
        files = some_files(ctx, rng, folder)
        names = [p for p, _ in files]
        options = some_options(rng)
        caught = None
        before = open_fds()
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            if rng.random() < 0.5:
                try:
                    lib.cli(names + options)
                except Exception as e:  # pylint: disable=broad-except
                    caught = e  # Keeps the frames, and what they hold, alive.
            else:
                for name in names:
                    now = open_fds()
                    sys_out, sys.stdout = sys.stdout, io.StringIO()
                    try:
                        reader.parse_file(name, None, rng.random() < 0.5)
                    except Exception as e:  # pylint: disable=broad-except
                        caught = e
                    finally:
                        sys.stdout = sys_out
                    if open_fds() != now:
                        raise Violation("parse_file left %s open" % (set(open_fds().values()) - set(now.values())))
                    ctx.count("descriptor_checks")
            standard_streams(ctx, names, options)
            after = open_fds()
            left = {fd: p for fd, p in after.items() if before.get(fd) != p}
            if left:
                raise Violation("%s %s (%r): descriptors stay open: %s" % (names, options, caught, left))
            failed = caught is not None
            caught = None
            gc.collect(1)
        same_tables(ctx, "command %s %s" % (names, options))
        bad = [str(w.message) for w in warned if issubclass(w.category, ResourceWarning) and folder in str(w.message)]
        if bad:
            raise Violation("%s %s: %s" % (names, options, bad[:3]))
        ctx.count("descriptor_checks")
        ctx.count("failed_commands", failed)
        ctx.count("evaluations")
        ctx.seen("descriptors", [os.path.basename(n) for n in names], options, failed, len(ctx.keys))
    missing = os.path.join(ctx.tmpdir(), "none.log")
    try:
        lib.cli([missing])
    except OSError:
        pass
    if os.path.exists(missing):
        raise Violation("the command created %s" % missing)


def run(ctx, kind, p):
    if kind == "library":
        library(ctx, p["v"])
    elif kind == "large":
        large(ctx, p["v"])
    elif kind == "command":
        command(ctx, p["i"])
    else:
        descriptors(ctx)
