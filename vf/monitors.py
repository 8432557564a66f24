"""Monitors at the boundary of the code under test."""
import ctypes
import gc
import os
import sys
import threading

from vf.harness import PACKAGE, Violation


class TracedStream:
    """A binary stream over bytes that records every call as (operation, position, asked, given).

    max_calls bounds the number of reads: a reader that goes past it is stuck in a loop.
    hook(stream, op) runs before each read, for schedulers and fault injection.
    """

    def __init__(self, data, start=0, max_calls=None, hook=None):
        self._data = memoryview(data)
        self.pos = start
        self.events = []
        self.forbidden = []
        self.max_calls = max_calls
        self.hook = hook
        self.closed = False
        self.name = "traced"
        self.mode = "rb"
        self.asked_end = start  # Highest position asked for.

    def _event(self, op, asked):
        if self.hook is not None:
            self.hook(self, op)
        if self.max_calls is not None and len(self.events) >= self.max_calls:
            raise Violation("reader made more than %d reads of a %d byte stream" % (self.max_calls, len(self._data)))
        if asked is None or asked < 0:
            asked = len(self._data) - self.pos
            self.events.append((op + "-all", self.pos, None, asked))
            self.asked_end = 1 << 62
            return asked
        given = max(0, min(asked, len(self._data) - self.pos))
        self.events.append((op, self.pos, asked, given))
        self.asked_end = max(self.asked_end, self.pos + asked)
        return given

    def read(self, size=-1):
        n = self._event("read", size)
        out = bytes(self._data[self.pos:self.pos + n])
        self.pos += n
        return out

    read1 = read

    def readinto(self, target):
        view = memoryview(target).cast("B")
        n = self._event("readinto", len(view))
        view[:n] = self._data[self.pos:self.pos + n]
        self.pos += n
        return n

    readinto1 = readinto

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return False

    def isatty(self):
        return False

    def tell(self):
        return self.pos

    def _forbid(self, what):
        self.forbidden.append(what)

    def close(self):
        self._forbid("close")
        self.closed = True

    def __enter__(self):
        self._forbid("__enter__")
        return self

    def __exit__(self, *_):
        self._forbid("__exit__")

    def seek(self, offset, whence=0):
        self._forbid("seek")
        self.pos = offset if whence == 0 else self.pos + offset if whence == 1 else len(self._data) + offset
        return self.pos

    def write(self, _data):
        self._forbid("write")
        return 0

    def truncate(self, _size=None):
        self._forbid("truncate")
        return 0

    def detach(self):
        self._forbid("detach")

    def flush(self):
        pass


class EndlessStream(TracedStream):
    """A prefix, then a block of bytes repeated forever."""

    def __init__(self, prefix, block, max_calls=None):
        super().__init__(b"", max_calls=max_calls)
        self.prefix, self.block = prefix, block
        self.calls = 0

    def read(self, size=-1):
        self.calls += 1
        if self.max_calls is not None and self.calls > self.max_calls:
            raise Violation("reader made more than %d reads of an endless stream" % self.max_calls)
        if size is None or size < 0:
            raise Violation("reader asked for all of an endless stream")
        out = bytearray()
        while len(out) < size:
            if self.pos < len(self.prefix):
                piece = self.prefix[self.pos:self.pos + size - len(out)]
            else:
                at = (self.pos - len(self.prefix)) % len(self.block)
                piece = self.block[at:at + size - len(out)]
            out += piece
            self.pos += len(piece)
        self.asked_end = self.pos
        return bytes(out)

    def readinto(self, target):
        view = memoryview(target).cast("B")
        view[:] = self.read(len(view))
        return len(view)


class StepBudget:
    """Counts executed lines of the package and stops it when there are more than allowed (sys.monitoring)."""

    TOOL = 3

    def __init__(self, limit):
        self.limit = limit
        self.steps = 0
        self.exceeded = False

    def _line(self, code, line):
        if not code.co_filename.startswith(PACKAGE):
            return sys.monitoring.DISABLE
        self.steps += 1
        if self.steps > self.limit:
            self.exceeded = True
            raise StepsExceeded("more than %d lines executed, at %s:%d" % (self.limit, os.path.basename(code.co_filename), line))
        return None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vf-steps")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.register_callback(self.TOOL, mon.events.JUMP, self._jump)
        mon.set_events(self.TOOL, mon.events.LINE | mon.events.JUMP)
        return self

    def _jump(self, code, _src, _dst):
        # A comprehension or a one-line loop stays on one line.
        return self._line(code, 0)

    def __exit__(self, *_):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.register_callback(self.TOOL, mon.events.JUMP, None)
        mon.free_tool_id(self.TOOL)


class StepsExceeded(BaseException):
    """Not an Exception: the code under test must not swallow it."""


def plain(a):
    """An argument of an audit event as something to keep."""
    if a is None or isinstance(a, (str, int)):
        return a
    if isinstance(a, (bytes, os.PathLike)):
        return os.fsdecode(a)
    return "code:" + a.co_filename if hasattr(a, "co_filename") else repr(type(a))


class AuditMonitor:
    """Records the interpreter's audit events while it is on. The hook cannot be removed, so there is one per process."""

    _instance = None

    def __new__(cls):
        if cls._instance is None:
            cls._instance = super().__new__(cls)
            cls._instance.on = False
            cls._instance.events = []
            cls._instance.total = 0
            sys.addaudithook(cls._instance._hook)
        return cls._instance

    def _hook(self, event, args):
        if self.on:
            self.total += 1
            if event.startswith(("object.", "sys._getframe", "gc.", "cpython.", "builtins.id", "sys.set", "sys.unraisable",
                                 "ctypes.addressof", "ctypes.cdata", "code.__new__", "marshal.")):
                return
            self.events.append([event] + [plain(a) for a in args])

    def __enter__(self):
        self.events = []
        self.total = 0
        self.on = True
        return self

    def __exit__(self, *_):
        self.on = False


class Scheduler:
    """Runs functions in threads of which exactly one moves at a time, switching at lines (or opcodes) of the package.

    Every run is one deterministic interleaving, decided by the random source; trace is the sequence of choices.
    """

    def __init__(self, rng, switch=0.3, opcodes=False):
        self.rng, self.switch, self.opcodes = rng, switch, opcodes
        self.cond = threading.Condition()
        self.current = None
        self.alive = []
        self.trace = []
        self.points = 0
        self.stopped = False

    def _pause(self, me):
        self.points += 1
        if self.rng.random() >= self.switch or len(self.alive) < 2:
            return
        with self.cond:
            self.current = self.rng.choice(self.alive)
            self.trace.append(self.current)
            self.cond.notify_all()
            while self.current != me and not self.stopped:
                self.cond.wait(60)

    def _tracer(self, me):
        opcodes = self.opcodes

        def local(frame, event, _arg):
            if event in ("line", "opcode"):
                self._pause(me)
            return local

        def top(frame, _event, _arg):
            if not frame.f_code.co_filename.startswith(PACKAGE):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return top

    def run(self, functions):
        """Results, or the exceptions they ended with."""
        results = [None] * len(functions)

        def body(i):
            with self.cond:
                while self.current != i and not self.stopped:
                    self.cond.wait(60)
            sys.settrace(self._tracer(i))
            try:
                results[i] = ("ok", functions[i]())
            except BaseException as e:  # pylint: disable=broad-except
                results[i] = ("error", e)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.alive.remove(i)
                    if self.alive:
                        self.current = self.rng.choice(self.alive)
                    self.cond.notify_all()

        self.alive = list(range(len(functions)))
        self.current = self.rng.choice(self.alive)
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(functions))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(200)
        if any(t.is_alive() for t in threads):
            self.stopped = True
            with self.cond:
                self.cond.notify_all()
            return None
        return results


# Opened for a moment by the C library's allocator, for example when a thread that just ended gives its memory back.
TRANSIENT = {"/proc/sys/vm/overcommit_memory", "/sys/devices/system/cpu/online", "/proc/meminfo", "/proc/stat"}


def open_fds():
    """{fd: target} of this process."""
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if target not in TRANSIENT:
            out[int(fd)] = target
    return out


def live_ctypes():
    """Number of ctypes objects the collector knows."""
    gc.collect()
    return sum(1 for o in gc.get_objects() if isinstance(o, (ctypes.Structure, ctypes.Array)))


# Of the standard library: what the package uses, and other programs share.
SHARED_MODULES = ("json", "json.encoder", "json.decoder", "json.scanner", "gzip", "zlib", "argparse", "io", "codecs", "struct", "ctypes",
                  "builtins", "string", "collections", "contextlib", "posixpath", "os", "logging", "warnings", "datetime", "functools")
CHANGING = {"_pointer_type_cache", "_c_functype_cache", "_cache", "environ", "environb", "_", "__warningregistry__", "_abc_impl", "__slotnames__",
            "__annotations__", "__doc__", "__abstractmethods__", "_handlers", "_handlerList", "_lock", "_filters_version", "_startTime",
            "onceregistry", "__debug__"}


def _shallow(value):
    if isinstance(value, dict):
        return [(k, v) for k, v in value.items()]
    if isinstance(value, (list, set)):
        return list(value)
    return None


def shared_tables():
    """{place: (object, its content)} of the tables, classes and defaults of the modules that everyone uses."""
    import sys
    import types
    out = {}
    for name in SHARED_MODULES:
        module = sys.modules.get(name)
        for key, value in list(vars(module).items()) if module else ():
            if key in CHANGING or isinstance(value, types.ModuleType):
                continue
            out[name + "." + key] = (value, _shallow(value))
            home = value if isinstance(value, type) else type(value)
            if home.__module__ == name and isinstance(getattr(value, "__dict__", None), (dict, types.MappingProxyType)):
                for k, v in list(vars(value).items()):
                    if k not in CHANGING:
                        out["%s.%s.%s" % (name, key, k)] = (v, _shallow(v))
            defaults = getattr(value, "__defaults__", None), getattr(value, "__kwdefaults__", None)
            if isinstance(value, types.FunctionType):
                out["%s.%s()" % (name, key)] = (value.__code__, list(defaults))
    return out


def tables_changed(before):
    """Places whose object or content is another one than in the earlier picture."""
    now, out = shared_tables(), []
    for place in set(before) | set(now):
        a, b = before.get(place), now.get(place)
        if a is None or b is None:
            out.append(place)
            continue
        same = a[0] is b[0] or (type(a[0]) is type(b[0]) and isinstance(a[0], (int, float, str, bytes, tuple, types_of_methods)) and a[0] == b[0])
        if not same or (a[1] is None) != (b[1] is None) or (a[1] is not None and (
                len(a[1]) != len(b[1]) or any(x is not y and x != y for x, y in zip(a[1], b[1])))):
            out.append(place)
    return sorted(out)


types_of_methods = type(len)
