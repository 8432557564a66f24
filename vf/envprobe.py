"""Reads, converts and renders logs in a process of its own, under the interpreter flags, variables and states it is given.

usage: envprobe.py SPEC OUT   (SPEC: {"repo", "logs": [[path, header given, rows]], "states": [...], "first": module})
Writes what it observed as JSON; the caller compares it with the model.
"""
import json
import os
import sys

HERE = os.path.abspath(__file__)
KEEP = []


class Environ:
    """The environment, except that code of the package finds every variable it asks for."""

    def __init__(self, real, package):
        self._real, self._package = real, package

    def _asked(self):
        frame = sys._getframe(2)
        while frame is not None and (frame.f_code.co_filename == HERE or frame.f_code.co_filename.startswith("<frozen")
                                     or os.path.basename(frame.f_code.co_filename) in ("os.py", "_collections_abc.py")):
            frame = frame.f_back
        return frame is not None and frame.f_code.co_filename.startswith(self._package)

    def __getitem__(self, key):
        if key not in self._real and self._asked():
            return "1"
        return self._real[key]

    def get(self, key, default=None):
        if key not in self._real and self._asked():
            return "1"
        return self._real.get(key, default)

    def __contains__(self, key):
        return key in self._real or self._asked()

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __iter__(self):
        return iter(self._real)

    def __len__(self):
        return len(self._real)


NAMES = ("numpy pandas scipy matplotlib matplotlib.pyplot IPython ipykernel pytest _pytest nose hypothesis coverage gevent eventlet greenlet trio "
         "django flask celery twisted tornado uvloop ujson orjson simplejson rapidjson psutil pydevd debugpy sentry_sdk google.colab torch tensorflow "
         "colorama rich tqdm click isal zlib_ng zstandard lz4 cffi pyximport sitecustomize usercustomize idlelib tkinter readline rlcompleter "
         "site_helper mypy setproctitle setuptools atop atopparser").split()


class Fake:
    """Whatever is asked of a library that happens to be installed."""

    def __init__(self, name=""):
        self._name = name

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Fake(name)

    def __call__(self, *_args, **_kwargs):
        return Fake("called")

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __str__(self):
        return "[]"


class Libraries:
    """Every library that code of the package asks for is installed."""

    def __init__(self, package):
        self._package = package

    def find_spec(self, name, _path=None, _target=None):
        import importlib.machinery
        if name.partition(".")[0] in sys.stdlib_module_names or name.startswith("atoparser"):
            return None
        frame = sys._getframe(1)
        while frame is not None and (frame.f_code.co_filename.startswith("<frozen") or "importlib" in frame.f_code.co_filename):
            frame = frame.f_back
        if frame is None or not frame.f_code.co_filename.startswith(self._package):
            return None
        return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        import types
        module = types.ModuleType(spec.name)
        module.__getattr__ = Fake().__getattr__
        return module

    def exec_module(self, _module):
        pass


def set_clock(clock):
    """All clocks of the interpreter."""
    import datetime
    import time
    gm, loc = time.gmtime, time.localtime
    real_date = datetime.datetime

    class Date(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return real_date.fromtimestamp(clock(), tz)

        @classmethod
        def utcnow(cls):
            return real_date.fromtimestamp(clock(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    datetime.datetime = Date
    time.gmtime, time.localtime = lambda t=None: gm(clock() if t is None else t), lambda t=None: loc(clock() if t is None else t)
    for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        if name == "time" or clock.moving:
            setattr(time, name, lambda: clock())
            setattr(time, name + "_ns", lambda: int(clock() * 10 ** 9))


class Clock:
    def __init__(self, now, step=0):
        self.now, self.moving = now, step

    def __call__(self):
        self.now += self.moving
        return float(self.now)


def apply_host(state):
    """Another host, as far as the interpreter tells."""
    import resource
    import shutil
    import types
    if state == "host-busy":
        os.getloadavg = lambda: (1e6, 1e6, 1e6)
        os.statvfs = lambda _path: os.statvfs_result((4096, 4096, 1, 0, 0, 1, 0, 0, 0, 255))
        shutil.disk_usage = lambda _path: (1, 1, 0)
    elif state == "host-idle":
        os.getloadavg = lambda: (0.0, 0.0, 0.0)
    elif state == "host-small":
        real, few = os.sysconf, {"PHYS_PAGES": 16, "AVPHYS_PAGES": 1, "NPROCESSORS_ONLN": 1, "NPROCESSORS_CONF": 1, "OPEN_MAX": 16, "CLK_TCK": 1000,
                                 "PAGE_SIZE": 65536, "PAGESIZE": 65536, "ARG_MAX": 100, "IOV_MAX": 1, "CHILD_MAX": 1}
        codes = {os.sysconf_names["SC_" + n]: v for n, v in few.items() if "SC_" + n in os.sysconf_names}
        os.sysconf = lambda name: codes[os.sysconf_names.get(name, name)] if os.sysconf_names.get(name, name) in codes else real(name)
        resource.getpagesize = lambda: 65536
    elif state == "host-other":
        import platform
        import socket
        sys.platform = "darwin"
        other = os.uname_result(("Darwin", "elsewhere", "23.1.0", "Darwin Kernel", "arm64"))
        os.uname = lambda: other
        socket.gethostname = lambda: "elsewhere"
        for name, value in (("system", "Darwin"), ("node", "elsewhere"), ("release", "23.1.0"), ("machine", "arm64"), ("processor", "arm")):
            setattr(platform, name, lambda value=value: value)
        os.getpid, os.getppid = lambda: 1, lambda: 0
        os.getuid = os.geteuid = os.getgid = os.getegid = lambda: 1000
        os.getlogin = lambda: "nobody"
    elif state == "interpreter":
        sys.implementation = types.SimpleNamespace(**dict(vars(sys.implementation), name="pypy"))
        sys.version_info = (3, 99, 0, "alpha", 0)
        sys.frozen, sys._MEIPASS, sys.executable = True, "/opt/app", "/opt/app/run"
    else:
        raise ValueError(state)


def apply(state, spec):
    """Put the process into a state."""
    if state == "gc-off":
        import gc
        gc.disable()
    elif state == "gc-eager":
        import gc
        gc.set_threshold(1, 1, 1)
    elif state == "gc-freeze":
        import gc
        gc.freeze()
    elif state == "recursion":
        sys.setrecursionlimit(250)
    elif state == "switch":
        sys.setswitchinterval(1e-6)
    elif state == "trace":
        def tracer(_frame, _event, _arg):
            return tracer
        sys.settrace(tracer)
    elif state == "profile":
        sys.setprofile(lambda *_: None)
    elif state == "audit":
        sys.addaudithook(lambda *_: None)
    elif state == "no-streams":
        sys.stdin = sys.stdout = sys.stderr = None
    elif state == "closed-fds":
        for fd in (0, 1, 2):
            os.close(fd)
    elif state == "few-fds":
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (20, 20))
    elif state.startswith("limit-"):
        import resource
        with open("/proc/self/statm", encoding="ascii") as f:
            pages, _resident, _shared, _text, _lib, data, _dirty = map(int, f.read().split())
        which, soft = {"memory": (resource.RLIMIT_AS, pages * resource.getpagesize() + (192 << 20)),
                       "data": (resource.RLIMIT_DATA, data * resource.getpagesize() + (192 << 20)), "stack": (resource.RLIMIT_STACK, 2 << 20),
                       "cpu": (resource.RLIMIT_CPU, 3000), "file": (resource.RLIMIT_FSIZE, 8 << 20), "locked": (resource.RLIMIT_MEMLOCK, 0),
                       "core": (resource.RLIMIT_CORE, 0)}[state[6:]]
        hard = resource.getrlimit(which)[1]
        resource.setrlimit(which, (soft if hard == resource.RLIM_INFINITY else min(soft, hard), hard))
    elif state.startswith("clock-"):
        set_clock({"clock-0": Clock(0), "clock-far": Clock(4e9), "clock-fast": Clock(1.7e9, 100), "clock-back": Clock(1.7e9, -100),
                   "clock-leap": Clock(1709164800), "clock-midnight": Clock(1704067199)}[state])
    elif state.startswith("host-") or state == "interpreter":
        apply_host(state)
    elif state == "affinity-1":
        os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
    elif state == "modules":
        import types
        for name in NAMES:
            sys.modules.setdefault(name, types.ModuleType(name))
    elif state == "libraries":
        sys.meta_path.insert(0, Libraries(os.path.join(spec["repo"], "atoparser") + os.sep))
    elif state.startswith("cpus-"):
        n = {"none": None, "1": 1, "many": 256}[state[5:]]
        os.cpu_count = lambda: n
    elif state == "argv":
        sys.argv = ["atoparser", "-P", "CPU", "--tstats", "--cstats", "-p", "/nonexistent"]
    elif state == "no-argv":
        sys.argv = []
    elif state == "environ-empty":
        os.environ.clear()
    elif state == "environ-all":
        os.environ = Environ(os.environ, os.path.join(spec["repo"], "atoparser") + os.sep)
    elif state == "locale":
        import locale
        locale.setlocale(locale.LC_ALL, "C.utf8")
    elif state == "int-digits":
        sys.set_int_max_str_digits(640)
    elif state == "decimal":
        import decimal
        decimal.getcontext().prec = 1
    elif state == "warnings":
        import warnings
        warnings.simplefilter("error")
    elif state == "random":
        import random
        random.seed(0)
    elif state == "umask":
        os.umask(0o777)
    elif state == "directory":
        os.chdir("/proc/self")
    elif state == "tracemalloc":
        import tracemalloc
        tracemalloc.start(5)
    elif state == "alarms":
        import signal
        signal.signal(signal.SIGALRM, lambda *_: KEEP.append(0) if len(KEEP) < 1000 else None)
        signal.setitimer(signal.ITIMER_REAL, 0.002, 0.002)
    elif state == "busy-threads":
        import threading

        def churn():
            while not KEEP:
                sum(range(500))
        for _ in range(3):
            threading.Thread(target=churn, daemon=True).start()
    elif state == "float-style":
        import json.encoder
        json.encoder.FLOAT_REPR = str
    elif state == "prompt":
        sys.ps1, sys.ps2 = ">>> ", "... "
    elif state == "session":
        try:
            os.setsid()
        except OSError:
            pass
    elif state == "names":
        import multiprocessing
        import threading
        multiprocessing.current_process().name = "atop"
        threading.current_thread().name = "worker-1"
        sys.modules["__main__"].__file__ = "/usr/share/atop/run.py"
    elif state == "low-priority":
        os.nice(5)
    elif state == "byte-warnings":
        import warnings
        warnings.simplefilter("error", BytesWarning)
    else:
        raise ValueError(state)


def raw(obj):
    return bytes(memoryview(obj)).hex()


def digest(text):
    import hashlib
    return hashlib.sha256(text.encode("utf-8", "surrogatepass")).hexdigest()[:24]


def outcome(e, zlib):
    return "zlib.error" if isinstance(e, zlib.error) else "ValueError" if isinstance(e, ValueError) else repr(e)


def observe(path, tolerant, rows):
    import zlib

    import atoparser
    out = {"samples": [], "end": "end"}
    try:
        with open(path, "rb") as f:
            header = atoparser.get_header(f)
            out["version"] = header.semantic_version
            out["header"] = digest(raw(header) + json.dumps(atoparser.struct_to_dict(header)))
            for record, sstat, tstats, cgroups in atoparser.generate_statistics(f, header, raise_on_truncation=not tolerant):
                one = {"record": digest(raw(record) + json.dumps(atoparser.struct_to_dict(record))),
                       "sstat": digest(raw(sstat)), "sstat dictionary": digest(json.dumps(atoparser.struct_to_dict(sstat))),
                       "tasks": [digest(raw(t) + json.dumps(atoparser.struct_to_dict(t))) for t in tstats],
                       "cgroups": [digest(raw(c.cstat) + repr(list(c.proclist)) + json.dumps(atoparser.struct_to_dict(c)))
                                   for c in cgroups]}
                if rows:
                    from atoparser.parsers import atop_1_26
                    for fmt in rows:
                        found = list(getattr(atop_1_26, "parse_" + fmt)(header, record, sstat, tstats))
                        one["rows " + fmt] = digest(json.dumps(found, sort_keys=True))
                out["samples"].append(one)
    except Exception as e:  # pylint: disable=broad-except
        out["end"] = outcome(e, zlib)
    return out


def work(spec):
    return [observe(path, tolerant, rows) for path, tolerant, rows in spec["logs"]]


def main():
    spec_path, out_path = sys.argv[1:3]
    with open(spec_path, encoding="utf-8") as f:
        spec = json.load(f)
    sys.path.insert(0, spec["repo"])
    out_fd = os.open(out_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(out_fd, 19)  # Below the limit of "few-fds", beyond what is opened first.
    os.close(out_fd)
    for state in spec["states"]:
        if not state.startswith("in-"):
            apply(state, spec)
    if spec.get("first"):
        __import__(spec["first"])
    import atoparser
    where = [s for s in spec["states"] if s.startswith("in-")]
    if "in-thread" in where:
        import threading
        threading.stack_size(256 * 1024)
        box = []
        t = threading.Thread(target=lambda: box.append(work(spec)))
        t.start()
        t.join()
        result = box[0] if box else "the thread failed"
    elif "in-fork" in where:
        early = work(spec)
        read, write = os.pipe()
        pid = os.fork()
        if not pid:
            with os.fdopen(write, "w", encoding="utf-8") as f:
                json.dump(work(spec), f)
            os._exit(0)
        os.close(write)
        with os.fdopen(read, encoding="utf-8") as f:
            result = json.loads(f.read() or '"the child failed"')
        os.waitpid(pid, 0)
        if result != early or work(spec) != early:
            result = "parent and child differ"
    elif "in-coroutine" in where:
        import asyncio

        async def coroutine():
            await asyncio.sleep(0)
            return work(spec)
        result = asyncio.run(coroutine())
    elif "in-generator" in where:
        result = next(x for x in (work(spec) for _ in range(1)))
    elif "in-repeat" in where:
        result = work(spec)
        for _ in range(3):
            if work(spec) != result:
                result = "reading again gives something else"
                break
    else:
        result = work(spec)
    KEEP.append(1)
    if "alarms" in spec["states"]:  # The interpreter drops the handler when it ends.
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
    payload = {"result": result, "file": atoparser.__file__}
    with os.fdopen(19, "w", encoding="utf-8") as f:
        json.dump(payload, f)


if __name__ == "__main__":
    main()
