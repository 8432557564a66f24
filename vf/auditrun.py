"""Runs the command under an audit hook that is in place before anything of the package is loaded.

usage: auditrun.py REPORT REPO ARG...   (REPORT receives the events as JSON; exit status as the command's)
"""
import json
import os
import sys

EVENTS = []
ON = [True]
SKIP = ("object.", "sys._getframe", "gc.", "cpython.", "builtins.id", "sys.set", "sys.unraisable", "sys.excepthook",
        "ctypes.addressof", "ctypes.cdata", "code.__new__", "marshal.", "builtins.input")


def hook(event, args):
    if ON[0] and not event.startswith(SKIP):
        EVENTS.append([event] + [a if isinstance(a, (str, int)) else os.fsdecode(a) if isinstance(a, bytes) else
                                 "code:" + a.co_filename if hasattr(a, "co_filename") else repr(type(a)) if a is not None else None
                                 for a in args])


def settings():
    """Settings of the process that reading a log has no business with."""
    import atexit
    import faulthandler
    import gc
    import resource
    import signal
    import threading
    import warnings
    return {"hooks of the interpreter": (atexit._ncallbacks(), faulthandler.is_enabled(), list(gc.callbacks), sys.meta_path[:], sys.path_hooks[:], sys.breakpointhook,
                                         warnings.showwarning, sys.getdlopenflags(), sys.get_asyncgen_hooks(), threading.stack_size(), sys.argv[:],
                                         sys.dont_write_bytecode, os.getpgrp(), list(signal.pthread_sigmask(signal.SIG_BLOCK, [])), os.sched_getaffinity(0)),
            "recursion limit": sys.getrecursionlimit(), "collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()),
            "signal handlers": [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD, signal.SIGHUP)],
            "switch interval": sys.getswitchinterval(), "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook),
            "threads": threading.active_count(), "limits": [resource.getrlimit(n) for n in range(10)], "priority": os.getpriority(os.PRIO_PROCESS, 0),
            "trace functions": (sys.gettrace(), sys.getprofile()), "numbers": sys.get_int_max_str_digits(),
            "configuration of the streams": [[getattr(f, n, None) for n in ("encoding", "errors", "line_buffering", "write_through", "newlines", "closed")]
                                             for f in (sys.stdin, sys.stdout, sys.stderr)],
            "streams": (sys.stdin is sys.__stdin__, sys.stdout is sys.__stdout__, sys.stderr is sys.__stderr__)}


def main():
    report, repo = sys.argv[1:3]
    sys.path[0] = repo
    sys.argv = ["atoparser"] + sys.argv[3:]
    fds = set(os.listdir("/proc/self/fd"))
    import builtins
    import concurrent.futures.thread  # noqa: F401  (Modules that register something when they are loaded, which the package may do.)
    import logging  # noqa: F401
    import multiprocessing.util  # noqa: F401
    import warnings
    warned = []
    warnings.simplefilter("always", ResourceWarning)
    warnings.showwarning = lambda message, category, *_: warned.append("%s: %s" % (category.__name__, message))
    before = set(sys.modules)
    environ = dict(os.environ)
    state = (os.getcwd(), os.umask(0o22), list(sys.path), builtins.open)
    os.umask(state[1])
    more = settings()
    sys.addaudithook(hook)
    code, error = 0, None
    try:
        from atoparser import reader
        sys.exit(reader.main())
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException as e:  # pylint: disable=broad-except
        code, error = 1, "%s: %s" % (type(e).__name__, e)
    ON[0] = False
    changed = [name for name, a, b in (("cwd", os.getcwd(), state[0]), ("sys.path", list(sys.path), state[2]),
                                       ("environ", dict(os.environ), environ), ("open", builtins.open, state[3])) if a != b]
    now = settings()
    changed += [name for name in more if now[name] != more[name]]
    umask = os.umask(0o22)
    if umask != state[1]:
        changed.append("umask")
    modules = {name: getattr(m, "__file__", None) for name, m in list(sys.modules.items()) if name not in before}
    left = sorted(set(os.listdir("/proc/self/fd")) - fds)
    with open(report, "w") as f:
        json.dump({"events": EVENTS, "modules": modules, "warned": warned, "changed": changed, "error": error,
                   "fds": left}, f)
    # (The listing itself holds one descriptor, in both listings.)
    sys.stdout.flush()
    sys.exit(code)


main()
