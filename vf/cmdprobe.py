"""Runs the command in a process that was put into some state first.

usage: cmdprobe.py SPEC ARGUMENT...   (SPEC: JSON text {"repo", "states": [...], "warm": path})
"""
import io
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import envprobe  # noqa: E402  pylint: disable=wrong-import-position


def one_free_descriptor():
    import resource
    fd = os.open("/dev/null", os.O_RDONLY)
    os.close(fd)
    resource.setrlimit(resource.RLIMIT_NOFILE, (fd + 1, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))


def deep(function, depth):
    return function() if not depth else deep(function, depth - 1)


def command():
    from atoparser import reader
    try:
        sys.exit(reader.main())
    except SystemExit as e:
        return e.code


def main():
    spec, args = json.loads(sys.argv[1]), sys.argv[2:]
    sys.path[0] = spec["repo"]
    states = spec["states"]
    sys.argv = ["atoparser"] + args
    late = [s for s in states if s in ("one-fd", "deep-stack", "gone-directory") or s.startswith(("in-", "name-"))]
    for state in states:
        if state not in late:
            envprobe.apply(state, spec)
    for state in states:
        if state.startswith("name-"):  # How the command was called.
            sys.argv[0] = state[5:] if state != "name-empty" else ""
    run = command
    if "one-fd" in late:
        # Whatever is loaded on first use is loaded before.
        import contextlib

        from atoparser import reader
        with contextlib.redirect_stdout(io.StringIO()):
            reader.parse_file(spec["warm"])
            reader.parse_file(spec["warm"] + ".gz")
        one_free_descriptor()
    if "deep-stack" in late:
        def run():
            return deep(command, sys.getrecursionlimit() - 150)
    if "in-thread" in late:
        import threading
        box = []
        thread = threading.Thread(target=lambda: box.append(run()))
        thread.start()
        thread.join()
        code = box[0] if box else 70
    elif "in-fork" in late:
        pid = os.fork()
        if not pid:
            code = 70
            try:
                code = run()
                sys.stdout.flush()
            finally:
                os._exit(code or 0)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    elif "in-coroutine" in late:
        import asyncio

        async def coroutine():
            await asyncio.sleep(0)
            return run()
        code = asyncio.run(coroutine())
    else:
        code = run()
    if "alarms" in states:
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
    envprobe.KEEP.append(1)
    sys.exit(code)


if __name__ == "__main__":
    main()
