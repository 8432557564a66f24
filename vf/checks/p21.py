"""P21: the process around the reader."""
import gzip
import io
import json
import os
import subprocess
import sys
import threading
import time
import traceback

from vf import envprobe_model, gen, gen126, lib, model, rotate, rows
from vf.checks import p09, p11
from vf.harness import PACKAGE, REPO, ROOT, Inconclusive, Violation

RULE = ("Logs of every version (whole, cut, corrupted, refused and malformed ones) are read, converted and rendered by a process "
        "started with one or several of: interpreter switches, variables (locale, encoding, time zone, hash seed, allocators that "
        "poison freed memory, none at all, every variable the package asks for), process states (collector, recursion limit, "
        "tracing, closed or few descriptors, clock, cpu count, argv, alarms, busy threads, forked child, other thread, coroutine) "
        "and each module of the package imported first; the command is run the same ways, also into files, pipes and terminals. "
        "What the process observed is compared with the model, and the text of the command also with that in plain surroundings. Distinct by (surroundings, log, ending).")
REQUIRE = {"surroundings": 60, "logs_read": 600, "samples_compared": 900, "refusals_seen": 150, "decompression_errors_seen": 100,
           "commands": 90, "texts_compared": 90, "command_states": 50, "seeds": 20, "rewritten_looks": 90, "import_orders": 3, "host_logs": 33, "own_processes": 3, "closed_streams": 15}
SWITCHES = [["-O"], ["-OO"], ["-bb"], ["-W", "error"], ["-X", "dev"], ["-X", "utf8=0"], ["-X", "utf8=1"], ["-I"], ["-S", "-s"],
            ["-u"], ["-X", "no_debug_ranges"], ["-X", "tracemalloc=3"], ["-X", "int_max_str_digits=640"], ["-X", "warn_default_encoding"],
            ["-B", "-X", "frozen_modules=off"], ["-P"], ["-d"], ["-v"]]
VARIABLES = [{"LC_ALL": "C"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"LANG": "tr_TR.UTF-8"},
             {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "latin-1"}, {"PYTHONIOENCODING": "utf-16"}, {"PYTHONIOENCODING": "cp037"},
             {"PYTHONIOENCODING": "koi8-r"}, {"PYTHONIOENCODING": "shift_jis"}, {"PYTHONIOENCODING": "cp1252:replace"}, {"PYTHONIOENCODING": "utf-8:surrogateescape"},
             {"TZ": "Pacific/Kiritimati"}, {"TZ": "XYZ+12"}, {"PYTHONHASHSEED": "0"}, {"PYTHONHASHSEED": "4242"}, {"PYTHONMALLOC": "debug"},
             {"PYTHONMALLOC": "malloc", "MALLOC_PERTURB_": "165"}, {"PYTHONMALLOC": "malloc", "MALLOC_PERTURB_": "85", "MALLOC_ARENA_MAX": "1"},
             {"COLUMNS": "10", "LINES": "1"}, {"TERM": "dumb", "NO_COLOR": "1"}, {"FORCE_COLOR": "1", "CLICOLOR_FORCE": "1"},
             {"DEBUG": "1", "VERBOSE": "1", "LOGLEVEL": "DEBUG"}, {"HOME": "/nonexistent", "TMPDIR": "/nonexistent"}, {"PYTHONOPTIMIZE": "2"},
             {"PYTHONDEVMODE": "1"}, {"PYTHONWARNINGS": "error"}, {"PYTHONSAFEPATH": "1"}]
STATES = ["gc-off", "gc-eager", "gc-freeze", "recursion", "switch", "trace", "profile", "audit", "no-streams", "closed-fds", "few-fds",
          "clock-0", "clock-far", "cpus-none", "cpus-1", "cpus-many", "argv", "no-argv", "environ-empty", "environ-all", "locale",
          "int-digits", "decimal", "warnings", "byte-warnings", "random", "umask", "directory", "tracemalloc", "alarms", "busy-threads",
          "low-priority", "prompt", "session", "names", "limit-memory", "limit-data", "limit-stack", "limit-cpu", "limit-file", "limit-locked",
          "limit-core", "clock-fast", "clock-back", "clock-leap", "clock-midnight", "host-busy", "host-idle", "host-small", "host-other", "interpreter",
          "affinity-1", "modules", "libraries", "in-thread", "in-fork", "in-coroutine", "in-repeat"]
COMMAND_STATES = ["gc-off", "gc-eager", "gc-freeze", "recursion", "switch", "trace", "profile", "audit", "few-fds", "clock-0", "clock-far",
                  "cpus-none", "cpus-1", "environ-empty", "environ-all", "locale", "decimal", "warnings", "byte-warnings", "umask", "directory",
                  "tracemalloc", "alarms", "busy-threads", "in-thread", "in-fork", "in-coroutine", "one-fd", "deep-stack", "gone-directory",
                  "prompt", "session", "names", "name-empty", "name-reader.py", "name-atop", "name-/usr/bin/atopcat", "name--c",
                  "name-/opt/atoparser.pyz", "name-C:\\Tools\\atoparser.exe", "name-__main__.py", "name-/usr/lib/x/__main__.py", "name-/usr/sbin/atoparser",
                  "name-atoparser3.12", "name-gzip", "name-zatoparser", "limit-memory", "limit-data", "limit-stack", "limit-cpu", "limit-file", "limit-core",
                  "low-priority", "clock-fast", "clock-back", "clock-leap", "clock-midnight", "host-busy", "host-idle", "host-small", "host-other", "interpreter",
                  "affinity-1", "modules", "libraries"]
CASE_LIMIT = {"quick": 600, "thorough": 1800}


def cases(tier):
    q = tier == "quick"
    out = [("switch", {"k": k}) for k in range(len(SWITCHES))]
    out += [("variable", {"k": k}) for k in range(len(VARIABLES))]
    out += [("state", {"k": k}) for k in range(len(STATES))]
    out += [("mixed", {"i": i}) for i in range(8 if q else 300)]
    out += [("imports", {"i": i}) for i in range(1 if q else 4)]
    out += [("command", {"k": k}) for k in range(len(COMMAND_STATES))]
    out += [("seeds", {"i": i}) for i in range(2 if q else 12)]
    out += [("users", {"i": i}) for i in range(2 if q else 20)]
    out += [("rewritten", {"i": i}) for i in range(8 if q else 80)]
    out += [("host", {"i": i}) for i in range(3 if q else 40)]
    out += [("terminal", {"i": i}) for i in range(3 if q else 20)]
    return out


def damaged(rng, log):
    """[(name, bytes, samples, ending when strict, ending when tolerant)]"""
    out = []
    data, ends = log.data, [480] + log.ends
    whole = len(log.samples)
    if whole:
        k = rng.randrange(whole)
        offs = log.samples[k].offsets  # Record, then its blocks, then the end.
        cut = rng.randint(offs[1] + 1, offs[2] - 1) if offs[2] - offs[1] > 2 else offs[2] - 1
        out.append(("cut", data[:cut], k, "zlib.error", "end"))
        out.append(("cut between", data[:ends[k]], k, "end", "end"))
        bad = bytearray(data)
        bad[offs[1]] ^= 0xFF  # No zlib header any more.
        out.append(("corrupt", bytes(bad), k, "zlib.error", "end"))
        s = log.samples[k]
        part = [model.Sample(x.record, x.sstat, x.tstats, x.cgroups, x.how) for x in log.samples]
        for new, old in zip(part, log.samples):
            new.omit_cgroups, new.omit_pids, new.loose = old.omit_cgroups, old.omit_pids, dict(old.loose)
        part[k].sstat = s.sstat[:rng.randrange(len(s.sstat))]
        out.append(("short sstat", model.Log(log.version, log.header, part).data, k, "ValueError", "ValueError"))
    return out


def refused(rng, log):
    lay, out = log.layout, []
    head = bytearray(log.data)
    field = rng.choice(sorted(gen.lengths(lay)))
    lay.put(head, "Header", (field,), lay.get(log.header, "Header", (field,)) + rng.choice([1, -1, 8]))
    out.append(("wrong " + field, bytes(head)))
    head = bytearray(log.data)
    lay.put(head, "Header", ("magic",), model.MAGIC ^ (1 << rng.randrange(32)))
    out.append(("wrong magic", bytes(head)))
    out.append(("short header", log.data[:rng.randint(0, 479)]))
    return out


def workload(rng, folder):
    """[(spec entry, what must be observed, name)]"""
    out = []

    def add(name, log, data, n, end, tolerant, has_header=True):
        path = os.path.join(folder, "%d.log" % len(out))
        with open(path, "wb") as f:
            f.write(data)
        fmts = rng.sample(rows.FORMATS, 5) if log.version == "1.26" else []
        want = envprobe_model.expected(log, n, end, fmts, has_header)
        out.append(([path, tolerant, fmts], want, "%s %s" % (log.version, name)))
    many = rng.choice(model.VERSIONS)
    for v in model.VERSIONS:
        if v == "1.26":
            log = gen126.log(rng, 2, tasks=3)
        else:
            log = gen.log(rng, v, rng.choice([1, 2]), rng.choice([0, 1, 3]), 2, style="sparse")
        add("whole", log, log.data, len(log.samples), "end", rng.random() < 0.5)
        for name, data, n, strict, tolerant in damaged(rng, log):
            mode = rng.random() < 0.5
            add(name, log, data, n, tolerant if mode else strict, mode)
        if v == many:
            log = gen.tiny(rng, v, 1, 400, 20)
            add("many tasks", log, log.data, 1, "end", rng.random() < 0.5)
        for name, data in refused(rng, log):
            add(name, log, data, 0, "ValueError", rng.random() < 0.5, False)
    return out


def surroundings(base, switches, variables):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "MALLOC_"))}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=base)
    env.update(variables)
    return [sys.executable] + switches, env


def probe(ctx, folder, what, work, switches=(), variables=None, states=(), first=None):
    spec = {"repo": REPO, "logs": [w[0] for w in work], "states": list(states), "first": first}
    spec_path, out_path = os.path.join(folder, "spec.json"), os.path.join(folder, "out.json")
    with open(spec_path, "w", encoding="utf-8") as f:
        json.dump(spec, f)
    if os.path.exists(out_path):
        os.unlink(out_path)
    args, env = surroundings(REPO, list(switches), variables or {})
    r = subprocess.run(args + [os.path.join(ROOT, "vf", "envprobe.py"), spec_path, out_path], env=env, cwd="/", timeout=300,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
    text = r.stderr.decode("utf-8", "replace")
    if r.returncode < 0:
        raise Violation("%s: the interpreter died of signal %d: %s" % (what, -r.returncode, text[-1500:]))
    if r.returncode or not os.path.exists(out_path) or not os.path.getsize(out_path):
        if PACKAGE in text.rpartition("Traceback")[2]:
            raise Violation("%s: %s" % (what, text[-2000:]))
        raise Inconclusive("%s: the probe ended with %d: %s" % (what, r.returncode, text[-1500:]))
    with open(out_path, encoding="utf-8") as f:
        got = json.load(f)
    if not os.path.abspath(got["file"]).startswith(PACKAGE):
        raise Inconclusive("the probe loaded %s" % got["file"])
    got = got["result"]
    if isinstance(got, str):
        raise Violation("%s: %s" % (what, got))
    for (_entry, want, name), have in zip(work, got):
        compare("%s: %s" % (what, name), have, want)
        ctx.count("logs_read")
        ctx.count("samples_compared", len(want["samples"]))
        ctx.count({"ValueError": "refusals_seen", "zlib.error": "decompression_errors_seen"}.get(want["end"], "quiet_ends_seen"))
        ctx.count("evaluations")
        ctx.seen(what, name, want["end"])
    ctx.count("surroundings")


def compare(what, have, want):
    for key in ("version", "header", "end"):
        if have.get(key) != want.get(key):
            raise Violation("%s: %s is %r instead of %r" % (what, key, have.get(key), want.get(key)))
    if len(have["samples"]) != len(want["samples"]):
        raise Violation("%s: %d samples instead of %d" % (what, len(have["samples"]), len(want["samples"])))
    for i, (a, b) in enumerate(zip(have["samples"], want["samples"])):
        for key in b:
            if a.get(key) != b[key]:
                raise Violation("%s: %s of sample %d differ from what is stored" % (what, key, i))


FOREIGN = ["é日本語ü".encode(), "Ж€ß".encode(), "😀é".encode(), "ソ能".encode()]


def foreign(rng, log):
    """Names of every script in the parts that are always printed."""
    lay = log.layout
    head = bytearray(log.header)
    kind, off, size = lay.locate("Header", ("utsname", "nodename"))
    model.put_raw(head, kind, off, size, rng.choice(FOREIGN)[:size])
    log.header = bytes(head)
    for s in log.samples:
        for i, t in enumerate(s.tstats):
            buf = bytearray(t)
            for field in ("name", "cmdline"):
                kind, off, size = lay.locate("TStat", ("gen", field))
                model.put_raw(buf, kind, off, size, rng.choice(FOREIGN)[:size])
            s.tstats[i] = bytes(buf)
    log.build()
    return log


def command(ctx, rng, folder, what, switches, variables, terminal=False, full=None, states=(), everything=False):
    """The command in these surroundings."""
    full = rng.random() < 0.6 if full is None else full
    logs, paths = [], []
    for k in range(rng.randint(1, 3)):
        log = gen126.log(rng, 2, tasks=2) if not full and rng.random() < 0.7 else gen.log(
            rng, rng.choice(model.VERSIONS), rng.randint(1, 2), 1, 2, style="sparse")
        if rng.random() < 0.7 or "PYTHONIOENCODING" in variables:
            foreign(rng, log)
        # Where file names are ASCII to the interpreter, the name that is printed is not the one that is compared.
        odd = {"PYTHONUTF8", "PYTHONCOERCECLOCALE", "LC_ALL", "LANG"} & set(variables) or "utf8=0" in switches
        path = os.path.join(folder, rng.choice(["c%d", "x%d" if odd else "ü%d", "a b%d"]) % k)
        data = log.data
        if rng.random() < 0.3:
            path, data = path + ".gz", gzip.compress(data)
        with open(path, "wb") as f:
            f.write(data)
        logs.append(log)
        paths.append(path)
    tstats, cstats, pretty = (rng.random() < 0.5 or everything for _ in range(3))
    formats = None if full else [rng.choice(rows.CLI_FORMATS) for _ in range(rng.randint(1, 4))]
    opts = p09.options(rng, tstats, cstats, pretty)
    args = paths + opts if full else opts + ["-P"] + formats + ["--"] + paths
    args_, env = surroundings(REPO, switches, variables)
    isolated = "-I" in switches or "-P" in switches or variables.get("PYTHONSAFEPATH")
    entry = ["-c", "import sys; sys.path.insert(0, %r); from atoparser.reader import main; sys.exit(main())" % REPO]
    way = entry if isolated or rng.random() < 0.5 else ["-m", "atoparser.reader"]
    cwd = "/"
    if states:
        warm = os.path.join(folder, "warm")
        for name, data in ((warm, gen.tiny(rng, "2.7", 1).data), (warm + ".gz", gzip.compress(gen.tiny(rng, "2.7", 1).data))):
            with open(name, "wb") as f:
                f.write(data)
        way = [os.path.join(ROOT, "vf", "cmdprobe.py"), json.dumps({"repo": REPO, "states": list(states), "warm": warm})]
        if "gone-directory" in states:
            cwd = os.path.join(folder, "gone")
            os.mkdir(cwd)
    coding = variables.get("PYTHONIOENCODING", "utf-8").split(":")[0] if "-I" not in switches else "utf-8"
    if terminal:
        code, out, err = lib.on_terminal(args_ + way + args, env)
    elif rng.random() < 0.3 and not states:
        out_path = os.path.join(folder, "stdout")
        with open(out_path, "wb") as f:
            r = subprocess.run(args_ + way + args, env=env, cwd="/", timeout=300, stdin=subprocess.DEVNULL, stdout=f,
                               stderr=subprocess.PIPE, check=False)
        with open(out_path, "rb") as f:
            code, out, err = r.returncode, f.read(), r.stderr
    else:
        # The first file opened is descriptor 0, or that of the messages.
        which = rng.choice([(), (), (0,), (2,), (0, 2), (2,)]) if not states else rng.choice([(), (), (0,)])
        if "-v" in switches:  # The interpreter itself does not start when it cannot tell what it does.
            which = ()
        closed = (lambda: [os.close(fd) for fd in which]) if which else None
        ctx.count("closed_streams", bool(which))
        if "gone-directory" in states:
            closed = lambda: os.rmdir(cwd)  # noqa: E731
        r = subprocess.run(args_ + way + args, env=env, cwd=cwd, timeout=300, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, check=False, preexec_fn=closed)
        code, out, err = r.returncode, r.stdout, r.stderr
    where = "%s: command %s" % (what, args)
    if code:
        raise Violation("%s: exit status %d: %s" % (where, code, err.decode("utf-8", "replace")[-1500:]))
    try:
        text = out.decode(coding)
    except UnicodeDecodeError as e:
        raise Violation("%s: the output is not %s: %s" % (where, coding, e)) from None
    lines = text.strip().splitlines()
    if pretty == (len(lines) <= len(paths)) and "{" in text:  # (A log may be without rows of a format.)
        raise Violation("%s: %d lines of %s output for %d files" % (where, len(lines), "pretty" if pretty else "compact", len(paths)))
    if full:
        p09.judge(ctx, where, text, logs, tstats, cstats)
    else:
        p11.judge(ctx, where, text, logs, paths, formats)
    # Nor does the form differ: the same text as in plain surroundings.
    args_, env = surroundings(REPO, [], {"LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "1"})
    r = subprocess.run(args_ + entry + args, env=env, cwd="/", timeout=300, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, check=False)
    if r.returncode or r.stdout.decode("utf-8") != text:
        raise Violation("%s: exit status %d and other text in plain surroundings: %s" % (
            where, r.returncode, lib.diff_at(r.stdout, text.encode("utf-8", "surrogatepass"))))
    ctx.count("commands")
    ctx.count("texts_compared")
    ctx.seen("command", what, way[0], full, terminal)


def of_this_host(rng, log, pids):
    """The log was written here and now, and the reader is in it."""
    lay = log.layout
    here = os.uname()
    head = bytearray(log.header)
    known = {"sysname": here.sysname, "nodename": here.nodename, "release": here.release, "version": here.version, "machine": here.machine}

    def put(part, buf, path, value):
        kind, off, size = lay.locate(part, path)
        if kind == "str":
            value = value.encode()[:size - 1]
        elif kind != "ch":
            lo, hi = model.RANGES[kind]
            value = min(hi, max(lo, value))
        model.put_raw(buf, kind, off, size, value)
    for field, value in known.items():
        put("Header", head, ("utsname", field), value)
    have = {f.name for f in lay.fields[lay.top["Header"]]}
    for field, value in (("hertz", os.sysconf("SC_CLK_TCK")), ("pagesize", os.sysconf("SC_PAGE_SIZE")), ("pidwidth", 7)):
        if field in have:
            put("Header", head, (field,), value)
    log.header = bytes(head)
    uptime = int(time.clock_gettime(time.CLOCK_BOOTTIME))
    inner = {f.name for f in lay.fields[next(f.sub for f in lay.fields[lay.top["TStat"]] if f.name == "gen")]}
    for k, s in enumerate(log.samples):
        rec = bytearray(s.record)
        put("Record", rec, ("curtime",), int(time.time()) + 60 * k)
        put("Record", rec, ("interval",), 600 if k else uptime)
        s.record = rec
        for i, t in enumerate(s.tstats):
            buf = bytearray(t)
            pid, parent, name = pids[i % len(pids)]
            for field, value in (("pid", pid), ("tgid", pid), ("ppid", parent), ("name", name), ("cmdline", name + " -m atoparser.reader"), ("ruid", os.getuid()),
                                 ("euid", os.geteuid()), ("rgid", os.getgid()), ("egid", os.getegid()), ("isproc", b"\1"), ("state", b"R"),
                                 ("btime", int(time.time()) - 5)):
                if field in inner:
                    put("TStat", buf, ("gen", field), value)
            s.tstats[i] = bytes(buf)
    log.build()
    return log


def host(ctx):
    """A log of the very host, user and process that read it is like any other."""
    rng = ctx.rng
    folder = ctx.tmpdir()
    for v in model.VERSIONS:
        log = gen126.log(rng, 2, tasks=4) if v == "1.26" else gen.tiny(rng, v, 2, 4, 2)
        names = [(os.getpid(), os.getppid(), "python3"), (os.getppid(), 1, "sh"), (1, 0, "systemd"), (threading.get_native_id(), os.getpid(), "atoparser")]
        of_this_host(rng, log, names)
        path = os.path.join(folder, "atop_" + time.strftime("%Y%m%d") + v)
        with open(path, "wb") as f:
            f.write(log.data)
        out, error = lib.read_all(io.BytesIO(log.data) if rng.random() < 0.5 else open(path, "rb"))
        what = "%s log of this host and process" % v
        if error is not None or len(out) != len(log.samples):
            raise Violation("%s: %d samples, %r" % (what, len(out), error))
        for i, (got, s) in enumerate(zip(out, log.samples)):
            lib.check_sample("%s: sample %d" % (what, i), got, s)
        p09.judge(ctx, what, p09.go(ctx, what, [path, "--tstats", "--cstats"]), [log], True, True)
        if v == "1.26":
            formats = rng.sample(rows.CLI_FORMATS, 5) + ["PRC", "PRG"]
            p11.judge(ctx, what, p09.go(ctx, what, [path, "-P"] + formats), [log], [path], formats)
        # The command, whose process is in the log before it starts.
        if rng.random() < 0.4 or v == "1.26":
            args_, env = surroundings(REPO, [], {})
            formats = ["PRG", "PRC", "PRM"] if v == "1.26" and rng.random() < 0.5 else None
            more = ["-P"] + formats if formats else ["--tstats", "--cstats"]
            with subprocess.Popen(["sh", "-c", 'read go; exec "$@"', "sh"] + args_ + ["-m", "atoparser.reader", path] + more, env=env, cwd=folder,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE) as p:
                of_this_host(rng, log, [(p.pid, os.getpid(), "python3"), (p.pid, os.getpid(), "atoparser"), (os.getpid(), os.getppid(), "python3")])
                with open(path, "wb") as f:
                    f.write(log.data)
                text, err = p.communicate(b"\n", 300)
            if p.returncode:
                raise Violation("%s: exit status %d: %s" % (what, p.returncode, err[-1000:]))
            if formats:
                p11.judge(ctx, what, text.decode(), [log], [path], formats)
            else:
                p09.judge(ctx, what, text.decode(), [log], True, True)
            ctx.count("own_processes")
        ctx.count("host_logs")
        ctx.seen("host", v, len(log.data))


NOBODY, SOMEONE = 65534, 12345


def users(ctx):
    """Whoever reads, and whoever owns the log: a log that may be read is read."""
    rng = ctx.rng
    if os.geteuid():
        ctx.count("users_skipped")
        return
    for owner, mode, real, effective in ((0, 0o600, 0, 0), (NOBODY, 0o644, 0, 0), (SOMEONE, 0o600, 0, 0), (SOMEONE, 0o000, 0, 0),
                                         (0, 0o644, NOBODY, NOBODY), (NOBODY, 0o400, NOBODY, NOBODY), (SOMEONE, 0o444, NOBODY, NOBODY),
                                         (0, 0o646, 0, NOBODY), (SOMEONE, 0o666, NOBODY, SOMEONE), (NOBODY, 0o777, SOMEONE, SOMEONE)):
        folder = ctx.tmpdir()
        os.chmod(folder, rng.choice([0o755, 0o1777]))
        log = rotate.any_log(rng)
        name = rng.choice(["log", "log.gz"])
        path = os.path.join(folder, name)
        with open(path, "wb") as f:
            f.write(gzip.compress(log.data, 1) if name.endswith(".gz") else log.data)
        os.chmod(path, mode)
        try:
            os.chown(path, owner, owner)
        except PermissionError:
            ctx.count("users_skipped")
            continue
        formats = rng.sample(rows.CLI_FORMATS, 2) if rng.random() < 0.4 else None
        what = "a log of user %d with mode %o, read by user %d acting as %d" % (owner, mode, real, effective)
        out_path = os.path.join(ctx.tmpdir(), "out")
        plain = os.path.join(ctx.tmpdir(), name)
        with open(plain, "wb") as f:
            f.write(gzip.compress(log.data, 1) if name.endswith(".gz") else log.data)
        lib.cli([plain] + (["-P"] + formats if formats else []))  # Whatever is imported on first use is imported by a user who may.
        with open(out_path, "w", encoding="utf-8") as out:
            pid = os.fork()
            if not pid:
                code = 70
                try:
                    os.chdir(folder)
                    os.setgroups([])
                    os.setresgid(real, effective, effective)
                    os.setresuid(real, effective, effective)
                    with open(name, "rb"):
                        pass
                    code = 71
                    r = lib.cli([name] + (["-P"] + formats if formats else []))
                    json.dump([r.code, r.out, r.err[-2000:]], out)
                    out.flush()
                    code = 0
                except PermissionError as e:
                    code = 72 if code == 70 else 71
                    out.write(traceback.format_exc() if code == 71 else repr(e))
                    out.flush()
                except BaseException as e:  # pylint: disable=broad-except
                    out.write(repr(e))
                    out.flush()
                finally:
                    os._exit(code)
            code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        with open(out_path, encoding="utf-8") as f:
            text = f.read()
        if code == 72:  # This sandbox does not let go of its privileges.
            ctx.count("users_skipped")
            continue
        if code == 70:
            raise Inconclusive("%s: %s" % (what, text))
        if code:
            raise Violation("%s: %s" % (what, text))
        code, text, err = json.loads(text)
        if code:
            raise Violation("%s: exit status %s: %s" % (what, code, err))
        if formats:
            p11.judge(ctx, what, text, [log], [name], formats)
        else:
            p09.judge(ctx, what, text, [log], False, False)
        ctx.count("users")
        ctx.count("evaluations")
        ctx.seen(what, log.version, formats)


def seeds(ctx, rng, folder):
    """Whatever the hash seed, the same bytes: options and formats all at once, so that their order would show."""
    logs = [gen126.log(rng, 2, tasks=2), gen.log(rng, rng.choice(["2.11", "2.12"]), 2, 2, 2, style="sparse")]
    paths = []
    for i, log in enumerate(logs):
        paths.append(os.path.join(folder, "s%d" % i))
        with open(paths[-1], "wb") as f:
            f.write(log.data)
    for args in (paths + ["--tstats", "--cstats"], ["-P"] + rows.CLI_FORMATS + ["--"] + paths):
        outs = {}
        for seed in ["0"] + [str(rng.randrange(1, 1 << 32)) for _ in range(9)]:
            args_, env = surroundings(REPO, [], {"PYTHONHASHSEED": seed})
            r = subprocess.run(args_ + ["-m", "atoparser.reader"] + args, env=env, cwd="/", timeout=300, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
            outs.setdefault((r.returncode, r.stdout), []).append(seed)
            ctx.count("seeds")
            ctx.seen("seed", seed, args[0])
        if len(outs) > 1:
            (a, first), (b, second) = list(outs.items())[:2]
            raise Violation("command %s: hash seeds %s and %s give other output: %s" % (args, first[:3], second[:3], lib.diff_at(a[1], b[1])))
        if next(iter(outs))[0]:
            raise Violation("command %s: exit status %d" % (args, next(iter(outs))[0]))
        ctx.count("evaluations")


def modules():
    """All modules of the package but its tests."""
    out = ["atoparser"]
    for root, dirs, files in os.walk(PACKAGE):
        dirs[:] = sorted(d for d in dirs if d not in ("test", "tests", "__pycache__"))
        base = os.path.relpath(root, REPO).replace(os.sep, ".")
        out += [base + "." + f[:-3] for f in sorted(files) if f.endswith(".py") and not f.startswith("__")]
        out += [base + "." + d for d in dirs if os.path.exists(os.path.join(root, d, "__init__.py"))]
    return out


def run(ctx, kind, p):
    rng = ctx.rng
    folder = ctx.tmpdir()
    if kind == "imports":
        work = workload(rng, folder)
        for m in modules():
            few = rng.sample(work, 6)
            probe(ctx, folder, "%s imported first" % m, few, ["-S"] if rng.random() < 0.5 else [], {}, [], m)
            ctx.count("import_orders")
        return
    if kind == "host":
        host(ctx)
        return
    if kind == "users":
        users(ctx)
        return
    if kind == "rewritten":
        def printed(what, path, log):
            p09.judge(ctx, what, p09.go(ctx, what, [path, "--tstats", "--cstats"]), [log], True, True)

        def parsed(what, path, log):
            formats = rng.sample(rows.CLI_FORMATS, 3)
            p11.judge(ctx, what, p09.go(ctx, what, [path, "-P"] + formats), [log], [path], formats)
        rotate.run(ctx, printed=printed, parsed=parsed)
        return
    if kind == "seeds":
        seeds(ctx, rng, folder)
        return
    if kind == "command":
        state = COMMAND_STATES[p["k"]]
        for k, full in enumerate((True, True, False)):
            sub = os.path.join(folder, str(k))
            os.mkdir(sub)
            command(ctx, rng, sub, "command in " + state, [], {}, full=full, states=[state], everything=not k)
            ctx.count("command_states")
        return
    if kind == "terminal":
        command(ctx, rng, folder, "on a terminal", [], rng.choice([{}, {"LC_ALL": "C"}, {"FORCE_COLOR": "1"}]), True)
        return
    switches, variables, states = [], {}, []
    if kind == "switch":
        switches = SWITCHES[p["k"]]
    elif kind == "variable":
        variables = VARIABLES[p["k"]]
    elif kind == "state":
        states = [STATES[p["k"]]]
    else:
        switches = rng.choice(SWITCHES) + (rng.choice(SWITCHES) if rng.random() < 0.5 else [])
        for _ in range(rng.choice([0, 1, 2])):
            variables = dict(variables, **rng.choice(VARIABLES))
        outer = [s for s in STATES if not s.startswith("in-")]
        states = rng.sample(outer, rng.choice([0, 1, 3])) + rng.choice([[], [rng.choice([s for s in STATES if s.startswith("in-")])]])
        if "in-coroutine" in states and {"few-fds", "closed-fds", "no-streams", "warnings"} & set(states):
            states.remove("in-coroutine")
    what = " ".join(switches + ["%s=%s" % kv for kv in sorted(variables.items())] + states)
    probe(ctx, folder, what, workload(rng, folder), switches, variables, states)
    if kind != "state":
        for full in ((True, False) if "PYTHONIOENCODING" in variables else (None,)):
            command(ctx, rng, folder, what, switches, variables, full=full)
    ctx.sample({"surroundings": what})
