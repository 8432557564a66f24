"""P18: a failing file fails the command, cleanly."""
import contextlib
import gzip
import io
import os
import signal
import subprocess
import sys

from vf import gen, gen126, lib, model, rows
from vf.checks import p09, p11
from vf.harness import REPO, Violation

RULE = ("Command lines of one to five files in which none, one or several cannot be opened (missing, a directory, a loop of "
        "links, an unreadable device), are no log (empty, short, wrong magic, wrong lengths, random bytes, plain bytes named .gz) "
        "or hold malformed samples (blocks shorter than announced, negative counts) at any position, with all options, in "
        "process and as separate processes; wrong usage of many kinds; a full disk and a closed pipe as standard output. Exit "
        "status, standard error and the exact documents on standard output are compared with the model. Distinct by (failure "
        "kinds and positions, options, way of running).")
REQUIRE = {"failing_runs": 150, "clean_runs": 30, "whole_outputs": 80, "usage_refusals": 60, "processes": 25, "output_failures": 8,
           "parse_file_failures": 100, "late_failures": 20}
KINDS = ["missing", "folder", "loop", "device", "empty", "short", "magic", "lengths", "random", "notgzip", "badgzip", "sstat", "tasks",
         "negative", "cgroups", "pids", "unsupported"]


def cases(tier):
    q = tier == "quick"
    out = [("fail", {"kind": k, "i": i}) for k in KINDS for i in range(3 if q else 30)]
    out += [("process", {"i": i}) for i in range(24 if q else 200)]
    out += [("late", {"i": i}) for i in range(5 if q else 40)]
    out += [("usage", {"i": i}) for i in range(3 if q else 12)]
    out += [("output", {"i": i}) for i in range(2 if q else 10)]
    return out


def malformed(rng, kind):
    """Bytes of a log whose header is good and of which one sample is malformed."""
    v = rng.choice(model.CGROUP_VERSIONS if kind in ("cgroups", "pids") else model.VERSIONS)
    lay = model.layout(v)
    log = gen.tiny(rng, v, rng.randint(1, 3), 2, 2)
    k = rng.randrange(len(log.samples))
    s = log.samples[k]
    if kind == "sstat":
        s.sstat = s.sstat[:-rng.choice([1, 8, len(s.sstat) // 2, len(s.sstat)])]
        log.build()
    elif kind == "tasks":
        s.tstats[-1] = s.tstats[-1][:-rng.choice([1, 4, len(s.tstats[-1])])]
        log.build()
    elif kind == "negative":
        # A count that contradicts the data.
        log.build()
        field = "nlist" if lay.has("Record", "nlist") else "ndeviat"
        lay.put(s.record, "Record", (field,), 200)
        data = bytearray(log.data)
        data[s.offsets[0]:s.offsets[1]] = s.record
        return bytes(data)
    elif kind == "cgroups":
        c, n, pids = s.cgroups[-1]
        s.cgroups[-1] = (c[:-rng.choice([1, 8, len(c)])], b"", pids)
        s.omit_cgroups = False
        log.build()
    else:
        c, n, pids = s.cgroups[-1]
        buf = bytearray(c)
        lay.put(buf, "CStat", ("gen", "nprocs"), len(pids) + rng.randint(1, 50))
        s.cgroups[-1] = (bytes(buf), n, pids)
        log.build()
    return log.data


def spoil(ctx, rng, folder, kind, tag):
    """Path of a file that must fail."""
    path = os.path.join(folder, "bad_%s_%s" % (kind, tag))
    if kind == "missing":
        return path
    if kind == "folder":
        os.mkdir(path)
        return path
    if kind == "loop":
        os.symlink(os.path.basename(path), path)
        return path
    if kind == "device":
        return "/proc/self/mem"
    v = rng.choice(model.VERSIONS)
    head = bytearray(gen.header(rng, v))
    good = gen.tiny(rng, v, 1, 1, 1).data
    if kind == "empty":
        data = b""
    elif kind == "short":
        data = good[:rng.choice([1, 35, 36, 100, 479])]
    elif kind == "magic":
        data = b"\0" + good[1:]
    elif kind == "lengths":
        lay = model.layout(v)
        field = rng.choice(sorted(gen.lengths(lay)))
        lay.put(head, "Header", (field,), lay.get(bytes(head), "Header", (field,)) + rng.choice([-8, 8]))
        data = bytes(head) + good[480:]
    elif kind == "unsupported":
        lay = model.layout(model.NEWEST)
        lay.put(head, "Header", ("aversion",), gen.aversion(rng.choice(["1.25", "2.2", "3.0"])))
        lay.put(head, "Header", ("sstatlen",), 4242)
        data = bytes(head)
    elif kind == "random":
        data = rng.randbytes(rng.randint(480, 3000))
    elif kind == "notgzip":
        path += ".gz"
        data = good
    elif kind == "badgzip":
        path += ".gz"
        data = gzip.compress(b"nothing like a log " * 50)
    else:
        data = malformed(rng, kind)
        if rng.random() < 0.3:
            path += ".gz"
            data = gzip.compress(data)
    with open(path, "wb") as f:
        f.write(data)
    return path


def plan(ctx, rng, folder, failing):
    """(paths, logs before the first failure, index of it or None); failing: kinds to put among good files."""
    entries = []
    for i in range(rng.randint(0 if failing else 1, 3)):
        v = rng.choice(model.VERSIONS + ["1.26", "2.13"])
        few = rng.choice([0, 0, 1, 2, 3])  # What fits into a buffer and what does not.
        log = gen126.log(rng, min(few, 2), tasks=2) if v == "1.26" else gen.tiny(rng, v, few, 1, 1)
        entries.append((p09.write(ctx, folder, "good%d" % i, log), log))
    for j, kind in enumerate(failing):
        entries.insert(rng.randint(0, len(entries)), (spoil(ctx, rng, folder, kind, j), None))
    before = []
    first = None
    for k, (_path, log) in enumerate(entries):
        if log is None:
            first = k
            break
        before.append(log)
    return [e[0] for e in entries], before, first


def attempt(args):
    """(failed, stdout) of the command in this process; what it raised counts as a failure."""
    from atoparser import reader
    out, err = io.StringIO(), io.StringIO()
    failed, how = False, None
    with lib.patched_argv(["atoparser"] + list(args)), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            sys.exit(reader.main())
        except SystemExit as e:
            failed, how = e.code not in (0, None), e
        except Exception as e:  # pylint: disable=broad-except
            failed, how = True, e
    return failed, out.getvalue(), how


def judge_output(ctx, what, out, before, paths, formats, tstats, cstats):
    if formats:
        p11.judge(ctx, what, out, before, paths, formats)
    else:
        p09.judge(ctx, what, out, before, tstats, cstats)
    ctx.count("whole_outputs", 1 if before else 0)


def command(ctx, rng, folder, failing, process):
    paths, before, first = plan(ctx, rng, folder, failing)
    formats = [rng.choice(rows.CLI_FORMATS) for _ in range(rng.randint(1, 3))] if rng.random() < 0.3 else None
    tstats, cstats, pretty = (rng.random() < 0.5 for _ in range(3))
    opts = p09.options(rng, tstats, cstats, pretty)
    args = paths + opts + (["-P"] + formats if formats else [])
    if formats and first is not None and malformed_only(failing):
        # Without parseable rows to produce, the samples of a log are not read at all.
        args, formats = paths + opts, None
    what = "%s %s" % (failing, args)
    if process:
        terminals = rng.choice(lib.TERMINALS)
        ctx.count("terminals", len(terminals))
        r = lib.cli_process(args, folder, installed=rng.random() < 0.5, terminals=terminals)
        failed, out = r.code != 0, r.out
        ctx.count("processes")
        if r.code < 0:
            raise Violation("%s: the command died of signal %d" % (what, -r.code))
        if failed and not r.err.strip():
            raise Violation("%s: failed with exit status %d and no message" % (what, r.code))
    else:
        failed, out, _how = attempt(args)
    if failed != (first is not None):
        raise Violation("%s: the command %s, though %s" % (what, "failed" if failed else "succeeded",
                                                          "file %d cannot be read" % first if first is not None else "all files are good"))
    ctx.count("failing_runs" if failed else "clean_runs")
    judge_output(ctx, what, out, before, paths, formats, tstats, cstats)
    ctx.seen(failing, first, len(paths), formats, tstats, cstats, pretty, process)
    ctx.sample({"arguments": [os.path.basename(a) for a in args], "fails at file": first, "printed": len(before)})


def late(ctx, rng, folder):
    """The one bad file comes behind, or before, very many good ones."""
    logs = [gen.tiny(rng, v, rng.choice([0, 0, 1]), 0, 0) for v in ("1.26", "2.3", rng.choice(model.VERSIONS))]
    paths = [p09.write(ctx, folder, "good%d" % k, log) for k, log in enumerate(logs)]
    for k, (n, after) in enumerate(((rng.randint(8, 12), 0), (rng.randint(50, 70), 5), (rng.randint(250, 400), 0), (rng.randint(250, 300), 100), (0, 300))):
        order = [rng.randrange(3) for _ in range(n)]
        kind = rng.choice(KINDS)
        bad = spoil(ctx, rng, folder, kind, "late%d" % k)
        args = [paths[i] for i in order] + [bad] + [rng.choice(paths) for _ in range(after)]
        what = "%s behind %d good files and before %d" % (kind, n, after)
        failed, out, _how = attempt(args)
        if not failed:
            raise Violation("%s: the command succeeded" % what)
        p09.judge(ctx, what, out, [logs[i] for i in order], False, False)
        ctx.count("late_failures")
        ctx.count("failing_runs")
        ctx.seen("late", kind, n, after)


def malformed_only(failing):
    return any(k in ("sstat", "tasks", "negative", "cgroups", "pids") for k in failing)


USAGE = [[], ["-p"], ["--tstats", "--cstats"], ["FILE", "-P"], ["FILE", "-P", "XYZ"], ["FILE", "-P", "CPU", "nope"], ["FILE", "-P", "cpuX"],
         ["FILE", "-x"], ["FILE", "--nothing"], ["FILE", "--tstats=yes"], ["FILE", "-P", "CPU,DSK"], ["FILE", "-P", ""],
         ["-P", "CPU", "FILE"], ["-P", "CPU"], ["FILE", "--parseables"], ["FILE", "FILE", "--pretty-prin", "-Q"], ["FILE", "-P", "Cpu"],
         ["-P", "FILE"], ["FILE", "-p=1"], ["FILE", "--cstats", "--", "-P", "-x", "--bogus"][:3] + ["-P"]]


def run(ctx, kind, p):
    rng = ctx.rng
    folder = ctx.tmpdir()
    if kind == "late":
        late(ctx, rng, folder)
    elif kind == "fail":
        for n in range(3):
            sub = os.path.join(folder, str(n))
            os.mkdir(sub)
            failing = [p["kind"]] + [rng.choice(KINDS) for _ in range(rng.choice([0, 0, 1]))]
            command(ctx, rng, sub, failing, False)
        sub = os.path.join(folder, "clean")
        os.mkdir(sub)
        command(ctx, rng, sub, [], False)
        # The function the command is made of raises, and prints nothing.
        from atoparser import reader
        for n in range(3):
            path = spoil(ctx, rng, folder, p["kind"], "p%d" % n)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    reader.parse_file(path, None, rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5)
            except Exception:  # pylint: disable=broad-except
                pass
            else:
                raise Violation("parse_file accepted a file that is %s" % p["kind"])
            if buf.getvalue():
                raise Violation("parse_file printed %s for a file that is %s" % (lib.short(buf.getvalue()), p["kind"]))
            ctx.count("parse_file_failures")
    elif kind == "process":
        failing = [rng.choice(KINDS)] if p["i"] % 6 else []
        command(ctx, rng, folder, failing, True)
    elif kind == "usage":
        log = gen126.log(rng, 1, tasks=1)
        path = p09.store(folder, "file", log.data)
        wrong = [x for f in rows.FORMATS for x in {f.lower(), f.title(), f + "s", f[:2], " " + f, f + " "} - set(rows.FORMATS)]
        wrong += ["all", "ALL", "*", "GPU", "NFM", "NFC", "NFS", "IFB", "PSI", "NUM", "NUC", "LLC", "CGR", "PRF", "RESET", "SEP", "None", "0", "1.26", "parse_CPU"]
        for form in USAGE + [["FILE", "-P", x] for x in wrong] + [["FILE", "-P", "CPU", x] for x in rng.sample(wrong, 10)]:
            args = [path if a == "FILE" else a for a in form]
            from atoparser import reader
            out, err = io.StringIO(), io.StringIO()
            opened = []
            code = None
            with lib.patched_argv(["atoparser"] + args), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    sys.exit(reader.main())
                except SystemExit as e:
                    code = e.code
            if code != 2 or out.getvalue() or not err.getvalue().strip() or opened:
                raise Violation("wrong usage %s: exit status %r, stdout %s, stderr %s" % (
                    args, code, lib.short(out.getvalue()), lib.short(err.getvalue())))
            ctx.count("usage_refusals")
            ctx.count("evaluations")
            ctx.seen("usage", form)
        if p["i"] == 0:
            r = lib.cli_process(["-P", "XYZ", "--", path], folder)
            ctx.count("processes")
            if r.code != 2 or r.out:
                raise Violation("wrong usage in a process: exit status %d, stdout %s" % (r.code, lib.short(r.out)))
    else:
        log = gen.log(rng, rng.choice(model.VERSIONS), rng.choice([1, 2]), style="sparse")
        path = p09.store(folder, "file", log.data)
        for opts in ([], ["-p", "--tstats"], ["--cstats"], ["-p"]):
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", **rng.choice([{}, {"PYTHONUNBUFFERED": "1"}]))
            args = [sys.executable, "-m", "atoparser.reader", path] + opts
            with open("/dev/full", "wb") as full:
                r = subprocess.run(args, env=env, cwd=folder, stdout=full, stderr=subprocess.PIPE, timeout=200, check=False)
            if r.returncode == 0:
                raise Violation("%s: exit status 0 though the output could not be written" % opts)
            read_end, write_end = os.pipe()
            os.close(read_end)
            try:
                r = subprocess.run(args, env=env, cwd=folder, stdout=write_end, stderr=subprocess.PIPE, timeout=200, check=False,
                                   preexec_fn=lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN))
            finally:
                os.close(write_end)
            if r.returncode == 0:
                raise Violation("%s: exit status 0 though the output went to a closed pipe" % opts)
            ctx.count("output_failures", 2)
            ctx.count("evaluations", 2)
            ctx.seen("output", log.version, opts)
