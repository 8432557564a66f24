"""P09: full JSON output of the command."""
import gzip
import itertools
import os
import shutil
import threading

from vf import gen, lib, model, rotate
from vf.harness import Inconclusive, Violation

RULE = ("Generated logs of every version (0 to hundreds of samples, cut ones included), plain and gzip, one to several files in "
        "any order with repeats, under names that mean something elsewhere, all combinations and spellings of -p, --tstats and --cstats in any position; in this process "
        "(main and parse_file) and as a separate process under several locales. stdout is parsed strictly and compared with "
        "the model's conversion of the stored bytes. Distinct by (versions, sample counts, options, way of running).")
REQUIRE = {"entries": 500, "processes": 6, "pretty_compact_pairs": 60, "multi_file_runs": 20, "rewritten_looks": 90, "tstat_entries": 100,
           "cgroup_entries": 40, "empty_logs": 10, "cut_logs": 10, "odd_names": 100, "other_names": 60}
PRETTY = [[], ["-p"], ["--pretty-print"], ["--pretty"]]


def cases(tier):
    q = tier == "quick"
    out = [("options", {"v": v}) for v in reversed(model.VERSIONS)]
    out += [("files", {"i": i}) for i in range(48 if q else 400)]
    out += [("process", {"i": i}) for i in range(8 if q else 40)]
    out += [("edges", {"v": v}) for v in model.VERSIONS + ["2.13", "2.2"]]
    out += [("many", {"v": v, "n": n}) for v, n in ([("1.26", 1500), ("2.4", 200)] if q else
                                                    [("1.26", 20000), ("2.3", 3000), ("2.12", 1500)])]
    out += [("crowd", {"n": n}) for n in ([350, 700] if q else [350, 1200, 5000])]
    out += [("names", {"i": i}) for i in range(3 if q else 12)]
    out += [("parse_file", {"i": i}) for i in range(6 if q else 60)]
    out += [("rewritten", {"i": i}) for i in range(8 if q else 80)]
    return out


def store(folder, name, data):
    path = os.path.join(folder, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return path


def write(ctx, folder, name, log, data=None):
    data = log.data if data is None else data
    if ctx.rng.random() < 0.4:
        name += ctx.rng.choice([".gz", ".gz.1"])
        data = gzip.compress(data, ctx.rng.choice([1, 6, 9]))
    return store(folder, name, data)


def other_name(ctx, folder, path):
    """The file under this or another of its names."""
    rng = ctx.rng
    if rng.random() < 0.4:
        return path
    ctx.count("other_names")
    where, name = os.path.split(path)
    link = os.path.join(folder, "link%d" % ctx.counters["other_names"]) + (".gz" if ".gz" in name else "")
    how = rng.choice(["hard", "symbolic", "relative", "folder", "dot", "slashes", "up", "climb", "climb"])
    if how == "hard":
        os.link(path, link)
    elif how == "symbolic":
        os.symlink(path, link)
    elif how == "relative":
        os.symlink(os.path.relpath(path, folder), link)
    elif how == "folder":
        os.symlink(where, link + ".d")
        return os.path.join(link + ".d", name)
    elif how == "climb":
        # Through a linked folder and up again, which is not where it was linked.
        os.makedirs(link + ".far/deep")
        os.symlink(link + ".far/deep", link + ".d")
        os.link(path, link + ".far/" + name)
        return os.path.join(link + ".d", "..", name)
    else:
        return where + {"dot": "/./", "slashes": "//", "up": "/../%s/" % os.path.basename(where)}[how] + name
    return link


class Piped:
    """A path that is the end of a pipe; what is written at its other end is the content of a file."""

    def __init__(self, path):
        self.fd, other = os.pipe()
        self.path = "/dev/fd/%d" % self.fd

        def feed():
            try:
                with open(path, "rb") as f, os.fdopen(other, "wb", buffering=0) as out:
                    shutil.copyfileobj(f, out, 5000)
            except OSError:
                pass
        self.thread = threading.Thread(target=feed, daemon=True)
        self.thread.start()

    def close(self):
        os.close(self.fd)
        self.thread.join(30)


def check_doc(what, doc, log, tstats, cstats, n=None, ctx=None):
    samples = log.samples if n is None else log.samples[:n]
    if not isinstance(doc, list) or len(doc) != len(samples):
        raise Violation("%s: %s entries instead of %d" % (what, len(doc) if isinstance(doc, list) else type(doc), len(samples)))
    for i, (entry, s) in enumerate(zip(doc, samples)):
        want = lib.sample_dict(log.layout, log.header, s, tstats, cstats)
        if not isinstance(entry, dict) or set(entry) != set(want):
            raise Violation("%s: entry %d has %s instead of %s" % (what, i, sorted(entry), sorted(want)))
        for part in want:
            d = lib.differ(entry[part], want[part])
            if d:
                raise Violation("%s: entry %d %s%s" % (what, i, part, d))
        if ctx:
            ctx.count("entries")
            if tstats:
                ctx.count("tstat_entries", len(s.tstats))
            if cstats:
                ctx.count("cgroup_entries", len(s.cgroups))


def judge(ctx, what, out, logs, tstats, cstats, ns=None):
    docs = lib.json_documents(out)
    if len(docs) != len(logs):
        raise Violation("%s: %d JSON documents for %d files" % (what, len(docs), len(logs)))
    for k, (doc, log) in enumerate(zip(docs, logs)):
        check_doc("%s: file %d (%s)" % (what, k, log.version), doc, log, tstats, cstats, ns[k] if ns else None, ctx)
    ctx.count("evaluations")


def layouts_differ(ctx, what, pretty, compact, logs):
    """Whitespace only, and each the way it was asked for."""
    if lib.outside_strings(pretty) != lib.outside_strings(compact):
        raise Violation("%s: pretty and compact output differ in more than whitespace" % what)
    if any(log.samples for log in logs):
        if pretty == compact or len(pretty.splitlines()) <= 2 * len(logs) or "\n  " not in pretty:
            raise Violation("%s: pretty output is not indented" % what)
        if len(compact.strip().splitlines()) > len(logs) or "\n  " in compact:
            raise Violation("%s: compact output is spread over lines" % what)
    ctx.count("pretty_compact_pairs")


def options(rng, tstats, cstats, pretty):
    out = list(rng.choice(PRETTY[1:])) if pretty else []
    if tstats:
        out.append("--tstats")
    if cstats:
        out.append("--cstats")
    rng.shuffle(out)
    return out


def arrange(rng, paths, opts):
    """Options before, behind or on both sides of the files."""
    r = rng.random()
    if r < 0.4:
        return paths + opts
    if r < 0.8:
        return opts + paths
    k = rng.randint(0, len(opts))
    return opts[:k] + paths + opts[k:]


def go(ctx, what, args, process=False, env=None, cwd=None):
    terminals = ctx.rng.choice(lib.TERMINALS) if process else ()
    r = lib.cli_process(args, cwd or "/", env, installed=ctx.rng.random() < 0.5, terminals=terminals) if process else lib.cli(args)
    ctx.count("terminals", len(terminals))
    if process:
        ctx.count("processes")
    if r.code != 0:
        raise Violation("%s: exit code %r: %s" % (what, r.code, r.err[-800:]))
    return r.out


# Names that mean something to shells, option parsers and path libraries, but are only names of files here.
ODD_NAMES = ["-", "--", "-p", "-P", "--tstats", "-1", "~", "~root", "~/x", "$HOME", "${PATH}", "%d", "%(file)s", "{0}", "@log", "#log", "*", "?", "[a]", "a*b",
             "a b", " a", "a ", "a\tb", "a\nb", "'q'", '"q"', "a;b", "a|b", "a&b", "a\\b", "http:", "file:log", "con", "nul", "stdin", "0", "1", "None",
             "...", ".log", "..log", "log.", "LOG", "log.json", "log.GZ", "log.bz2", "log.xz", "log.zip", "gz", "log.g", "log,gz", "é", "日本語", "a\u0301",
             "\u202elog", "\U0001f600", "\udcff\udcfe", "x" * 255, "d/" * 100 + "log", "./log", "d/../log", "d//log", "log.gz.d/log", "CPU"]


def odd_names(ctx):
    """Files of any name, given relative to the working directory, by themselves and next to others."""
    rng = ctx.rng
    folder = ctx.tmpdir()
    home = os.path.join(folder, "home")
    decoy = gen.tiny(rng, "2.3", 5)
    for name in ("home/x", "home/log"):
        store(folder, name, decoy.data)
    env = {"HOME": home, "LC_ALL": "C.UTF-8", "log": "home/log"}
    order = ODD_NAMES[:]
    rng.shuffle(order)
    for at in range(0, len(order), 9):
        cwd = os.path.join(folder, "cwd%d" % at)
        os.makedirs(os.path.join(cwd, "d"))
        logs, given = [], []
        for name in order[at:at + 9]:
            if os.path.normpath(name) in [os.path.normpath(g) for g in given]:
                continue
            log = gen.tiny(rng, rng.choice(model.VERSIONS), rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2))
            if {"~", "~/x"} <= set(given + [name]):
                name = "~x"  # One is a folder where the other is a file.
            try:
                store(cwd, os.path.normpath(name) if len(name) < 200 else name, log.data)
            except (OSError, UnicodeError) as e:
                raise Inconclusive("%r cannot be a file name here: %s" % (name, e)) from None
            logs.append(log)
            given.append(name)
            ctx.count("odd_names")
        what = "names %r" % given
        out = go(ctx, what, ["--"] + given, True, env, cwd)
        judge(ctx, what, out, logs, False, False)
        ctx.seen("names", sorted(given))


def run(ctx, kind, p):
    rng = ctx.rng
    if kind == "rewritten":
        def printed(what, path, log):
            tstats, cstats, pretty = (rng.random() < 0.5 for _ in range(3))
            args = [path] + options(rng, tstats, cstats, pretty)
            judge(ctx, what, go(ctx, what, args), [log], tstats, cstats)
        rotate.run(ctx, library=False, printed=printed)
        return
    if kind == "names":
        odd_names(ctx)
        return
    folder = ctx.tmpdir()
    if kind == "options":
        log = gen.log(rng, p["v"], 3, style="sparse", counts="any" if rng.random() < 0.1 else "small")
        empty = gen.log(rng, p["v"], 0)
        for k, one in enumerate((log, empty)):
            path = write(ctx, folder, "atop_%d" % k, one)
            for tstats, cstats in itertools.product((False, True), repeat=2):
                outs = []
                for pretty in (False, True):
                    opts = options(rng, tstats, cstats, pretty)
                    args = arrange(rng, [path], opts)
                    what = "%s %s" % (p["v"], args)
                    out = go(ctx, what, args)
                    judge(ctx, what, out, [one], tstats, cstats)
                    outs.append(out)
                    ctx.seen(p["v"], len(one.samples), sorted(opts), "main")
                layouts_differ(ctx, what, outs[1], outs[0], [one])
        ctx.count("empty_logs")
    elif kind == "files":
        logs, paths, ns = [], [], []
        for k in range(rng.randint(2, 5)):
            log = gen.tiny(rng, rng.choice(model.VERSIONS), rng.randint(0, 4), rng.randint(0, 3), rng.randint(0, 3))
            n, data = len(log.samples), log.data
            if log.samples and rng.random() < 0.3:
                cut = rng.randint(480, len(data) - 1)
                data, n = data[:cut], sum(1 for e in log.ends if e <= cut)
                ctx.count("cut_logs")
            name = rng.choice(["log%d" % k, "d%d/x" % k, "with space %d" % k, "ünï%d" % k, "a.b%d" % k, "gz%d" % k])
            logs.append(log)
            ns.append(n)
            paths.append(write(ctx, folder, name, log, data))
        order = [rng.randrange(len(logs)) for _ in range(rng.randint(2, 6))]
        given = [other_name(ctx, folder, paths[i]) for i in order]
        piped = []
        if rng.random() < 0.4:  # As the shell's <(...) gives it.
            k = rng.randrange(len(order))
            if ".gz" not in paths[order[k]]:
                piped.append(Piped(paths[order[k]]))
                given[k] = piped[0].path
                ctx.count("piped_files")
        tstats, cstats, pretty = (rng.random() < 0.5 for _ in range(3))
        args = arrange(rng, given, options(rng, tstats, cstats, pretty))
        what = "files %s" % args
        try:
            out = go(ctx, what, args)
        finally:
            for one in piped:
                one.close()
        judge(ctx, what, out, [logs[i] for i in order], tstats, cstats, [ns[i] for i in order])
        ctx.count("multi_file_runs")
        ctx.seen([logs[i].version for i in order], [ns[i] for i in order], tstats, cstats, pretty)
        ctx.sample({"command": ["atoparser"] + [os.path.relpath(a, folder) if a.startswith("/") else a for a in args],
                    "versions": [logs[i].version for i in order], "entries": [ns[i] for i in order]})
    elif kind == "crowd":
        # Very many files in one call: most of them of one and the same content under several names.
        logs = [model.Log(v, gen.header(rng, v), []) for v in model.VERSIONS[:3]]
        logs += [gen.tiny(rng, v, rng.randint(1, 2), 0, 0) for v in ("1.26", "2.3")]
        paths = [write(ctx, folder, "c%d" % k, log) for k, log in enumerate(logs)]
        order = [rng.choice([0, 1, 2, rng.randrange(len(logs))]) for _ in range(p["n"] - 4)] + rng.sample([3, 4, 3, 4], 4)
        args = [paths[i] for i in order] + rng.choice([[], ["-p"]])
        what = "%d files" % p["n"]
        judge(ctx, what, go(ctx, what, args), [logs[i] for i in order], False, False)
        ctx.seen("crowd", p["n"])
    elif kind == "process":
        logs = [gen.log(rng, rng.choice(model.VERSIONS), rng.randint(0, 3), style="sparse") for _ in range(rng.randint(1, 3))]
        paths = [write(ctx, folder, "p%d" % i, log) for i, log in enumerate(logs)]
        names = [os.path.basename(x) for x in paths] if rng.random() < 0.5 else paths
        tstats, cstats, pretty = (rng.random() < 0.5 for _ in range(3))
        args = arrange(rng, names, options(rng, tstats, cstats, pretty))
        env = rng.choice([{"LC_ALL": "C"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "POSIX", "PYTHONIOENCODING": "ascii"},
                          {"LANG": "en_US.ISO-8859-1"}, {"COLUMNS": "20"}, {"PYTHONUTF8": "0", "LC_ALL": "C"}])
        what = "process %s %s" % (args, env)
        out = go(ctx, what, args, True, env, folder)
        judge(ctx, what, out, logs, tstats, cstats)
        other = go(ctx, what, arrange(rng, names, options(rng, tstats, cstats, not pretty)), True, env, folder)
        judge(ctx, what, other, logs, tstats, cstats)
        layouts_differ(ctx, what, out if pretty else other, other if pretty else out, logs)
        ctx.seen([x.version for x in logs], tstats, cstats, sorted(env), "process")
    elif kind == "edges":
        v = p["v"]
        lay = model.layout(v)
        logs = [model.Log(v, gen.header(rng, v, "zero"), []), model.Log(v, gen.header(rng, v, "dense"), [])]
        zero = model.Sample(bytes(lay.size("Record")), bytes(lay.size("SStat")), [])
        zero.omit_cgroups = True
        logs.append(model.Log(v, gen.header(rng, v, "dense"), [zero]))
        s = gen.sample(rng, lay, tasks=2, groups=2, style="sparse")
        s.record = bytearray(gen.blob(rng, lay, "Record", "dense"))
        logs.append(model.Log(v, gen.header(rng, v), [s, zero, s]))
        for k, log in enumerate(logs):
            path = write(ctx, folder, "e%d" % k, log)
            for opts in ([], ["--tstats", "--cstats"], ["-p"], ["--cstats", "-p"], ["--tstats"]):
                what = "%s edge %d %s" % (v, k, opts)
                out = go(ctx, what, [path] + opts)
                judge(ctx, what, out, [log], "--tstats" in opts, "--cstats" in opts)
                ctx.seen(v, "edge", k, opts)
                if not log.samples:
                    ctx.count("empty_logs")
                    if out.split() != ["[]"]:
                        raise Violation("%s: printed %r instead of an empty array" % (what, out))
        log = gen.tiny(rng, v, 3, 1, 1)
        for _ in range(4):
            cut = rng.randint(480, len(log.data) - 1)
            path = write(ctx, folder, "cut%d" % cut, log, log.data[:cut])
            out = go(ctx, "%s cut at %d" % (v, cut), [path, "--tstats", "--cstats"])
            judge(ctx, "%s cut at %d" % (v, cut), out, [log], True, True, [sum(1 for e in log.ends if e <= cut)])
            ctx.count("cut_logs")
    elif kind == "many":
        log = gen.tiny(rng, p["v"], p["n"], 1, 1)
        for s in log.samples:  # Keep the output small.
            buf = bytearray(s.sstat)
            gen.set_counts(rng, log.layout, "SStat", buf, "zero")
            s.sstat = bytes(buf)
        log.build()
        path = write(ctx, folder, "many", log)
        out = go(ctx, "many", [path, "--tstats"])
        judge(ctx, "%s with %d samples" % (p["v"], p["n"]), out, [log], True, False)
        ctx.seen(p["v"], p["n"])
    else:
        import contextlib
        import io
        from atoparser import reader
        log = gen.tiny(rng, rng.choice(model.VERSIONS), 2, 2, 2)
        path = write(ctx, folder, "f", log)
        outs = {}
        for tstats, cstats, pretty in itertools.product((False, True), repeat=3):
            for style in range(2):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    if style:
                        reader.parse_file(path, None, pretty, tstats, cstats)
                    else:
                        reader.parse_file(file=path, pretty_print=pretty, show_cstats=cstats, show_tstats=tstats)
                judge(ctx, "parse_file(%s, %s, %s)" % (pretty, tstats, cstats), buf.getvalue(), [log], tstats, cstats)
                outs[pretty, tstats, cstats] = buf.getvalue()
                ctx.seen(log.version, "parse_file", pretty, tstats, cstats, style)
        for tstats, cstats in itertools.product((False, True), repeat=2):
            layouts_differ(ctx, "parse_file", outs[True, tstats, cstats], outs[False, tstats, cstats], [log])
