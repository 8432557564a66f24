"""P11: the command's parseable mode."""
import contextlib
import io
import os

from vf import gen, gen126, lib, model, rows
from vf.checks import p09
from vf.harness import Violation

RULE = ("Generated 1.26 logs (also empty and cut ones) and logs of the other versions, alone and mixed in one command; every "
        "single offered format in every spelling, full and parseable output by turns, random sequences with repeats, -P before or behind the files and combined with the other "
        "options; main, parse_file and separate processes. Rows are compared with the model's table, labels included. Distinct "
        "by (format sequence, versions, sample counts, options).")
REQUIRE = {"rows": 10000, "refusals": 50, "sequences": 100, "mixed_runs": 15, "processes": 4, "full_outputs": 11, "cut_logs": 60, "alternations": 16, "odd_spellings": 100, "long_sequences": 8}


def cases(tier):
    q = tier == "quick"
    out = [("single", {"f": f}) for f in rows.CLI_FORMATS]
    out += [("sequence", {"i": i}) for i in range(64 if q else 1000)]
    out += [("refuse", {"v": v}) for v in model.VERSIONS[1:] + ["2.2", "2.13", "1.25", "1.27", "12.6", "126.0"]]
    out += [("mixed", {"i": i}) for i in range(24 if q else 300)]
    out += [("process", {"i": i}) for i in range(4 if q else 30)]
    out += [("alternate", {"i": i}) for i in range(16 if q else 200)]
    out += [("many", {"n": 400 if q else 20000}), ("rows", {"tasks": 7000 if q else 70000})]
    out += [("plain", {"v": v}) for v in model.VERSIONS]
    return out


def expected(log, formats, n=None):
    out = []
    for s in log.samples if n is None else log.samples[:n]:
        for fmt in formats:
            for row in rows.rows(fmt, log.header, bytes(s.record), s.sstat, s.tstats):
                row["parseable"] = fmt
                out.append(row)
    return out


def check_refusal(ctx, what, doc, log, path):
    if not isinstance(doc, list) or len(doc) != 1 or not isinstance(doc[0], dict):
        raise Violation("%s: %s instead of one refusal" % (what, lib.short(doc)))
    texts = " ".join(str(v) for v in doc[0].values())
    if log.version not in texts or not any(path in str(v) for v in doc[0].values()):
        raise Violation("%s: the refusal %s does not name version %s and file %s" % (what, doc[0], log.version, path))
    if not all(isinstance(v, str) for v in doc[0].values()) or "error" not in doc[0]:
        raise Violation("%s: %s instead of a refusal" % (what, lib.short(doc[0])))
    import re
    named = re.findall(r"\d+\.\d+", doc[0]["error"].replace(path, ""))
    if named != [log.version]:
        raise Violation("%s: the refusal of a %s log names %s" % (what, log.version, named))
    ctx.count("refusals")


def judge(ctx, what, out, logs, paths, formats, ns=None):
    docs = lib.json_documents(out)
    if len(docs) != len(logs):
        raise Violation("%s: %d JSON documents for %d files" % (what, len(docs), len(logs)))
    for k, (doc, log, path) in enumerate(zip(docs, logs, paths)):
        where = "%s: file %d (%s)" % (what, k, log.version)
        if log.version != "1.26":
            check_refusal(ctx, where, doc, log, path)
            continue
        want = expected(log, formats, ns[k] if ns else None)
        if not isinstance(doc, list) or len(doc) != len(want):
            raise Violation("%s: %s rows instead of %d" % (where, len(doc) if isinstance(doc, list) else type(doc), len(want)))
        d = lib.differ(doc, want, order=False)
        if d:
            raise Violation("%s: row%s" % (where, d))
        ctx.count("rows", len(want))
    ctx.count("evaluations")


def arguments(rng, paths, formats, extra):
    flag = rng.choice(["-P", "--parseables"])
    if len(formats) == 1 and rng.random() < 0.3:
        one = [rng.choice(["-P" + formats[0], "--parseables=" + formats[0]])]  # In one word; what follows are files again.
        return rng.choice([one + paths + extra, paths + one + extra, extra + one + paths])
    if rng.random() < 0.5:
        return paths + extra + [flag] + formats
    # -P takes everything up to the next option.
    if extra and rng.random() < 0.7:
        return [flag] + formats + extra + paths
    return [flag] + formats + ["--"] + paths


def spelled(ctx, path, cwd=None):
    """The same file, spelled in another way."""
    rng = ctx.rng
    where, name = os.path.split(path)
    ways = [path, where + "/./" + name, where + "//" + name, "%s/../%s/%s" % (where, os.path.basename(where), name), "/./" + path[1:], "///" + path[1:],
            os.path.relpath(path, cwd or os.getcwd())]
    if cwd == where:
        ways += [name, "./" + name, ".//" + name, "../%s/%s" % (os.path.basename(where), name)]
    out = rng.choice(ways)
    ctx.count("odd_spellings", out != path)
    return out


def some(rng):
    extra = [o for o in ("-p", "--tstats", "--cstats") if rng.random() < 0.25]
    rng.shuffle(extra)
    return extra


def go(ctx, what, args, **kw):
    return p09.go(ctx, what, args, **kw)


def run(ctx, kind, p):
    rng = ctx.rng
    folder = ctx.tmpdir()
    if kind == "single":
        for n in (0, 1, 3):
            log = gen126.log(rng, n)
            path = p09.write(ctx, folder, "s%d" % n, log)
            for extra in ([], ["-p"]):
                args = arguments(rng, [path], [p["f"]], extra)
                judge(ctx, str(args), go(ctx, str(args), args), [log], [path], [p["f"]])
                ctx.seen(p["f"], n, extra)
    elif kind == "sequence":
        log = gen126.log(rng, rng.choice([0, 1, 2, 3]), tasks=rng.choice([0, 1, 5]))
        for turn in range(3):
            r = rng.random()
            formats = rng.sample(rows.CLI_FORMATS, rng.randint(1, len(rows.CLI_FORMATS))) if r < 0.4 else (
                [rng.choice(rows.CLI_FORMATS) for _ in range(rng.randint(2, 7))] if r < 0.8 else
                [rng.choice(rows.CLI_FORMATS)] * rng.randint(2, 3))
            if turn == 2 and rng.random() < 0.4:  # Many, again and again.
                formats = [rng.choice(rows.CLI_FORMATS) for _ in range(rng.choice([15, 16, 17, 20, 33, 60, 130]))]
                ctx.count("long_sequences")
            path = p09.write(ctx, folder, "q", log)
            extra = some(rng)
            args = arguments(rng, [path], formats, extra)
            judge(ctx, str(args), go(ctx, str(args), args), [log], [path], formats)
            ctx.count("sequences")
            ctx.seen(formats, len(log.samples), extra)
            ctx.sample({"formats": formats, "options": extra, "samples": len(log.samples)})
        if rng.random() < 0.5:
            from atoparser import reader
            buf = io.StringIO()
            asked = list(formats)
            with contextlib.redirect_stdout(buf):
                reader.parse_file(path, asked)
            judge(ctx, "parse_file %s" % formats, buf.getvalue(), [log], [path], formats)
            ctx.check(formats == asked, "the list of formats was changed")
        for _ in range(4 if log.samples else 0):
            offs = rng.choice(log.samples).offsets
            cut = rng.choice([rng.randint(480, len(log.data) - 1), rng.randint(offs[1], offs[-1] - 1), offs[2], offs[2] - 1])
            path = p09.write(ctx, folder, "cut", log, log.data[:cut])
            n = sum(1 for e in log.ends if e <= cut)
            args = arguments(rng, [path], formats, some(rng))
            judge(ctx, "cut log %s" % args, go(ctx, "cut log %s" % args, args), [log], [path], formats, [n])
            ctx.count("cut_logs")
    elif kind == "refuse":
        for n in (0, 1, 2):
            log = gen.tiny(rng, p["v"], n, 1, 1)
            path = p09.write(ctx, folder, rng.choice(["refused%d", "1.26-%d", "a b%d"]) % n, log)
            for formats in (["CPU"], rng.sample(rows.CLI_FORMATS, 3), ["PRG", "PRG"]):
                extra = some(rng)
                given = spelled(ctx, path)
                args = arguments(rng, [given], formats, extra)
                judge(ctx, str(args), go(ctx, str(args), args), [log], [given], formats)
                ctx.seen("refuse", p["v"], n, formats, extra)
    elif kind == "alternate":
        # Full output and parseable output of the same logs by turns, in one process: neither changes the other.
        log, other = gen126.log(rng, 2, tasks=2), gen.tiny(rng, rng.choice(model.VERSIONS[1:] + ["2.2", "2.13"]), 2, 1, 1)
        paths = [p09.write(ctx, folder, "a%d" % k, x) for k, x in enumerate((log, other))]
        for _ in range(8):
            k = rng.randrange(2)
            one, path = (log, other)[k], paths[k]
            if rng.random() < 0.5:
                tstats, cstats = rng.random() < 0.5, rng.random() < 0.5
                args = [path] + p09.options(rng, tstats, cstats, rng.random() < 0.5)
                p09.judge(ctx, str(args), go(ctx, str(args), args), [one], tstats, cstats)
            else:
                formats = [rng.choice(rows.CLI_FORMATS) for _ in range(rng.randint(1, 3))]
                args = arguments(rng, [path], formats, some(rng))
                judge(ctx, str(args), go(ctx, str(args), args), [one], [path], formats)
        ctx.count("alternations")
        ctx.seen("alternate", other.version)
    elif kind in ("mixed", "process"):
        logs, paths = [], []
        for k in range(rng.randint(2, 4)):
            v = rng.choice(["1.26", "1.26", rng.choice(model.VERSIONS + ["2.2"])])
            log = gen126.log(rng, rng.randint(0, 2), tasks=2) if v == "1.26" else gen.tiny(rng, v, rng.randint(0, 2), 1, 1)
            logs.append(log)
            paths.append(p09.write(ctx, folder, "m%d" % k, log))
        order = [rng.randrange(len(logs)) for _ in range(rng.randint(2, 5))]
        formats = [rng.choice(rows.CLI_FORMATS) for _ in range(rng.randint(1, 4))]
        extra = some(rng)
        given = [spelled(ctx, paths[i], folder if kind == "process" else None) for i in order]
        args = arguments(rng, given, formats, extra)
        out = go(ctx, str(args), args, process=kind == "process", cwd=folder)
        judge(ctx, str(args), out, [logs[i] for i in order], given, formats)
        ctx.count("mixed_runs")
        ctx.seen([logs[i].version for i in order], formats, extra, kind)
    elif kind == "many":
        log = gen126.log(rng, 3, tasks=1)
        base = log.samples
        log = model.Log("1.26", log.header, [])
        for i in range(p["n"]):
            b = base[i % 3]
            rec = bytearray(b.record)
            log.layout.put(rec, "Record", ("curtime",), i)
            log.samples.append(model.Sample(rec, b.sstat, b.tstats, (), b.how))
        log.build()
        path = p09.write(ctx, folder, "many", log)
        formats = ["CPL", "PRC", "CPL", "MEM"]
        judge(ctx, "many", go(ctx, "many", [path, "-P"] + formats), [log], [path], formats)
        ctx.seen("many", p["n"])
    elif kind == "rows":
        # Many rows of one sample, and of one file.
        log = gen126.log(rng, 3, tasks=0)
        few = [gen.blob(rng, log.layout, "TStat", "dense") for _ in range(50)]
        for s, n in zip(log.samples, (0, p["tasks"], p["tasks"] // 10)):
            s.tstats = [few[rng.randrange(50)] for _ in range(n)]
            s.how = [{"level": 1}] * 4
        log.build()
        path = p09.write(ctx, folder, "rows", log)
        formats = ["PRM", "CPU", "PRC"]
        for extra in ([], ["-p"]):
            judge(ctx, "many rows", go(ctx, "many rows", [path] + extra + ["-P"] + formats), [log], [path], formats)
        ctx.seen("rows", p["tasks"])
    else:
        # Without -P, every version prints full structures.
        log = gen126.log(rng, 2) if p["v"] == "1.26" else gen.tiny(rng, p["v"], 2, 1, 1)
        path = p09.write(ctx, folder, "plain", log)
        doc = lib.json_documents(go(ctx, "plain", [path]))
        if len(doc) != 1 or len(doc[0]) != 2 or any(set(e) != {"header", "record", "sstat"} for e in doc[0]):
            raise Violation("%s without -P: %s" % (p["v"], lib.short(doc)))
        for entry, s in zip(doc[0], log.samples):
            d = lib.differ(entry, lib.sample_dict(log.layout, log.header, s), order=False)
            if d:
                raise Violation("%s without -P: %s" % (p["v"], d))
        ctx.count("full_outputs")
        ctx.count("evaluations")
        ctx.seen("plain", p["v"])
