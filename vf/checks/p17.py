"""P17: conversions and parseable rows are pure, repeatable and current."""
import copy
import io
import json

import atoparser
from vf import gen, gen126, lib, model, rows
from vf.harness import Violation

RULE = ("Delivered structures of every version (header, record, system, task, cgroup statistics, nested structures) converted "
        "again and again between random operations: other conversions, parseable rows of all 16 formats generated in turns from "
        "several generators over several samples, partly consumed and abandoned, results emptied or overwritten, fields of the "
        "structures overwritten. Each conversion is compared with the model's conversion of the structure's current memory; "
        "the memory of every structure and the list of tasks are compared with a shadow after each operation; results are "
        "checked to share no dictionary or list. Distinct by (version, operation sequence).")
REQUIRE = {"conversions": 1000, "row_steps": 6000, "generators": 600, "abandoned": 100, "spoiled_results": 1500, "edits": 200,
           "memory_checks": 20000, "sharing_checks": 80, "many_tasks": 4, "current_fields": 300}


def cases(tier):
    q = tier == "quick"
    out = [("convert", {"v": v, "i": i}) for v in model.VERSIONS for i in range(4 if q else 60)]
    out += [("many", {"n": n}) for n in ([70, 300, 1500, 5000] if q else [70, 300, 1500, 5000, 40000, 70000])]
    out += [("current", {"i": i}) for i in range(6 if q else 60)]
    out += [("rows", {"i": i}) for i in range(40 if q else 600)]
    return out


def containers(value, out):
    """Every dictionary and list inside a value, by identity."""
    if isinstance(value, dict):
        out.append(value)
        for v in value.values():
            containers(v, out)
    elif isinstance(value, list):
        out.append(value)
        for v in value:
            containers(v, out)
    return out


def spoil(rng, value):
    """Change a result in place, deeply."""
    for c in containers(value, []):
        if isinstance(c, dict):
            if rng.random() < 0.5:
                c.clear()
            else:
                for k in list(c):
                    if not isinstance(c[k], (dict, list)):
                        c[k] = "spoiled"
                c["extra"] = 1
        else:
            if rng.random() < 0.5:
                c.clear()
            else:
                c.append("spoiled")


class Watched:
    """Structures with a shadow of their memory."""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, label, obj, part, lay):
        self.items.append([label, obj, lib.raw(obj), part, lay])

    def verify(self, when):
        for label, obj, raw, _part, _lay in self.items:
            if lib.raw(obj) != raw:
                raise Violation("%s was changed by %s: %s" % (label, when, lib.diff_at(lib.raw(obj), raw)))
        self.ctx.count("memory_checks", len(self.items))


def check_sharing(ctx, results):
    """No container belongs to two results."""
    seen = {}
    for k, r in enumerate(results):
        for c in containers(r, []):
            if seen.setdefault(id(c), k) != k:
                raise Violation("two results share a %s: %s" % (type(c).__name__, lib.short(c)))
    ctx.count("sharing_checks")


def edit(ctx, rng, entry):
    """Overwrite memory of a structure the way a user may: by assigning to its fields."""
    _label, obj, _raw, part, lay = entry
    counts = {c for lim in lay.limits.values() for c in lim.values()}
    every = [leaf for leaf in lay.leaves(lay.top[part]) if leaf[0][-1] not in counts]
    for _ in range(rng.randint(1, 4)):
        path, kind, _off, size = rng.choice(every)
        target = obj
        for step in path[:-1]:
            target = target[step] if isinstance(step, int) else getattr(target, step)
        if kind == "str":
            value = gen.name(rng, size)
        elif kind == "ch":
            value = bytes([rng.randrange(128)])
        else:
            value = gen.number(rng, kind)
        if isinstance(path[-1], int):
            target[path[-1]] = value
        else:
            setattr(target, path[-1], value)
    entry[2] = lib.raw(obj)
    ctx.count("edits")


def convert(ctx, rng, p):
    v = p["v"]
    log = gen.log(rng, v, rng.randint(1, 3), tasks=rng.randint(1, 3), groups=2, style="sparse", counts="any")
    lay = log.layout
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    out, error = lib.read_all(stream, header=header)
    ctx.check(error is None and len(out) == len(log.samples), "%s cannot be read: %r", v, error)
    watched = Watched(ctx)
    watched.add("header", header, "Header", lay)
    groups = []
    for i, (record, sstat, tstats, cgroups) in enumerate(out):
        watched.add("record %d" % i, record, "Record", lay)
        watched.add("sstat %d" % i, sstat, "SStat", lay)
        for j, t in enumerate(tstats):
            watched.add("task %d.%d" % (i, j), t, "TStat", lay)
        for j, c in enumerate(cgroups):
            watched.add("cgroup %d.%d" % (i, j), c.cstat, "CStat", lay)
            groups.append((c, list(c.proclist)))
    results, trace = [], []
    for _ in range(50 if not ctx.thorough else 60):
        op = rng.choice(["convert", "convert", "convert", "again", "spoil", "edit", "group", "nested", "json"])
        trace.append(op)
        entry = rng.choice(watched.items)
        label, obj, raw, part, _ = entry
        if op in ("convert", "again", "json"):
            want = lay.part_dict(part, raw)
            for _k in range(2 if op == "again" else 1):
                got = atoparser.struct_to_dict(obj)
                ctx.count("conversions")
                ctx.count("evaluations")
                d = lib.differ(got, want)
                if d:
                    raise Violation("%s %s does not convert to its content after %s%s" % (v, label, trace[-8:], d))
                results.append(got)
            if op == "json":
                text = json.dumps(got)
                if json.dumps(atoparser.struct_to_dict(obj)) != text:
                    raise Violation("%s %s has different JSON the second time" % (v, label))
        elif op == "spoil" and results:
            spoil(rng, results.pop(rng.randrange(len(results))))
            ctx.count("spoiled_results")
        elif op == "edit":
            edit(ctx, rng, entry)
        elif op == "group" and groups:
            group, pids = rng.choice(groups)
            got = atoparser.struct_to_dict(group)
            want = lib.cgroup_dict(lay, lib.raw(group.cstat), pids)
            d = lib.differ(got, want)
            if d:
                raise Violation("%s cgroup does not convert to its content%s" % (v, d))
            ctx.count("conversions")
            results.append(got)
        elif op == "nested":
            inner = [f for f in lay.fields[lay.top[part]] if f.sub and f.count is None]
            if inner:
                f = rng.choice(inner)
                got = atoparser.struct_to_dict(getattr(obj, f.name))
                d = lib.differ(got, lay.to_dict(f.sub, raw, f.offset))
                if d:
                    raise Violation("%s %s.%s does not convert to its content%s" % (v, label, f.name, d))
                ctx.count("conversions")
                results.append(got)
        watched.verify(op)
        for group, pids in groups:
            if list(group.proclist) != pids:
                raise Violation("%s: a pid list was changed by %s" % (v, op))
    check_sharing(ctx, results)
    ctx.seen(v, trace)
    # A copy that was moved elsewhere converts the same.
    label, obj, raw, part, _ = rng.choice(watched.items)
    twin = type(obj).from_buffer_copy(raw)
    d = lib.differ(atoparser.struct_to_dict(twin), lay.part_dict(part, raw))
    if d:
        raise Violation("%s: a copy of %s converts differently%s" % (v, label, d))


def parser(name):
    from atoparser.parsers import atop_1_26
    return getattr(atop_1_26, "parse_" + name)


def run_rows(ctx, rng):
    lay = rows.LAY
    log = gen126.log(rng, rng.randint(1, 3), tasks=rng.choice([1, 3, 12]))
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    out, error = lib.read_all(stream, header=header)
    ctx.check(error is None and len(out) == len(log.samples), "1.26 cannot be read: %r", error)
    watched = Watched(ctx)
    watched.add("header", header, "Header", lay)
    for i, (record, sstat, tstats, _) in enumerate(out):
        watched.add("record %d" % i, record, "Record", lay)
        watched.add("sstat %d" % i, sstat, "SStat", lay)
        for j, t in enumerate(tstats):
            watched.add("task %d.%d" % (i, j), t, "TStat", lay)
    identities = [[id(t) for t in got[2]] for got in out]
    lists = [got[2] for got in out]

    def model_rows(fmt, i):
        """From the structures' current memory."""
        record, sstat, tstats, _ = out[i]
        return rows.rows(fmt, lib.raw(header), lib.raw(record), lib.raw(sstat), [lib.raw(t) for t in tstats])

    live, results, trace = [], [], []
    for _ in range(120 if not ctx.thorough else 250):
        op = rng.choice(["open", "open", "step", "step", "step", "drain", "abandon", "spoil", "edit"])
        trace.append(op)
        if op == "open" and len(live) < 6:
            i, fmt = rng.randrange(len(out)), rng.choice(rows.FORMATS)
            record, sstat, tstats, _ = out[i]
            live.append([fmt, i, iter(parser(fmt)(header, record, sstat, tstats)), model_rows(fmt, i), 0])
            ctx.count("generators")
        elif op in ("step", "drain") and live:
            g = rng.choice(live)
            for _k in range(1 << 20 if op == "drain" else rng.choice([1, 1, 5])):
                row = next(g[2], None)
                if row is None:
                    if g[4] != len(g[3]):
                        raise Violation("%s of sample %d ends after %d rows instead of %d" % (g[0], g[1], g[4], len(g[3])))
                    live.remove(g)
                    break
                if g[4] >= len(g[3]):
                    raise Violation("%s of sample %d gives more than %d rows" % (g[0], g[1], len(g[3])))
                d = lib.differ(row, g[3][g[4]], order=False)
                if d:
                    raise Violation("%s of sample %d, row %d after %s%s" % (g[0], g[1], g[4], trace[-8:], d))
                g[4] += 1
                ctx.count("row_steps")
                ctx.count("evaluations")
                if rng.random() < 0.3:
                    row.clear()
                    ctx.count("spoiled_results")
                elif rng.random() < 0.2:
                    row["parseable"] = g[0]
                    row["timestamp"] = "spoiled"
                    ctx.count("spoiled_results")
                elif len(results) < 3000:
                    results.append((row, copy.deepcopy(row), g[0]))
        elif op == "abandon" and live:
            g = live.pop(rng.randrange(len(live)))
            if hasattr(g[2], "close") and rng.random() < 0.5:
                g[2].close()
            ctx.count("abandoned")
        elif op == "edit" and not live:
            edit_rows(ctx, rng, rng.choice(watched.items))
        watched.verify(op)
        for tstats, ids in zip(lists, identities):
            if [id(t) for t in tstats] != ids:
                raise Violation("the list of tasks was changed by %s" % op)
    for row, before, fmt in results:
        if row != before:
            raise Violation("a row of %s changed after it was delivered: %s" % (fmt, lib.short(row)))
    check_sharing(ctx, [r[0] for r in results])
    # All rows at once, after all that.
    for i, (record, sstat, tstats, _) in enumerate(out):
        for fmt in rng.sample(rows.FORMATS, 5):
            have = list(parser(fmt)(header, record, sstat, tstats))
            d = lib.differ(have, model_rows(fmt, i), order=False)
            if d:
                raise Violation("%s of sample %d at the end%s" % (fmt, i, d))
    ctx.seen("rows", trace)
    ctx.sample({"operations": trace[:20], "rows kept": len(results)})


def current(ctx):
    """Every field in turn is assigned to between two conversions; rows and dictionaries say what is there now."""
    rng = ctx.rng
    lay = rows.LAY
    log = gen126.log(rng, 1, tasks=2)
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    (record, sstat, tstats, _), = list(atoparser.generate_statistics(stream, header))

    def look(what, formats, parts):
        for fmt in formats:
            want = rows.rows(fmt, lib.raw(header), lib.raw(record), lib.raw(sstat), [lib.raw(t) for t in tstats])
            d = lib.differ(list(parser(fmt)(header, record, sstat, tstats)), want, order=False)
            if d:
                raise Violation("%s after assigning to %s%s" % (fmt, what, d))
            ctx.count("row_steps", len(want))
        for part, obj in parts:
            d = lib.differ(atoparser.struct_to_dict(obj), lay.part_dict(part, lib.raw(obj)))
            if d:
                raise Violation("%s after assigning to %s%s" % (part, what, d))
            ctx.count("conversions")
        ctx.count("evaluations")

    parts = [("Header", header), ("Record", record), ("TStat", tstats[0]), ("TStat", tstats[-1]), ("SStat", sstat)]
    look("nothing", rows.FORMATS, parts)
    for part, obj in parts:
        counts = {c for lim in lay.limits.values() for c in lim.values()}
        leaves = [x for x in lay.leaves(lay.top[part]) if x[1] not in ("str", "ch") and x[0][-1] not in counts and x[0][-1] != "nrcpu"]
        if part == "SStat":  # The first elements, and some of all others.
            front = [x for x in leaves if all(not isinstance(k, int) or k < 2 for k in x[0])]
            leaves = rng.sample(front, min(len(front), 40)) + rng.sample(leaves, 10)
        rng.shuffle(leaves)
        for path, kind, _off, _size in leaves:
            target = obj
            for step in path[:-1]:
                target = target[step] if isinstance(step, int) else getattr(target, step)
            if kind in model.RANGES:
                lo, hi = model.RANGES[kind]
                old = target[path[-1]] if isinstance(path[-1], int) else getattr(target, path[-1])
                flipped = hi - old + lo  # All bits.
                value = flipped if part in ("Header", "Record") or rng.random() < 0.3 else rng.choice(
                    [v for v in (0, 1, hi, lo, flipped, old ^ 1) if lo <= v <= hi and v != old])
            else:
                value = gen.number(rng, kind)
            if isinstance(path[-1], int):
                target[path[-1]] = value
            else:
                setattr(target, path[-1], value)
            look("%s.%s" % (part, ".".join(map(str, path))), rows.FORMATS if part in ("Header", "Record") else rng.sample(rows.FORMATS, 6), [(part, obj)])
            ctx.count("current_fields")
            ctx.seen("current", part, path)


def many(ctx, n):
    """Very many tasks, in no order: rows leave them as they are, twice."""
    rng = ctx.rng
    lay = rows.LAY
    log = gen126.log(rng, 1, tasks=0)
    few = [gen.blob(rng, lay, "TStat", "dense") for _ in range(20)]
    tasks = []
    for _ in range(n):
        t = bytearray(rng.choice(few))
        lay.put(t, "TStat", ("gen", "pid"), rng.randrange(1, 32768))
        tasks.append(bytes(t))
    log.samples[0].tstats = tasks
    log.samples[0].how = [{"level": 1}] * 4
    log.build()
    stream = io.BytesIO(log.data)
    header = atoparser.get_header(stream)
    (record, sstat, tstats, _), = list(atoparser.generate_statistics(stream, header))
    order = list(tstats)
    for fmt in rng.sample(rows.FORMATS, len(rows.FORMATS)):
        first = list(parser(fmt)(header, record, sstat, tstats))
        d = lib.differ(first, rows.rows(fmt, log.header, bytes(log.samples[0].record), log.samples[0].sstat, tasks), order=False)
        if d:
            raise Violation("%s with %d tasks%s" % (fmt, n, d))
        if fmt in rows.FORMATS[-8:] and list(parser(fmt)(header, record, sstat, tstats)) != first:
            raise Violation("%s with %d tasks: other rows the second time" % (fmt, n))
        if len(tstats) != n or any(a is not b for a, b in zip(tstats, order)):
            raise Violation("%s changed the list of %d tasks" % (fmt, n))
        ctx.count("row_steps", len(first))
        ctx.count("evaluations")
    for i, (t, raw) in enumerate(zip(tstats, tasks)):
        lib.check_bytes("task %d of %d after all rows" % (i, n), t, raw)
    for what, obj, raw in (("header", header, log.header), ("record", record, bytes(log.samples[0].record)), ("sstat", sstat, log.samples[0].sstat)):
        lib.check_bytes("the %s after all rows" % what, obj, raw)
    ctx.count("many_tasks")
    ctx.seen("many", n)


def edit_rows(ctx, rng, entry):
    """As edit(), but without touching names that end a list of devices, counts, and duplex."""
    lay, part, obj = entry[4], entry[3], entry[1]
    every = [x for x in lay.leaves(lay.top[part]) if x[1] not in ("str", "ch") and x[0][-1] not in ("nrcpu",)]
    for _ in range(rng.randint(1, 6)):
        path, kind, _off, _size = rng.choice(every)
        target = obj
        for step in path[:-1]:
            target = target[step] if isinstance(step, int) else getattr(target, step)
        value = gen.number(rng, kind)
        if isinstance(path[-1], int):
            target[path[-1]] = value
        else:
            setattr(target, path[-1], value)
    entry[2] = lib.raw(obj)
    ctx.count("edits")


def run(ctx, kind, p):
    if kind == "current":
        current(ctx)
    elif kind == "many":
        many(ctx, p["n"])
    elif kind == "convert":
        convert(ctx, ctx.rng, p)
    else:
        run_rows(ctx, ctx.rng)
