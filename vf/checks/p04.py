"""P04: cgroups and their pid lists."""
import collections
import io

import atoparser
from vf import gen, lib, model
from vf.checks.p03 import block_log
from vf.harness import Violation

RULE = ("Generated 2.11/2.12 samples with 0 to thousands of cgroups, every name length from 0 to 130 and random ones beyond, "
        "any pid values including repeated and extreme ones, pid counts 0 to thousands, trees of any shape, samples without "
        "cgroup data and without pid data, blocks of up to 17 MB and more. Statistics and pid lists are compared with the stored partition, and the pids of "
        "a sample are conserved as a multiset. Distinct by (name lengths, pid counts) of the sample; non-trivial with at "
        "least two cgroups.")
REQUIRE = {"cgroups_compared": 3000, "pids_compared": 10000, "samples_without_cgroups": 20, "dicts_compared": 1000, "related_sizes": 200}

GIVE_UP = {"block": 90}


def cases(tier):
    out = []
    for v in model.CGROUP_VERSIONS + ("2.13", "2.2"):
        out += [("lengths", {"v": v}), ("none", {"v": v}), ("tree", {"v": v}), ("bigpids", {"v": v}), ("sizes", {"v": v})]
        for i in range(40 if tier == "quick" else 700):
            out.append(("random", {"v": v, "i": i}))
    for part, size, v in [("groups", 17, "2.12"), ("groups", 2, "2.11"), ("pids", 1, "2.12"), ("pids", 17, "2.11")] + (
            [] if tier == "quick" else [("pids", 66, "2.12"), ("pids", 33, "2.11"), ("groups", 9, "2.11")]):
        out.append(("block", {"v": v, "part": part, "mb": size}))
    for v in model.VERSIONS[:9]:
        out.append(("old", {"v": v}))
    return out


def verify(ctx, log, dicts=True):
    out, error = lib.read_all(io.BytesIO(log.data))
    ctx.count("evaluations")
    if error is not None or len(out) != len(log.samples):
        raise Violation("%s: %d of %d samples, %r" % (log.version, len(out), len(log.samples), error))
    lay = log.layout
    for i, (got, s) in enumerate(zip(out, log.samples)):
        what = "%s sample %d" % (log.version, i)
        groups = got[3]
        lib.check_cgroups(what, groups, s.cgroups)
        have = collections.Counter(p for g in groups for p in g.proclist)
        want = collections.Counter(p for _c, _n, ps in s.cgroups for p in ps)
        if have != want:
            raise Violation("%s: pids lost %s, added %s" % (what, list((want - have))[:5], list((have - want))[:5]))
        ctx.count("pids_compared", sum(want.values()))
        ctx.count("cgroups_compared", len(groups))
        if s.omit_cgroups:
            ctx.count("samples_without_cgroups")
        if len(groups) > 1:
            ctx.seen(log.version, [(len(n), len(p)) for _c, n, p in s.cgroups])
        for j, (g, (c, n, ps)) in enumerate(zip(groups, s.cgroups)):
            if len(g.proclist) != len(ps):
                raise Violation("%s cgroup %d: length of the pid list" % (what, j))
            if j < 60:
                name = "%s cgroup %d" % (what, j)
                lib.check_fields(name, g.cstat, lay, lay.top["CStat"], c)
                if dicts:
                    d = lib.differ(atoparser.struct_to_dict(g), {"cstat": atoparser.struct_to_dict(g.cstat), "proclist": ps})
                    if d:
                        raise Violation("%s as a dictionary: %s" % (name, d))
                    ctx.count("dicts_compared")
        # The single-step function gives the same.
        stream = io.BytesIO(log.data[s.offsets[3]:s.offsets[5]])
        header = atoparser.get_header(io.BytesIO(log.header))
        again = atoparser.get_cstat(stream, header, got[0])
        lib.check_cgroups(what + " by get_cstat", again, s.cgroups)
        if stream.read(1):
            raise Violation("%s: get_cstat left bytes of the pid list" % what)


def make(ctx, version, groups_list, **how):
    rng = ctx.rng
    lay = model.layout(version)
    samples = []
    for groups in groups_list:
        s = gen.sample(rng, lay, tasks=rng.randint(0, 2), groups=0, style="zero")
        s.omit_cgroups = s.omit_pids = False
        s.cgroups = groups
        for k, v in how.items():
            setattr(s, k, v)
        s.loose = {}
        gen.loosen(rng, s)
        samples.append(s)
    return model.Log(version, gen.header(rng, version), samples)


def group(rng, lay, name, pids, **fields):
    c = bytearray(gen.blob(rng, lay, "CStat", rng.choice(["random", "dense", "zero", "ones"])))
    for k, v in fields.items():
        lay.put(c, "CStat", ("gen", k), v)
    lay.put(c, "CStat", ("gen", "structlen"), len(c) + len(name))
    lay.put(c, "CStat", ("gen", "nprocs"), len(pids))
    return bytes(c), name, list(pids)


def run(ctx, kind, p):
    rng = ctx.rng
    v = p["v"]
    lay = model.layout(v)
    if kind == "block":
        verify(ctx, block_log(rng, v, p["part"], p["mb"]), False)
        ctx.count("large_block_megabytes", p["mb"])
    elif kind == "old":
        log = gen.log(rng, v, 3)
        out, error = lib.read_all(io.BytesIO(log.data))
        ctx.count("evaluations")
        ctx.check(error is None and len(out) == 3, "%s is not read", v)
        for got in out:
            ctx.check(list(got[3]) == [], "%s has cgroups", v)
    elif kind == "lengths":
        # Every length alone between two neighbours, and all of them in one sample.
        everyone = []
        for ln in list(range(0, 131)) + [255, 256, 257, 1000, 4096, 70000]:
            name = rng.randbytes(ln)
            g = group(rng, lay, name, [ln + k for k in range(ln % 4)])
            everyone.append(g)
            if ln < 131 and (ln % 8 < 2 or ctx.thorough):
                verify(ctx, make(ctx, v, [[group(rng, lay, b"", [1]), g, group(rng, lay, b"tail", [2, 3])]]), ln % 16 == 0)
        verify(ctx, make(ctx, v, [everyone, list(reversed(everyone)), everyone[:1]]))
        ctx.sample({"version": v, "name lengths": [len(n) for _c, n, _p in everyone][:20]})
    elif kind == "none":
        for omit_pids in (False, True):
            for omit in (False, True):
                verify(ctx, make(ctx, v, [[], [], []], omit_cgroups=omit, omit_pids=omit_pids))
        # Samples with and without cgroup data take turns.
        log = make(ctx, v, [[group(rng, lay, b"x" * i, range(i))] * (i % 3) for i in range(20)])
        for s in log.samples:
            if not s.cgroups:
                s.omit_cgroups = rng.random() < 0.5
        log.build()
        verify(ctx, log)
        # Cgroups, but no process in any of them.
        for omit_pids in (False, True):
            verify(ctx, make(ctx, v, [[group(rng, lay, b"n" * k, []) for k in range(9)]] * 2, omit_pids=omit_pids))
    elif kind == "tree":
        # Depth-first trees as atop stores them: parent index, depth, sequence numbers.
        for n in (1, 2, 5, 40, 300):
            groups, depth, path = [], 0, [0]
            for i in range(n):
                depth = 0 if i == 0 else rng.randint(1, depth + 1)
                path = path[:depth] + [i]
                fields = {}
                for f in lay.fields["CGGen"]:
                    if f.name in ("sequence", "seqnr"):
                        fields[f.name] = i
                    elif f.name in ("parentseq", "parent"):
                        fields[f.name] = path[depth - 1] if depth else 0
                    elif f.name == "depth":
                        fields[f.name] = depth
                    elif f.name == "namelen":
                        fields[f.name] = 8
                pids = [1000 * i + k for k in range(rng.choice([0, 0, 1, 3]))]
                groups.append(group(rng, lay, b"name%04d" % i, pids, **fields))
            verify(ctx, make(ctx, v, [groups, groups[::-1]]))
    elif kind == "bigpids":
        special = [0, 1, -1, 2**31 - 1, -2**31, 65535, 65536, 32767, 32768, 4194304]
        groups = [group(rng, lay, b"a" * 8, special), group(rng, lay, b"", []), group(rng, lay, b"b", special * 3),
                  group(rng, lay, b"c" * 16, [7] * 50), group(rng, lay, b"d" * 3, range(5000)), group(rng, lay, b"", [1])]
        for _ in range(6):
            rng.shuffle(groups)
            verify(ctx, make(ctx, v, [list(groups)]))
        verify(ctx, make(ctx, v, [[group(rng, lay, b"big", range(70000)), group(rng, lay, b"", [5, 6])]]))
    elif kind == "sizes":
        # Sizes that are the same but for their upper part, next to each other.
        for power in (7, 8, 10, 12, 15, 16):
            few = rng.sample(range(5), 2)
            sizes = few + [n + (1 << power) for n in few] + [(1 << power) - 1]
            for _ in range(2):
                rng.shuffle(sizes)
                verify(ctx, make(ctx, v, [[group(rng, lay, rng.randbytes(rng.randint(0, 20)), range(rng.randrange(1000), 10 ** 6)[:n]) for n in sizes]]), False)
                ctx.count("related_sizes", len(sizes))
    else:
        verify(ctx, make(ctx, v, [gen.cgroups(rng, lay, rng.choice([0, 1, 2, 3, 10, 50])) for _ in range(rng.randint(1, 4))]))
