"""A C producer: logs written by a compiled C program that assigns every member by name and calls zlib's compress().

It knows no offsets: the C compiler places the members. The Python side only knows the order of the members, and that the
n-th leaf of a structure was given mix(seed + n).
"""
import os
import subprocess

from vf import clayout, model

MASK = (1 << 64) - 1


def mix(x):
    x = (x + 0x9E3779B97F4A7C15) & MASK
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & MASK
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & MASK
    return x ^ (x >> 31)


SOURCE_HEAD = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <zlib.h>
#include "%s"
static uint64_t counter;
static uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
static uint64_t next(void) { return mix(counter++); }
static void text(char *p, size_t n) {
  uint64_t v = next();
  char b[32];
  if (n == 0) return;
  snprintf(b, sizeof b, "%%llx", (unsigned long long)v);
  size_t m = strlen(b);
  if ((v & 3) == 0) m = n; /* fills the array, no terminator */
  for (size_t i = 0; i < n; i++) p[i] = i < m ? b[i %% strlen(b)] : (i == m ? 0 : 'J');
}
#define NUM(e) ((e) = _Generic((e), float: (double)(int32_t)next() / 1024.0, default: next()))
#define CH(e) ((e) = 33 + (char)(next() %% 90))
"""


def source(version):
    structs, tops = clayout.parse_header(version)
    lay = model.layout(version)
    out = [SOURCE_HEAD % clayout.header_path(version)]
    for name, members in structs:
        out.append("static void fill_%s(struct %s *p) {" % (name, name))
        for f, (member, sub, is_array) in zip(lay.fields[name], members):
            assert f.name == member
            if sub and is_array:
                out.append("  for (size_t i = 0; i < sizeof p->%s / sizeof p->%s[0]; i++) fill_%s(&p->%s[i]);" % (
                    member, member, sub, member))
            elif sub:
                out.append("  fill_%s(&p->%s);" % (sub, member))
            elif f.kind == "str":
                out.append("  text(p->%s, sizeof p->%s);" % (member, member))
            elif f.kind == "ch":
                out.append("  CH(p->%s);" % member)
            elif is_array:
                out.append("  for (size_t i = 0; i < sizeof p->%s / sizeof p->%s[0]; i++) NUM(p->%s[i]);" % (
                    member, member, member))
            else:
                out.append("  NUM(p->%s);" % member)
        out.append("}")
    t = {k: "struct " + v for k, v in tops.items()}
    task_len = "tstatlen" if lay.has("Header", "tstatlen") else "pstatlen"
    count = "ndeviat" if lay.has("Record", "ndeviat") else "nlist"
    out.append("static unsigned char *zip(const void *d, unsigned long n, unsigned long *m) { *m = compressBound(n); "
               "unsigned char *b = malloc(*m); if (compress(b, m, d, n) != Z_OK) exit(9); return b; }")
    out.append("int main(int argc, char **argv) {")
    out.append("  int samples = atoi(argv[1]), tasks = atoi(argv[2]), groups = atoi(argv[3]); counter = strtoull(argv[4], 0, 10);")
    out.append("  static %s h; static %s r; static %s s; %s *t = calloc(tasks + 1, sizeof *t);" % (
        t["Header"], t["Record"], t["SStat"], t["TStat"]))
    out.append("  FILE *o = fopen(argv[5], \"wb\"); if (!o) return 8;")
    out.append("  fill_%s(&h); h.magic = 0xfeedbeef; h.aversion = %d; h.rawheadlen = sizeof h; h.rawreclen = sizeof r;" % (
        tops["Header"], 0x8000 | int(version.split(".")[0]) << 8 | int(version.split(".")[1])))
    out.append("  h.sstatlen = sizeof s; h.%s = sizeof *t;" % task_len)
    if lay.has_cgroups:
        out.append("  h.cstatlen = sizeof(%s);" % t["CStat"])
    out.append("  fwrite(&h, sizeof h, 1, o);")
    out.append("  for (int n = 0; n < samples; n++) {")
    out.append("    unsigned long sl, tl; fill_%s(&r); fill_%s(&s);" % (tops["Record"], tops["SStat"]))
    out.append("    for (int i = 0; i < tasks; i++) fill_%s(&t[i]);" % tops["TStat"])
    out.append("    unsigned char *sb = zip(&s, sizeof s, &sl), *tb = zip(t, tasks * sizeof *t, &tl);")
    out.append("    r.scomplen = sl; r.pcomplen = tl; r.%s = tasks;" % count)
    if lay.has_cgroups:
        out.append("    unsigned long cl, il; int pids = 0; size_t used = 0; char *cb = calloc(groups + 1, sizeof(%s) + 64);" % t["CStat"])
        out.append("    int *pl = calloc(groups * groups + 1, sizeof(int));")
        out.append("    for (int i = 0; i < groups; i++) { %s c; fill_%s(&c);" % (t["CStat"], tops["CStat"]))
        out.append("      c.gen.structlen = sizeof c + 8 * (i % 5); c.gen.nprocs = i;")
        out.append("      memcpy(cb + used, &c, sizeof c); used += c.gen.structlen;")
        out.append("      for (int k = 0; k < i; k++) pl[pids++] = (int)next(); }")
        out.append("    unsigned char *gz = zip(cb, used, &cl), *iz = zip(pl, pids * sizeof(int), &il);")
        out.append("    r.ncgroups = groups; r.ccomplen = cl; r.coriglen = used; r.ncgpids = pids; r.icomplen = il;")
    out.append("    fwrite(&r, sizeof r, 1, o); fwrite(sb, 1, sl, o); fwrite(tb, 1, tl, o);")
    if lay.has_cgroups:
        out.append("    fwrite(gz, 1, cl, o); fwrite(iz, 1, il, o);")
    out.append("  }")
    out.append("  return fclose(o); }")
    return "\n".join(out) + "\n"


def build(version, folder):
    src = os.path.join(folder, "prod_%s.c" % version)
    with open(src, "w") as f:
        f.write(source(version))
    subprocess.run(["gcc", "-w", "-O1", "-o", src[:-2], src, "-lz"], check=True, timeout=200)
    return src[:-2]


class Expected:
    """Replays the producer's assignments, leaf by leaf."""

    def __init__(self, seed):
        self.counter = seed

    def next(self):
        v = mix(self.counter & MASK)
        self.counter += 1
        return v

    def value(self, f):
        if f.kind == "str":
            if f.size == 0:
                self.next()
                return b""
            v = self.next()
            b = b"%x" % v
            m = f.size if v & 3 == 0 else len(b)
            return bytes(b[i % len(b)] for i in range(min(m, f.size)))
        v = self.next()
        if f.kind == "ch":
            return bytes([33 + v % 90])
        if f.kind == "f4":
            w = v & 0xFFFFFFFF
            w = w - (1 << 32) if w >> 31 else w
            import struct
            return struct.unpack("<f", struct.pack("<f", w / 1024.0))[0]
        bits = f.size * 8
        w = v & ((1 << bits) - 1)
        return w - (1 << bits) if f.kind[0] == "i" and w >> (bits - 1) else w

    def leaves(self, lay, name, prefix=()):
        """Yields (path, field, value) in the producer's order, reserved members included."""
        for f in lay.fields[name]:
            for i in range(1 if f.count is None else f.count):
                path = prefix + ((f.name,) if f.count is None else (f.name, i))
                if f.sub:
                    yield from self.leaves(lay, f.sub, path)
                else:
                    yield path, f, self.value(f)
