"""Reference layouts from the C headers in cref/, as the C compiler lays them out.

parse_header() only lists structure and member names; every offset, size, width and signedness comes from compiling and
running a probe (offsetof, sizeof, _Generic), so nothing here shares a rule with ctypes.
"""
import json
import os
import re
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CREF = os.path.join(ROOT, "cref")
LAYOUTS = os.path.join(ROOT, "layouts")
VERSIONS = ["1.26", "2.3", "2.4", "2.5", "2.6", "2.7", "2.8", "2.9", "2.10", "2.11", "2.12"]

# struct -> {array member: member holding its live count}
LIMITS = {
    "CPUStat": {"cpu": "nrcpu"},
    "DSKStat": {"dsk": "ndsk", "mdd": "nmdd", "lvm": "nlvm"},
    "IntfStat": {"intf": "nrintf"},
    "NFSMounts": {"nfsmnt": "nrmounts"},
    "ContStat": {"cont": "nrcontainer"},
    "GPUStat": {"gpu": "nrgpus"},
    "IFBStat": {"ifb": "nrports"},
    "MemNUMA": {"numa": "nrnuma"},
    "CPUNUMA": {"numa": "nrnuma"},
    "LLCStat": {"perllc": "nrllcs"},
}


def header_path(version):
    return os.path.join(CREF, "atop_%s.h" % version.replace(".", "_"))


def parse_header(version):
    """[(struct, [(member, is_struct, is_array)])] in file order, and {top: struct}."""
    text = open(header_path(version)).read()
    structs = []
    for name, body in re.findall(r"struct (\w+) \{\n(.*?)\n\};", text, re.S):
        members = []
        for line in body.splitlines():
            typ, member, dim = re.match(r"\t([\w ]+?) (\w+)((?:\[\d+\])*);", line).groups()
            members.append((member, typ[7:] if typ.startswith("struct ") else None, bool(dim)))
        structs.append((name, members))
    tops = dict(re.findall(r"#define TOP_(\w+) (\w+)", text))
    return structs, tops


PRELUDE = """
#include <stdio.h>
#include <stddef.h>
#include "%s"
#define KIND(e) _Generic((e), char:"ch", signed char:"i1", unsigned char:"u1", short:"i2", unsigned short:"u2", \\
  int:"i4", unsigned int:"u4", long:"i8", unsigned long:"u8", long long:"i8", unsigned long long:"u8", float:"f4", \\
  double:"f8", default:"?")
int main(void) {
"""


def probe_source(version):
    structs, _ = parse_header(version)
    out = [PRELUDE % header_path(version)]
    for name, members in structs:
        out.append('{ static struct %s s; printf("S %s %%zu\\n", sizeof s);' % (name, name))
        for member, sub, is_array in members:
            elem = "s.%s[0]" % member if is_array else "s.%s" % member
            kind = '"st:%s"' % sub if sub else "KIND(%s)" % elem
            count = "(long)(sizeof s.%s / sizeof %s)" % (member, elem) if is_array else "-1L"
            out.append('printf("F %s %%s %%zu %%zu %%ld\\n", %s, offsetof(struct %s, %s), sizeof(%s), %s);'
                       % (member, kind, name, member, elem, count))
        out.append("}")
    out.append("return 0; }\n")
    return "\n".join(out)


def probe(version, workdir):
    """Compile and run the probe; the layout as stored in layouts/<version>.json."""
    src = os.path.join(workdir, "probe_%s.c" % version)
    exe = src[:-2]
    with open(src, "w") as f:
        f.write(probe_source(version))
    subprocess.run(["gcc", "-w", "-o", exe, src], check=True, timeout=120)
    text = subprocess.run([exe], check=True, capture_output=True, text=True, timeout=60).stdout
    structs, current = {}, None
    for line in text.splitlines():
        part = line.split()
        if part[0] == "S":
            current = part[1]
            structs[current] = {"size": int(part[2]), "fields": []}
        else:
            member, kind, offset, size, count = part[1], part[2], int(part[3]), int(part[4]), int(part[5])
            count = None if count < 0 else count
            if kind == "ch" and count is not None:
                kind, size, count = "str", count, None
            assert kind != "?"
            structs[current]["fields"].append([member, kind, offset, size, count])
    _, tops = parse_header(version)
    for name, limits in LIMITS.items():
        if name in structs:
            structs[name]["limits"] = limits
    return {"version": version, "structs": structs, "top": tops}


def store(layout):
    with open(os.path.join(LAYOUTS, layout["version"] + ".json"), "w") as f:
        f.write('{"version": %s,\n "top": %s,\n "structs": {\n' % (json.dumps(layout["version"]), json.dumps(layout["top"])))
        rows = []
        for name, s in layout["structs"].items():
            rows.append('  %s: {"size": %d, "limits": %s, "fields": [\n    %s]}' % (
                json.dumps(name), s["size"], json.dumps(s.get("limits", {})),
                ",\n    ".join(json.dumps(f) for f in s["fields"])))
        f.write(",\n".join(rows) + "\n}}\n")


if __name__ == "__main__":
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        for v in VERSIONS:
            store(probe(v, d))
