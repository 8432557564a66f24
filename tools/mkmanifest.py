"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "P01": ("acceptance decided online against a C-layout header model",
         "Held on the header bytes tried: every truncation, every version code, single and combined perturbations of each length field, random headers. Trusts the C headers in cref/ and the C compiler's layout."),
 "P02": ("decoded attributes compared with an independent C decoder, including memory written by a compiled C producer",
         "Every named field and array element of every struct of every version is exercised with boundary and random values. Trusts cref/ as atop's definitions."),
 "P03": ("delivery monitor comparing every yielded sample with the stored bytes",
         "Held on the generated logs (counts up to 70001 tasks, 65535 cgroups, thousands of samples, all compression forms)."),
 "P04": ("pid conservation monitor over the cgroups of each sample",
         "Held on the generated cgroup shapes: names of any length, 0 to thousands of pids, absent cgroup or pid data."),
 "P05": ("fault injection at every byte with a prefix oracle",
         "All cut positions of small logs and all boundaries of larger ones are enumerated; corruptions are enumerated per byte of each block. Cuts inside a record may end either way, as the property allows."),
 "P06": ("line-step budget, crash and exception monitor over hostile inputs",
         "Held on the mutated and generated hostile files; work is counted in executed lines of the package, not in time."),
 "P07": ("converted dictionaries compared with a model decoder, live counts swept, JSON round trip",
         "Every live count of every version is swept from zero to beyond capacity; live counts below zero are left out (atop never stores them)."),
 "P08": ("shadow copies re-compared after every operation; deterministic and free thread schedules; storage overlap monitor",
         "Held on the histories and interleavings run; interleavings are decided at line and opcode granularity in the package."),
 "P09": ("stdout of the command parsed and compared with the model's entries",
         "Held on the generated file sets and option sets, in process and as separate processes."),
 "P10": ("rows compared with an independent table of the parseable formats",
         "The table was written from atop's format definitions; every format is run over generated 1.26 samples."),
 "P11": ("stdout in parseable mode compared with the model's row sequence",
         "Held on generated format sequences and file mixes, in process and as separate processes."),
 "P12": ("differential monitor over 26 kinds of binary streams and the command's plain and gzip inputs",
         "Streams give all bytes asked for unless they end first, as io.BufferedIOBase specifies."),
 "P13": ("step and bulk histories on one stream, position compared after every step",
         "Held on the generated histories of steps, partial bulk readings and hand-overs."),
 "P14": ("interpreter audit events, stream calls, file trees and descriptors compared before and after",
         "Audit events cover what Python code can do without native extensions; the package has none."),
 "P15": ("traced stream position at every yield, starved streams, traced memory and weak references",
         "Memory is what tracemalloc and the collector see, over thousands of samples of four versions (all in the thorough tier)."),
 "P16": ("delivered count and stream position at the limit, endless streams",
         "Limits from 0 to 2^63 on stored logs; the default limit on endless and on stored logs longer than it."),
 "P17": ("structure memory shadowed over histories of conversions, interleaved row generators and spoiled results",
         "Held on the generated histories over all versions and all 16 parseable formats."),
 "P18": ("exit status and stdout of commands with failing files, wrong usage and failing output compared with the model",
         "Held on the generated file lists and command lines; seventeen kinds of failing file."),
 "P19": ("fault injection at bytes of the stream, identity of the exception that arrives and prefix oracle",
         "All structural boundaries and bytes around them, random bytes, 28 exception types. ValueErrors of the stream itself are left out (the package may wrap them)."),
 "P20": ("growing files and streams: prefix oracle per look, continuation oracle over kept streams, live writers bounded by the sizes before and after",
         "Pieces end at and around all structural boundaries and at random bytes. Stream kinds: memory, buffered, unbuffered, read-write."),
 "P21": ("results of separate processes under many interpreter switches, variables and states compared with the model, command output likewise",
         "78 single surroundings and random combinations of them; one interpreter version (3.12) and one host are available."),
 "P22": ("cpu time, executed lines and traced memory of each operation compared between a log and one sixteen times as large, early and late costs of histories",
         "Growth is measured between two sizes per dimension (three in the thorough tier); faster growth that costs less than four times the proportional time and 0.15 s at those sizes is not seen."),
 "P23": ("exceptions injected at every point where CPython lets one arrive, by timer signals and by other threads; identity, prefix, state and after-use oracles",
         "All such points of short operations, chosen ones of long ones (conversions of system statistics, the command). The points are those of CPython 3.12."),
}
FAULT = {"P05", "P19", "P23"}
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
       "notes": "No hooks: the checks import the package from /repo's working tree and observe it at its boundary. "
                "known-findings.txt lists the repaired defects."}
for pid, (technique, note) in CHECKS.items():
    out["checks"].append({"property": pid, "quick_cmd": "bash check.sh " + pid,
                          "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + pid,
                          "evidence_file": "evidence/%s.json" % pid,
                          "technique": "runtime monitoring: " + technique,
                          "level": "fault_enumeration" if pid in FAULT else "exploration", "level_note": note})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
