"""What envprobe.py must observe, computed from the stored bytes."""
import hashlib
import json

from vf import lib, rows


def digest(text):
    return hashlib.sha256(text.encode("utf-8", "surrogatepass")).hexdigest()[:24]


def expected(log, n, end, formats, has_header=True):
    lay = log.layout
    if not has_header:
        return {"samples": [], "end": end}
    out = {"samples": [], "end": end, "version": log.version,
           "header": digest(log.header.hex() + json.dumps(lay.part_dict("Header", log.header)))}
    for s in log.samples[:n]:
        rec = bytes(s.record)
        one = {"record": digest(rec.hex() + json.dumps(lay.part_dict("Record", rec))), "sstat": digest(s.sstat.hex()),
               "sstat dictionary": digest(json.dumps(lay.part_dict("SStat", s.sstat))),
               "tasks": [digest(t.hex() + json.dumps(lay.part_dict("TStat", t))) for t in s.tstats],
               "cgroups": [digest(c.hex() + repr(list(pids)) + json.dumps(lib.cgroup_dict(lay, c, pids))) for c, _n, pids in s.cgroups]}
        for fmt in formats:
            one["rows " + fmt] = digest(json.dumps(rows.rows(fmt, log.header, rec, s.sstat, s.tstats), sort_keys=True))
        out["samples"].append(one)
    return out
