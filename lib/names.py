"""Recording and validating names of languages and highlight types (C13, C14)."""
import glob
import json
import os
import re
import struct
import subprocess

import vlib


def record(inputs, tag):
    b = vlib.build(["names"], "asan")["names"]
    ip, out = os.path.join(vlib.BUILD, "names-%s.in" % tag), os.path.join(vlib.BUILD, "names-%s.out" % tag)
    with open(ip, "wb") as f:
        for s in inputs:
            f.write(struct.pack("<I", len(s)) + s)
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    r = subprocess.run([b, out, str(vlib.NCPU), ip], env=e, capture_output=True, timeout=600)
    if r.returncode != 0:
        raise vlib.CheckError("names driver failed: %r" % r.stderr[-1000:])
    rows, crashes = [], []
    for l in open(out, encoding="utf-8", errors="replace"):
        l = l.strip()
        if l:
            try:
                x = json.loads(l)
            except ValueError:
                continue
            (crashes if "crash" in x else rows).append(x)
    return rows, crashes


def validate(run, module, rows, tag, count=True):
    p = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
    with open(p, "w") as f:
        for x in rows:
            f.write(json.dumps(x) + "\n")
    r = vlib.tlc(module, "SPECIFICATION Spec\n", env={"TRACE": p}, tag=tag)
    if count:
        run.add_tlc(r)
        run.traces += len(rows)
    os.remove(p)
    return [rows[int(re.match(r'<<"REJECT", (\d+)', l).group(1)) - 1] for l in r.prints if "REJECT" in l]


def decide(run, module, get_rows, key):
    """get_rows(tag) -> (rows, crashes); records and validates, and does so again if rejected."""
    rows, crashes = get_rows("1")
    rej = crashes or validate(run, module, rows, run.prop)
    for x in rows[:: max(1, len(rows) // 5)]:
        run.sample(x)
    if rej:
        rows2, crashes2 = get_rows("2")
        rej2 = crashes2 or validate(run, module, rows2, run.prop + "-again", False)
        ks = {key(x) for x in rej}
        both = [x for x in rej2 if key(x) in ks]
        if not both:
            raise vlib.CheckError("rejections did not repeat")
        for x in both[:200]:
            run.violation(key(x), json.dumps(x)[:300], x)
    return rows
