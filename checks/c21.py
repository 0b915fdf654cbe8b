"""C21: line diffs."""
import itertools
import json
import os
import re
import struct
import subprocess

import vlib
from vlib import CheckError

LINES = [b"a", b"b", b"c", b"", b"\ta\rb", b"-a", b"+", b"a b", b"\xc3\xa4", b"@@ -1,1 +1,1 @@", b"x\vy\t", b"a\r", b" ", b"\t\t", b"ab" * 20]


def jobs(thorough):
    r = vlib.rng("diff")
    out = []
    small = [b"\n".join(x) for n in range(1, 5) for x in itertools.product((b"a", b"b"), repeat=n)] + [b""]
    pairs = list(itertools.product(small, small))
    for a, b in pairs:
        out.append((r.randrange(3), r.choice([0, 0, 1, 2, 3]), a, b))
    for _ in range(30000 if thorough else 5000):
        k = r.choice([2, 3, 5, len(LINES)])
        a = [r.choice(LINES[:k]) for _ in range(r.randrange(0, 9))]
        b = [r.choice(LINES[:k]) for _ in range(r.randrange(0, 9))]
        out.append((r.choice([0, 0, 1, 1, 2, 3, 9]), r.randrange(4), b"\n".join(a), b"\n".join(b)))
    for _ in range(30000 if thorough else 6000):
        # few changes in a long text
        n = r.randrange(3, 28)
        a = [r.choice(LINES) if r.random() < .4 else b"l%d" % i for i in range(n)]
        b = list(a)
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            p = r.randrange(len(b) + 1)
            q = min(len(b), p + r.choice([0, 0, 1, 1, 2, 3]))
            b[p:q] = [r.choice(LINES) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        if r.random() < .3:
            a, b = b, a
        out.append((r.choice([0, 1, 1, 2, 3, 3, 4]), r.randrange(4), b"\n".join(a), b"\n".join(b)))
    return list(dict.fromkeys(out))


def record(js, tag):
    b = vlib.build(["diff"], "asan")["diff"]
    jp, op = os.path.join(vlib.BUILD, tag + ".jobs"), os.path.join(vlib.BUILD, tag + ".out")
    with open(jp, "wb") as f:
        for c, w, a, t in js:
            f.write(struct.pack("<BBI", c, w, len(a)) + a + struct.pack("<I", len(t)) + t)
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    p = subprocess.run([b, jp, op, str(vlib.NCPU)], env=e, capture_output=True, timeout=800)
    if p.returncode != 0:
        raise CheckError("diff driver failed: %r" % p.stderr[-500:])
    res = [None] * len(js)
    for l in open(op):
        try:
            x = json.loads(l)
        except ValueError:
            continue
        res[x["i"]] = x
    os.remove(jp)
    os.remove(op)
    if any(x is None for x in res):
        raise CheckError("diff driver lost jobs")
    return res


def validate(run, js, tag, count=True):
    res = record(js, tag)
    bad = [(i, "crash") for i, x in enumerate(res) if "crash" in x]
    good = [i for i, x in enumerate(res) if "crash" not in x]
    path = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
    with open(path, "w") as f:
        for i in good:
            f.write(json.dumps(res[i], separators=(",", ":")) + "\n")
    t = vlib.tlc("DiffTrace", "SPECIFICATION Spec\n", env={"TRACE": path}, tag=tag, heap="10g")
    os.remove(path)
    if count:
        run.add_tlc(t)
        run.traces += len(good)
    return bad + [(good[int(m.group(1)) - 1], m.group(2)) for m in re.finditer(r'<<"REJECT", (\d+), "(\w+)">>', t.out)]


def check():
    run = vlib.Run("C21")
    thorough = vlib.TIER == "thorough"
    run.add_tlc(vlib.tlc("DiffModel", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nINVARIANTS Meaning Turns Fewer Within\n" % (4 if thorough else 3),
                         tag="C21-model", heap="10g", timeout=2000))
    js = jobs(thorough)
    bad = validate(run, js, "C21")
    for x in js[-6:]:
        run.sample("context %d, flags %d: %r -> %r" % (x[0], x[1], x[2][:60], x[3][:60]))
    if bad:
        ids = sorted({i for i, _ in bad})[:200]
        for j, kind in validate(run, [js[i] for i in ids], "C21-again", False):
            c, w, a, b = js[ids[j]]
            run.violation("%s-%d-%d-%s-%s" % (kind, c, w, a.hex()[:40], b.hex()[:40]), "%s: context %d, flags %d: %r -> %r" % (kind, c, w, a[:100], b[:100]))
    run.assumptions += ["At most 30 lines; lines without ESC."]
    return run.finish()
