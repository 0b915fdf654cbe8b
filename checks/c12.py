"""C12: UTF-8 decoding, validation, searching and encoding follow the automaton of Unicode Table 3-7."""
import itertools
import json
import os
import re
import struct
import subprocess

import vlib
from vlib import CheckError

MODEL = """SPECIFICATION Spec
CONSTANTS Bytes = {65, 128, 143, 144, 159, 160, 191, 193, 194, 224, 237, 239, 240, 244, 245} MaxLen = %d
INVARIANTS Cover RoundTrip ErrorIffReplaced Subpart Resync Codes
"""


def inputs(thorough):
    r = vlib.rng("utf8")
    full = [0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
            0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF]
    small = [0x41, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC2, 0xF4]
    out = [b""] + [bytes([a]) for a in range(256)]
    out += [bytes([a, b]) for a in range(0xC0, 256) for b in range(0, 256, 1 if thorough else 3)]
    out += [bytes(t) for t in itertools.product(full, repeat=2)]
    out += [bytes(t) for t in itertools.product([x for x in full if x > 0x7F], small, small)]
    out += [bytes(t) for t in itertools.product([0xE0, 0xED, 0xF0, 0xF1, 0xF4, 0xF5], small, small, small)]
    alpha = [b"A", b"\xc3\xa4", b"\xef\xbf\xbd", b"\xf0\x9f\x98\x80", b"\xe2\x82\xac", b"\x80", b"\xe2\x82", b"\xf0\x9f", b"\xff",
             b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc2", b"B", b"\xf4\x8f\xbf\xbf", b"\xf0\x80", b"\xee\x80\x80"]
    out += [b"".join(t) for t in itertools.product(alpha, repeat=2)]
    for _ in range(20000 if thorough else 3000):
        out.append(b"".join(r.choice(alpha) for _ in range(r.randrange(1, 9))))
    return list(dict.fromkeys(out))


def validate(run, lines, tag, count=True):
    p = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
    bad = []
    for at in range(0, len(lines), 20000):
        part = lines[at:at + 20000]
        with open(p, "w") as f:
            f.write("\n".join(part) + "\n")
        r = vlib.tlc("Utf8Trace", "SPECIFICATION Spec\n", env={"TRACE": p}, tag=tag)
        if count:
            run.add_tlc(r)
            run.traces += len(part)
        for l in r.prints:
            m = re.match(r'<<"REJECT", (\d+)>>', l)
            if m:
                bad.append(part[int(m.group(1)) - 1])
    os.remove(p)
    return bad


def record(ins, config, bits, every, tag):
    b = vlib.build(["utf8"], config)["utf8"]
    ip, out = os.path.join(vlib.BUILD, tag + ".in"), os.path.join(vlib.BUILD, tag + ".out")
    with open(ip, "wb") as f:
        for s in ins:
            f.write(struct.pack("<I", len(s)) + s)
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    r = subprocess.run([b, out, str(vlib.NCPU), ip, str(bits), str(every)], env=e, capture_output=True, timeout=800)
    if r.returncode != 0:
        raise CheckError("utf8 driver failed (%d): %r" % (r.returncode, r.stderr[-800:]))
    lines, crashes, n, bad = [], [], 0, 0
    for l in open(out):
        l = l.strip()
        if '"crash"' in l:
            crashes.append(json.loads(l))
        elif '"k":"n"' in l:
            x = json.loads(l)
            n += x["n"]
            bad += x["bad"]
        elif l:
            lines.append(l)
    os.remove(ip)
    os.remove(out)
    return lines, crashes, n, bad, r.stderr.decode(errors="replace")


def check():
    run = vlib.Run("C12")
    thorough = vlib.TIER == "thorough"
    run.add_tlc(vlib.tlc("Utf8Model", MODEL % (5 if thorough else 4), tag="utf8-model"))
    ins = inputs(thorough)
    for config, some, bits, every in (("asan", ins, 8, 100000), ("plain", [b"A"], 0 if thorough else 2, 1 if thorough else 64)):
        lines, crashes, n, bad, err = record(some, config, bits, every, "utf8-" + config)
        run.count("four_byte_sequences_monitored", n)
        run.count("suspicious", bad)
        rej = validate(run, lines, "utf8-" + config)
        if bad and not rej:
            raise CheckError("the monitor and the specification disagree")
        if rej or crashes:
            lines2, crashes2, _, _, _ = record(some, config, bits, every, "utf8-again")
            again = set(lines2)
            for c in crashes:
                if any(c["note"] == d["note"] for d in crashes2):
                    run.violation("crash:" + c["note"], "%s on %s: %s" % (c["crash"], c["note"], err[:1500]))
            for l in rej:
                if l in again:
                    x = json.loads(l)
                    key = "%s:%s" % (x["k"], bytes(x["s"]).hex() if x["k"] == "s" else x.get("c", x.get("b")))
                    run.violation(key, l[:600])
            if not run.violations:
                raise CheckError("rejections did not repeat")
        if lines:
            run.sample(lines[len(lines) // 2][:300])
    return run.finish()
