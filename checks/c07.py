"""C07: failing allocations and throwing callbacks are contained."""
import json
import os
import re
import struct
import subprocess

import streams
import vlib
from vlib import LANGS, LANG_NAMES, CheckError


def record(jobs, config, tag, maxf):
    b = vlib.build(["fault"], config)["fault"]
    jp, out = os.path.join(vlib.BUILD, tag + ".jobs"), os.path.join(vlib.BUILD, tag + ".out")
    with open(jp, "wb") as f:
        for (k, l, fl, cap, tcap, s) in jobs:
            f.write(struct.pack("<BBBIII", k, l, fl, cap, tcap, len(s)) + s)
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    e["ASAN_OPTIONS"] += ":alloc_dealloc_mismatch=0"
    p = subprocess.run([b, jp, out, str(vlib.NCPU), str(maxf)], env=e, capture_output=True, timeout=800)
    if p.returncode != 0:
        raise CheckError("fault driver failed (%d): %r" % (p.returncode, p.stderr[-800:]))
    res = [None] * len(jobs)
    for l in open(out):
        l = l.strip()
        if l:
            try:
                x = json.loads(l)
            except ValueError:
                continue
            res[x["i"]] = x
    os.remove(jp)
    os.remove(out)
    if any(x is None for x in res):
        raise CheckError("fault driver lost jobs")
    return res


def validate(run, jobs, tag, maxf, count=True):
    res = record(jobs, "asan", tag, maxf)
    bad = {}
    p = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
    n = 0
    for at in range(0, len(jobs), 4000):
        with open(p, "w") as f:
            for i in range(at, min(at + 4000, len(jobs))):
                x = res[i]
                if "crash" in x:
                    bad.setdefault(i, []).append(("crash", 0))
                    x = {"base": [], "calls": []}
                f.write(json.dumps({"id": i, "base": x["base"], "calls": x["calls"]}) + "\n")
                n += len(x["calls"])
                if count:
                    run.count("allocation_points", x.get("n", 0))
        t = vlib.tlc("FaultTrace", "SPECIFICATION Spec\n", env={"TRACE": p}, tag=tag)
        if count:
            run.add_tlc(t)
        for l in t.prints:
            m = re.match(r'<<"REJECT", (\d+), (\d+), (\d+)>>', l)
            if m:
                bad.setdefault(int(m.group(1)), []).append((int(m.group(2)), int(m.group(3))))
    os.remove(p)
    if count:
        run.traces += n
    return bad


def sources(lang, r, n):
    d = streams.dictionary(LANG_NAMES[lang])
    files = [open(p, "rb").read() for p in streams.corpus_files(LANG_NAMES[lang])]
    out = []
    for k in range(n):
        if files and k % 2:
            s = r.choice(files)
            a = r.randrange(len(s) + 1)
            s = s[a:a + r.choice([60, 150, 300])] if k % 4 == 3 else s[:r.choice([100, 300])]
        else:
            s = b"".join(r.choice(d) for _ in range(r.choice([3, 8, 20])))
        out.append(s)
    return out


SPECIAL = [("html", b"<style>a{b:url(x)}</style><script>let x = <a>{`${b}`}</a>; f(`a${`b`}`)</script><p x=y>"),
           ("yaml", b"a:\n  b:\n    - c\n    - d: {e: [f]}\n  g: |\n    h\n"), ("bash", b"cat <<A <<B\nx\nA\n$y\nB\necho $(a `b` ${c:-\"d\"})\n"),
           ("markdown", b"# a\n> - b `c` **d**\n\n```cpp\nint x;\n```\n<b>e</b>\n```js\nlet y = `a${b}`;\n```\n"),
           ("js", b"let a = `x${`y${z}`}`, b = <c d={e}>f<g/>{h}</c>; function q() { return /r/g; }"),
           ("ts", b"let a: B<C> = `x${`y${z}`}`; interface D { e?: string }"), ("kotlin", b"val a = \"x${\"y${z}\"}\"\n"),
           ("cowel", b"\\a(b = c, d = {e}){f \\g{h} \\cowel_comment{i}}\n\\cowel_highlight(lang = cpp){int x;}"),
           ("cpp", b"#if 0\n#elif 1 // x\nR\"abc(x)abc\" u8R\"(y)\"\n#define A(b) #b\n#endif\n"),
           ("rust", b"r##\"x\"## b'a' 'a: loop {}"), ("lua", b"--[==[ x ]==] [=[ y ]=]"), ("python", b"f'{a!r:{b}}' f\"\"\"{c:d}\"\"\" rb'x'"),
           ("diff", b"diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1,2 +1,2 @@\n-a\n+b\n c\n"), ("css", b"@media a { b { c: url(d) } }"),
           ("xml", b"<?xml version='1.0'?><!DOCTYPE a [<!ENTITY b 'c'>]><a b='&c;'><![CDATA[d]]></a>"),
           ("html", b"<p><script>" + b"a;" * 1100 + b"</script><b>"), ("html", b"<p><style>" + b"a{}" * 700 + b"</style><b>"),
           ("latex", b"\\begin{verbatim} $x$ \\end{verbatim} \\verb|a|"), ("ebnf", b"a = \"b\" | { c } ; (* d *)")]


def check():
    run = vlib.Run("C07")
    thorough = vlib.TIER == "thorough"
    run.add_tlc(vlib.tlc("FaultModel", "SPECIFICATION Spec\nCONSTANTS MaxAllocs = 3\nINVARIANTS Contained PrefixAlways\n"
                         "PROPERTY Terminates\n", tag="fault-model"))
    r = vlib.rng("fault")
    jobs = []
    for l, s in SPECIAL:
        for cap in (1, 3, 64):
            jobs.append((0, LANGS[l], 0, cap, 16, s))
        jobs.append((1, LANGS[l], 0, 2, 7, s))
        jobs.append((1, LANGS[l], 1, 64, 512, s))
    for l in sorted(LANGS.values()):
        for s in sources(l, r, 40 if not thorough else 160):
            jobs.append((0, l, r.choice([0, 0, 1, 2, 3]), r.choice([1, 2, 5, 64]), 16, s))
            if r.random() < .4:
                jobs.append((1, l, r.choice([0, 1]), r.choice([1, 3, 64]), r.choice([1, 10, 100]), s))
    # the indentation stack of YAML grows with the nesting
    for _ in range(150 if not thorough else 2000):
        s, ind = b"", [0]
        for _ in range(r.choice([3, 10, 40, 90])):
            k = r.random()
            if k < .5:
                ind.append(ind[-1] + r.choice([1, 2, 2, 4]))
            elif k < .8 and len(ind) > 1:
                del ind[r.randrange(1, len(ind)):]
            s += b" " * ind[-1] + r.choice([b"a:\n", b"- b\n", b"- c: d\n", b"e: |\n", b"f: {g: [h,\n", b"# i\n", b"? j\n", b"- - k\n", b"]}\n"])
        jobs.append((r.choice([0, 0, 1]), LANGS["yaml"], r.choice([0, 1]), r.choice([1, 3, 64]), 20, s))
    maxf = 16 if not thorough else 200
    bad = validate(run, jobs, "fault", maxf)
    if bad:
        idx = sorted(bad)[:40]
        again = validate(run, [jobs[i] for i in idx], "fault-again", maxf, False)
        if not again:
            raise CheckError("rejections did not repeat")
        for i, what in again.items():
            k, l, fl, cap, tcap, s = jobs[idx[i]]
            run.violation("%s:%d:%s" % (LANG_NAMES[l], k, s[:60].hex()), "%s of %r: %s faults (kind, index) %r" % (
                "tokens" if k == 0 else "html", s[:150], LANG_NAMES[l], what[:4]))
    for j in jobs[::max(1, len(jobs) // 5)]:
        run.sample("%s %s cap %d: %r" % ("tokens" if j[0] == 0 else "html", LANG_NAMES[j[1]], j[3], j[5][:60]))
    return run.finish()
