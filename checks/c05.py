"""C05: highlighting is a pure function of source, language and flags."""
import json
import os
import re
import struct
import subprocess

import streams
import vlib
from vlib import LANGS, LANG_NAMES, CheckError

MODEL = """SPECIFICATION Spec
CONSTANTS Threads = {0, 1} Keys = {1, 2} Parts = {0, 1} MaxLen = 2 MaxDepth = 2 MaxCalls = 3
INVARIANTS Deterministic KnownIsHistory
PROPERTY MemoStable
"""


def record(config, keys, histories, threads, tag):
    b = vlib.build(["pure"], config)["pure"]
    kp, out = os.path.join(vlib.BUILD, "pure-%s.keys" % tag), os.path.join(vlib.BUILD, "pure-%s.out" % tag)
    with open(kp, "wb") as f:
        for (kind, lang, flags, fill, tail, cap, src) in keys:
            f.write(struct.pack("<BBBBBII", kind, lang, flags, fill, tail, cap, len(src)) + src)
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0"
    r = subprocess.run([b, out, str(max(1, vlib.NCPU // (threads if threads > 1 else 1))), kp, str(vlib.SEED),
                        str(histories), str(threads)], env=e, capture_output=True, timeout=800)
    if r.returncode != 0:
        raise CheckError("pure driver failed (%d): %r" % (r.returncode, r.stderr[-1500:]))
    base, hist, crashes = {}, [], []
    for l in open(out):
        l = l.strip()
        if not l:
            continue
        try:
            x = json.loads(l)
        except ValueError:
            continue
        if "crash" in x:
            crashes.append(x)
        elif "base" in x:
            base[x["base"]] = x
        else:
            hist.append(x)
    return base, hist, crashes, r.stderr.decode(errors="replace")


def validate(run, base, hist, nkeys, tag, count=True):
    results = []
    for i in range(1, nkeys + 1):
        got = []
        for ev in base[i]["ev"]:
            if ev[0] == "F":
                got += ev[4]
        results.append(got)
    p = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
    with open(p, "w") as f:
        f.write(json.dumps({"base": results}) + "\n")
        for h in hist:
            f.write(json.dumps(h) + "\n")
    r = vlib.tlc("PureTrace", "SPECIFICATION Spec\nVIEW View\n", env={"TRACE": p}, tag=tag)
    if count:
        run.add_tlc(r)
        run.traces += len(hist)
    os.remove(p)
    return {int(m.group(1)): int(m.group(2)) for m in
            (re.match(r'<<"REJECT", (\d+), (\d+)>>', l) for l in r.prints) if m}


def check():
    run = vlib.Run("C05")
    thorough = vlib.TIER == "thorough"
    run.add_tlc(vlib.tlc("PureModel", MODEL, tag="pure-model"))
    susp, samples, stats, bins = streams.fuzz("p", 3 if not thorough else 60, 3000, tag="C05")
    run.extra["inputs_run"] = sum(s[0] for s in stats.values())
    run.extra["calls_run"] = sum(s[1] for s in stats.values())
    r = vlib.rng("keys")
    r.shuffle(samples)

    def key_of(x, kind, forced=False):
        fill, tail = (x["cap"] >> 8 & 255, x["cap"] & 255) if forced else (0, 0)
        return (kind, x["lang"], x["flags"] & 3, fill, tail, 4096 if kind == 0 else 64, x["src"])

    # a few samples per language, partners of the same length, files with nested languages
    keys, per = [], {}
    for x in samples:
        if per.get(x["lang"], 0) < 5 and 4 < len(x["src"]) < 200:
            n = per[x["lang"]] = per.get(x["lang"], 0) + 1
            k = key_of(x, int(n == 2))
            if n in (3, 4):
                k = k[:5] + (3,) + k[6:]
            keys.append(k)
            other = bytearray(x["src"])
            other[r.randrange(len(other))] = r.choice(b" \"'/<a{*")
            keys.append(k[:6] + (bytes(other),))
    for l, s in (("html", b"<style>a { b: c }</style><script>let x = `a${1}`;</script>\n<!-- x -->"),
                 ("html", b"<script>var y = /re/; \"str\"</script><style>@media x {}</style>"),
                 ("cowel", b"\\cowel_highlight(lang = cpp){int x = 0;} \\a{b}"), ("markdown", b"# a\n```cpp\nint x;\n```\n*b*"),
                 ("yaml", b"a:\n  - b: 1\n  - 'c'\n- d\n"), ("js", b"let a = <b c={d}>e</b>; `x${`y`}`")):
        for flags in (0, 1):
            for cap in (1, 4096):
                keys.append((0, LANGS[l], flags, 0, 0, cap, s))
        keys.append((1, LANGS[l], 0, 0, 0, 16, s))
    susp.sort(key=lambda x: len(x["src"]))
    seen = {}
    forced = []
    for x in susp:
        seen[x["lang"]] = seen.get(x["lang"], 0) + 1
        if seen[x["lang"]] <= 2 and len(forced) < 20:
            forced.append(key_of(x, 0, x["why"] == "pure"))
    run.extra["suspicious"] = len(susp)

    def one(config, ks, histories, threads, tag):
        def attempt(tag2, count):
            base, hist, crashes, err = record(config, ks, histories, threads, tag2)
            bad = {}
            for c in crashes:
                bad["%s:%s" % (config, "crash")] = "%s %s: %s" % (c["crash"], bytes.fromhex(c["note"])[:40], err[:800])
            missing = [i for i in range(1, len(ks) + 1) if i not in base or not base[i]["ok"]]
            if missing:
                for i in missing:
                    bad["%s:key:%s" % (config, ks[i - 1][6][:40].hex())] = "call of key %r failed" % (ks[i - 1],)
                return bad
            rej = validate(run, base, hist, len(ks), tag2, count)
            for h in hist:
                if h["id"] in rej:
                    e = h["ev"][min(rej[h["id"]], len(h["ev"])) - 1]
                    k = ks[e[3] - 1]
                    bad["key:%d:%s:%s" % (k[0], LANG_NAMES[k[1]], k[6][:40].hex())] = (
                        "history %d (%s, %d threads) rejected at event %d %r of key %r" % (
                            h["id"], config, threads, rej[h["id"]], str(e)[:60], k))
            if count and hist:
                run.sample({"config": config, "threads": threads, "history": [str(x)[:50] for x in hist[0]["ev"][:6]]})
            return bad
        bad = attempt(tag, True)
        if bad:
            again = attempt(tag + "-again", False)
            both = again if threads > 1 or any("crash" in b for b in bad) else {b: t for b, t in again.items() if b in bad}
            if not both:
                # a race need not repeat; a wrong result in any history is decided by the recorded history itself
                if threads > 1:
                    both = bad
                else:
                    raise CheckError("rejections did not repeat: %r" % list(bad.items())[:3])
            for b, t in list(both.items())[:20]:
                run.violation(b, t)

    before = len(run.violations)
    if forced:
        one("asan", forced, 100, 1, "pure-forced")
        if len(run.violations) == before:
            raise CheckError("the driver's monitor and the specification disagree: %r" % susp[:3])
    one("asan", keys, 150 if not thorough else 2000, 1, "pure-seq")
    one("tsan", keys, 60 if not thorough else 1500, 4, "pure-par")
    return run.finish()
