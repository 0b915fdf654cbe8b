"""C20: the strict flag."""
import json
import os
import re

import jsonchk
import lexchk
import lexgen
import vlib


def check():
    run = vlib.Run("C20")
    big = vlib.TIER == "thorough"
    items = []
    for l in lexchk.FINISHED:
        n = (2500 if l in ("c", "cpp") else 350) * (10 if big else 1)
        got = lexgen.texts(l, n, "C20", "word" if l in ("c", "cpp") else None)
        if l in ("c", "cpp"):
            got += lexgen.texts(l, n // 2, "C20x")
        items += [(l, s) for _, _, s in got]
    items += [("html", s) for _, _, s in lexgen.nested(3000 if big else 300, "C20")]
    js = jsonchk.texts("C20", big)
    items += [(l, s) for l in ("json", "jsonc") for s in js]
    r = vlib.rng("C20-yaml")
    pieces = ["a", "key", ":", " ", "\n", "  ", "- ", "? ", "!t ", "&a ", "*a", "'", '"', "#c", "{", "}", "[", "]", ",", "|", ">", "---", "%YAML 1.2", "1.5",
              "true", "null", "\\n", "ä", "key: value\n", "- item\n", "...\n"]
    items += [("yaml", "".join(r.choice(pieces) for _ in range(r.randrange(1, 14))).encode()) for _ in range(6000 if big else 1000)]
    files = lexgen.corpus() if hasattr(lexgen, "corpus") else []
    items += files
    items = list(dict.fromkeys(items))
    names = jsonchk.type_names()

    def validate(items, tag, count=True):
        rec = vlib.build(["rec"])["rec"]
        res = vlib.record(rec, [(0, vlib.LANGS[l], f, 512, 0, s) for l, s in items for f in (0, 2)], tag)
        bad = []
        path = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
        for at in range(0, len(items), 30000):
            part = items[at:at + 30000]
            with open(path, "w") as f:
                for k, (l, s) in enumerate(part):
                    two = [[[0, 0, "failed%d" % v]] if "crash" in y or y["st"] != 0 else [[a, b, names.get(c, "?%d" % c)] for a, b, c in y["t"]]
                           for v, y in enumerate(res[2 * (at + k):2 * (at + k) + 2])]
                    f.write(json.dumps({"l": l, "t": list(s), "a": two[0], "b": two[1]}, separators=(",", ":")) + "\n")
            t = vlib.tlc("StrictTrace", "SPECIFICATION Spec\n", env={"TRACE": path}, tag=tag, heap="12g")
            if count:
                run.add_tlc(t)
                run.traces += len(part)
            bad += [(at + int(m.group(1)) - 1, int(m.group(2))) for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', t.out)]
        os.remove(path)
        return bad

    # the keywords there are with the flag, from the machines of C and C++
    lex = [(l, 1, s) for l, s in items if l in ("c", "cpp")]
    wrong, diff = lexchk.validate(run, lex, "C20-lex")
    wrong = [(i, k) for i, k in wrong if k in ("keyword", "name", "failed", "stuck")]
    if wrong:
        ids = sorted({i for i, _ in wrong})[:200]
        again, diff = lexchk.validate(run, [lex[i] for i in ids], "C20-lex-again", count=False)
        for j, k in again:
            if k in ("keyword", "name", "failed", "stuck"):
                l, _, x = lex[ids[j]]
                run.violation("%s-%s" % (l, x.hex()[:80]), "%s (strict): %s of %r: %s" % (l, k, x.decode()[:200], diff.get(j, "")))
    bad = validate(items, "C20")
    for x in items[::max(1, len(items) // 6)]:
        run.sample("%s: %r" % (x[0], x[1].decode("utf-8", "replace")[:100]))
    if bad:
        ids = sorted({i for i, _ in bad})[:300]
        for j, n in validate([items[i] for i in ids], "C20-again", False):
            l, s = items[ids[j]]
            run.violation("%s-%s" % (l, s.hex()[:80]), "%s: token %d of %r differs with the strict flag" % (l, n, s[:200]))
    run.extra["pairs"] = len(items)
    run.assumptions += ["The standard keywords are those of spec/LexCpp.tla."]
    return run.finish()
