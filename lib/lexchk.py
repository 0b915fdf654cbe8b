"""Highlightings recorded from the real library, validated by the lexical specifications (spec/Lex*.tla)."""
import json
import os
import re

import jsonchk
import vlib
from vlib import CheckError

CHARS = set("äéßαγ中𝒜" + "\u0301\u00b7\u203f" + "\u200e€😀\u00a0\u2028\ufeff\u0085§«»—")
NAMES = None


def usable(s):
    """Valid UTF-8 whose characters the specification knows."""
    try:
        u = s.decode("utf-8")
    except UnicodeDecodeError:
        return False
    return all(c < "\x80" or c in CHARS for c in u)


def validate(run, items, tag, count=True, config="plain"):
    """items: (language name, strict, text). Returns [(index, kind)], and {index: first difference}."""
    global NAMES
    if NAMES is None:
        NAMES = jsonchk.type_names()
    rec = vlib.build(["rec"], config)["rec"]
    res = vlib.record(rec, [(0, vlib.LANGS[l], 2 if s else 0, 512, 0, x) for (l, s, x) in items], tag)
    bad, diff = [], {}
    path = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
    for at in range(0, len(items), 30000):
        part = list(zip(items, res))[at:at + 30000]
        with open(path, "w") as f:
            for (l, s, x), y in part:
                if "crash" in y or y["st"] != 0:
                    k = [[0, 0, "failed"]]
                else:
                    k = [[a, b, NAMES.get(c, "?%d" % c)] for a, b, c in y["t"]]
                f.write(json.dumps({"l": l, "s": s, "t": list(x), "k": k}, separators=(",", ":")) + "\n")
        t = vlib.tlc("LexTrace", "SPECIFICATION Spec\nVIEW View\n", env={"TRACE": path}, tag=tag, heap="12g")
        if count:
            run.add_tlc(t)
            run.traces += len(part)
        for m in re.finditer(r'<<"REJECT", (\d+), "(\w+)">>', t.out):
            bad.append((at + int(m.group(1)) - 1, m.group(2)))
        for m in re.finditer(r'<<\s*"EXPECT",\s*(\d+),\s*(\d+),\s*(<<.*?>>)\s*>>', t.out, re.S):
            i = at + int(m.group(1)) - 1
            n = int(m.group(2)) - 1
            got = res[i].get("t", [])
            diff[i] = "token %d expected %s, recorded %s" % (
                n, m.group(3), [got[n][0], got[n][1], NAMES.get(got[n][2])] if n < len(got) else None)
    os.remove(path)
    for i, y in enumerate(res):
        if "crash" in y or y["st"] != 0:
            bad.append((i, "failed"))
    return bad, diff


FINISHED = ["diff", "txt", "tex", "latex", "ebnf", "llvm", "lua", "python", "java", "kotlin", "rust", "nasm", "css", "bash", "xml", "html", "c", "cpp", "js", "ts", "cowel", "markdown", "yaml"]
DIFF = ["diff", "txt"]
LINES = ["markdown"]
DATA = ["yaml"]
DOCS = ["tex", "latex", "ebnf", "cowel"]
MARKUP = ["xml", "html"]
CODE = [l for l in FINISHED if l not in DIFF + DOCS + MARKUP + LINES + DATA]
COMMENTS = CODE + DOCS + MARKUP + LINES + DATA
WORDS = CODE + ["cowel"] + DATA
STRINGS = CODE + ["ebnf", "cowel"] + DATA
NUMBERS = CODE + ["cowel"] + DATA
SYMBOLS = CODE + DOCS


def decide(prop, families, focus, langs, n, thorough=12, config="plain", make=None):
    """Checks the tokens of the given families (None: all) of texts of the given languages."""
    import lexgen
    run = vlib.Run(prop)
    n = n * thorough if vlib.TIER == "thorough" else n * 3
    items = []
    for l in langs:
        got = make(n, prop) if make else lexgen.texts(l, n, prop, focus)
        run.extra["texts_" + l] = len(got)
        items += got

    def kept(bad):
        return [(i, k) for i, k in bad if families is None or k in families or k in ("failed", "stuck")]

    bad, diff = validate(run, items, prop, config=config)
    bad = kept(bad)
    for x in items[::max(1, len(items) // 6)]:
        run.sample("%s%s: %r" % (x[0], " (strict)" if x[1] else "", x[2].decode("utf-8")[:120]))
    if bad:
        ids = sorted({i for i, _ in bad})[:400]
        again, diff = validate(run, [items[i] for i in ids], prop + "-again", count=False, config=config)
        for j, k in kept(again):
            l, s, x = items[ids[j]]
            run.violation("%s-%s" % (l, x.hex()[:80]), "%s: %s of %r: %s" % (l, k, x.decode("utf-8")[:200], diff.get(j, "")),
                          {"language": l, "strict": s, "text": x.decode("utf-8"), "family": k})
    run.assumptions += ["The specification (spec/Lex*.tla) describes the highlighting of the unchanged tree; it is bound to the code by "
                        "the validation of every recorded text.",
                        "Texts are valid UTF-8 over the characters of lexchk.CHARS and ASCII, at most 600 bytes."]
    return run.finish()
