"""C13: language lookup by name and path."""
import json
import os
import re

import names
import vlib


def listed():
    t = open(os.path.join(vlib.SPEC, "Languages.tla")).read()
    return re.findall(r'<<"([^"]+)", \d+>>', t)


def inputs(thorough):
    r = vlib.rng("lookup")
    out = {b"", b".", b"..", b"/", b"a.b/c", b".c", b"c.", b"x.tar.c"}
    chars = [bytes([i]) for i in range(256)]
    alpha = b"abcdefghijklmnopqrstuvwxyz0123456789+.-_/\\ \0ACX"
    out.update(chars)
    out.update(bytes([a, b]) for a in alpha for b in alpha)
    for n in listed():
        n = n.encode()
        dirs = [b"", b"/", b"a/", b"a.b/", b"a.cpp/", b"\\", b" ", b"C:\\x.c\\"]
        out.add(n)
        for d in dirs:
            out.update([d + b"." + n, d + b"x." + n, d + n, d + n + b".", d + n + b"." + n, d + b"a.b." + n,
                        d + b"x." + n + b"~", d + b"x." + n + b"/y"])
        for k in range(len(n) + 1):
            for c in (b"a", b"z", b"+", b".", b"\0", b"x", b"p", bytes([r.randrange(256)])):
                for m in (n[:k] + c + n[k:], n[:k] + c + n[k + 1:], n[:k] + n[k + 1:], n[:k].upper() + n[k:], n[:k],
                          n[k:]):
                    out.add(m)
                    out.add(b"f." + m)
        for o in listed():
            if r.random() < 0.1:
                out.update([n + o.encode(), b"q." + n + b"." + o.encode()])
    for _ in range(3000 if not thorough else 200000):
        n = r.choice(listed()).encode()
        s = bytearray((r.choice([b"", b"a.", b"dir.x/file."]) + n) * r.choice([1, 1, 1, 2]))
        for _ in range(r.randrange(1, 4)):
            p = r.randrange(len(s) + 1)
            op = r.randrange(3)
            if op == 0:
                s.insert(p, r.choice(alpha))
            elif s:
                p %= len(s)
                if op == 1:
                    s[p] = r.randrange(256)
                else:
                    del s[p]
        out.add(bytes(s))
    out.update([b"x" * 5000 + b".cpp", b"." * 3000 + b"cpp", b"a." * 2000])
    return sorted(out)


def check():
    run = vlib.Run("C13")
    ins = inputs(vlib.TIER == "thorough")

    def rows(tag):
        rs, cr = names.record(ins, "c13" + tag)
        rs = [x for x in rs if x["k"] in ("lookup", "lang", "entry")]
        return rs + [{"k": "done"}], cr

    names.decide(run, "LookupTrace", rows, lambda x: json.dumps({k: v for k, v in x.items() if k != "i"})[:200].replace(" ", ""))
    return run.finish()
