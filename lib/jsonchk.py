"""JSON texts, recording of parse_json and of the JSON highlighter, validation by spec/JsonTrace.tla."""
import itertools
import json
import os
import re
import struct
import subprocess

import vlib
from vlib import CheckError

LEX = [b"{", b"}", b"[", b"]", b",", b":", b'"', b'"k"', b"1", b"-", b"0", b" ", b"\n", b"\r\n", b"\\", b"\\n", b"\\u12aB", b"\\ud83d\\ude00",
       b"null", b"true", b"false", b"//", b"// c\n", b"/* c */", b"/*", b"*/", b".5", b"e1", b"E+", b"a", b"\x01", b"\t", b"\xc3\xa4",
       b"\xf0\x9f\x98\x80", b"\x7f", b'"a\\tb"', b"{}", b"[]", b'{"a":1}', b"[1,2]", b"\\x", b"\\u00g0", b"nul", b"tru", b"\x0b", b"\x0c",
       b"/", b"'", b"+1", b".", b"1.", b"00", b"Infinity", b"NaN", b"\xe2\x80\xa8", b"\xc2\xa0", b"\xef\xbb\xbf"]
WS = [b"", b"", b"", b" ", b"\n", b"\t", b"\r\n", b"  \n ", b"\r"]
CM = [b"", b" ", b"\n", b"//\n", b"// x y\n", b"/**/", b"/* a\n b */", b"//\r\n", b" /* * */ // /*\n", b"/***/", b"// \xc3\xa4\n"]


def number(r):
    k = r.random()
    s = b"-" if r.random() < .3 else b""
    if k < .4:
        return s + str(r.choice([0, 1, 7, 10, 42, 123456789, 2**53, 2**53 + 1, 10**17, r.randrange(10**9), r.randrange(10**25)])).encode()
    i = str(r.choice([0, 1, 9, r.randrange(1000), r.randrange(10**18)])).encode()
    if k < .75:
        i += b"." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 1, 2, 3, 17, 25]))).encode()
    if k > .55:
        i += r.choice([b"e", b"E"]) + r.choice([b"", b"+", b"-"]) + str(r.choice([0, 1, 2, 5, 17, 22, 23, r.randrange(40)])).encode()
    return s + i


def string(r):
    o = b""
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        o += r.choice([b"a", b"xyz", b" ", b"\xc3\xa4", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\\n", b"\\t", b"\\\\", b"\\\"", b"\\/", b"\\b",
                       b"\\f", b"\\r", b"\\u0041", b"\\u00e9", b"\\uD83D\\uDE00", b"\\uFFFF", b"\\u0000", b"\\udead", b"//", b"/*", b"{", b"}",
                       b"[", b",", b":", b"\x7f", b"'"])
    return b'"' + o + b'"'


def document(r, depth, gap):
    k = r.random()
    if depth <= 0 or k < .45:
        return r.choice([number(r), string(r), b"null", b"true", b"false", string(r), number(r)])
    g = lambda: r.choice(gap)  # noqa: E731
    n = r.choice([0, 1, 1, 2, 3])
    if k < .72:
        return b"[" + g() + (b",".join(g() + document(r, depth - 1, gap) + g() for _ in range(n))) + b"]"
    return b"{" + g() + (b",".join(g() + string(r) + g() + b":" + g() + document(r, depth - 1, gap) + g() for _ in range(n))) + b"}"


def texts(tag, thorough):
    r = vlib.rng("json-" + tag)
    out = [b""]
    out += [x for x in LEX] + [a + b for a in LEX for b in LEX]
    for n, count in ((3, 4000), (4, 3000), (5, 2000), (6, 1000)):
        for _ in range(count * (8 if thorough else 1)):
            out.append(b"".join(r.choice(LEX) for _ in range(n)))
    small = [b"{", b"}", b"[", b"]", b",", b":", b'"k"', b"1", b"//\n"]
    ex = list(itertools.product(small, repeat=4))
    out += [b"".join(x) for x in (ex if thorough else r.sample(ex, 2500))]
    # contents of strings: every byte, every escape, truncated and broken \u
    for b in range(256):
        c = bytes([b])
        if b < 0x80:
            out += [b'"a' + c + b'b"', b'"\\' + c + b'b"', b'{"' + c + b'":1}', b"1" + c, c + b"1", b"[1" + c + b"2]", b'"\\u' + c + b'123"']
    # every \u escape, in shuffled order, so that each is seen among others
    every = list(range(0x10000))
    r.shuffle(every)
    for at in range(0, 0x10000, 48):
        out.append(b'"' + b"".join(b"\\u" + (("%04X" if r.random() < .4 else "%04x") % c).encode() for c in every[at:at + 48]) + b'"')
    for c in list(range(0x20)) + [0x22, 0x2f, 0x5c, 0x7f, 0x80, 0xff, 0x2028, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff]:
        out += [b'{"\\u%04x":"\\u%04X"}' % (c, c), b'"\\u%04x' % c]
    for c in (0x7f, 0x80, 0x85, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff):
        out += [b'{"a' + chr(c).encode() + b'\\n":"' + chr(c).encode() * 2 + b'",' + b'"b":[' + chr(c).encode() + b"]}", b"//" + chr(c).encode() + b"\n1"]
    for i in range(6):
        out += [b'["\\u12a'[:i + 2] + b'"]', b'"\\u123g"', b'"x\\' + b"u12Fd"[:i] + b'"', b'"\\u' + b"12Fd"[:i] + b'x"', b'"\\u' + b"12Fd"[:i]]
    for s in (b"0", b"-0", b"-", b"--1", b"+1", b"01", b"-01", b"00", b"0.0", b"-0.0", b"0e0", b"0E-5", b"1.", b".1", b"1e", b"1e+", b"1e-", b"1.e1",
              b"1.5e", b"1e5.5", b"0x1", b"1_0", b"1e1e1", b"-1.25e-3", b"123456789012345678901234567890", b"1e22", b"1e23", b"9007199254740993",
              b"2.2250738585072014e-308", b"1.7976931348623157e308", b"1e308", b"1e309", b"-1e309", b"1.7976931348623159e308", b"4.9e-324", b"2e-324",
              b"1e-400", b"0.1", b"0.2", b"0.3", b"1.1", b"100000000000000000000000", b"8.41e21", b"9.5367431640625e-7", b"1e-7", b"5e-324",
              b"0.000001", b"179769313486231570000000000000000000000"):
        out += [s, b"[" + s + b"]", b'{"a":' + s + b"}", b"[" + s + b",1]", s + b" "]
    for d in (2, 10, 100, 400):
        out += [b"[" * d + b"]" * d, b"[" * d, b'{"a":' * d + b"1" + b"}" * d, b"[" * d + b"1" + b"]" * (d - 1)]
    for n in range(12000 if thorough else 1600):
        gap = WS if n % 2 else CM
        doc = r.choice(gap) + document(r, r.choice([0, 1, 2, 2, 3, 4]), gap) + r.choice(gap)
        if len(doc) > 400:
            continue
        out.append(doc)
        for _ in range(3):
            p = r.randrange(len(doc) + 1)
            k = r.random()
            if k < .3:
                bad = doc[:p]
            elif k < .5:
                bad = doc[:p] + doc[p + 1:]
            elif k < .8:
                bad = doc[:p] + r.choice(LEX) + doc[p:]
            else:
                bad = doc[:p] + r.choice(LEX) + doc[p + 1:]
            out.append(bad)
        if n % 40 == 0:
            out += [doc[:i] for i in range(len(doc))]
    res = []
    for s in dict.fromkeys(out):
        try:
            s.decode("utf-8")
        except UnicodeDecodeError:
            continue
        res.append(s)
    return res


def type_names():
    t = open(os.path.join(vlib.SPEC, "HighlightTypes.tla")).read()
    return {int(a): b.replace("-", "_") for a, b in re.findall(r'v \|-> (\d+), long \|-> "([^"]*)"', t)}


def record_parser(jobs, config, tag):
    b = vlib.build(["json"], config)["json"]
    jp, out = os.path.join(vlib.BUILD, tag + ".jobs"), os.path.join(vlib.BUILD, tag + ".out")
    with open(jp, "wb") as f:
        for (o, s) in jobs:
            f.write(struct.pack("<BI", o, len(s)) + s)
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    p = subprocess.run([b, jp, out, str(vlib.NCPU)], env=e, capture_output=True, timeout=800)
    if p.returncode != 0:
        raise CheckError("json driver failed: %r" % p.stderr[-500:])
    res = [None] * len(jobs)
    for l in open(out):
        l = l.strip()
        if l:
            try:
                x = json.loads(l)
            except ValueError:
                continue
            res[x["i"]] = x
    os.remove(jp)
    os.remove(out)
    if any(x is None for x in res):
        raise CheckError("json driver lost jobs")
    return res


def parser_traces(texts_, tag, config="asan"):
    r = vlib.rng("opts-" + tag)
    jobs = []
    for n, s in enumerate(texts_):
        jobs.append((r.choice([0, 1]) | r.choice([0, 2]) | r.choice([0, 4, 8]) | r.choice([0, 128]), s))
    return jobs


def validate(run, jobs, tokens, tag, count=True):
    """jobs: parser jobs; tokens: highlighter jobs (lang, flags, text). Returns {(index, kind)}."""
    lines, owner = [], []
    names = type_names()
    if jobs:
        for i, ((o, s), x) in enumerate(zip(jobs, record_parser(jobs, "asan", tag))):
            crash = "crash" in x
            lines.append(json.dumps({"k": "p", "t": list(s), "c": o & 1, "n": o >> 1 & 1, "e": o >> 2 & 3,
                                     "ok": 9 if crash else x["ok"], "ev": [] if crash else x["ev"]}))
            owner.append(("p", i))
    if tokens:
        rec = vlib.build(["rec"], "plain")["rec"]
        res = vlib.record(rec, [(0, l, f, 512, 0, s) for (l, f, s) in tokens], tag)
        for i, ((l, f, s), x) in enumerate(zip(tokens, res)):
            crash = "crash" in x
            lines.append(json.dumps({"k": "h", "t": list(s), "c": 0 if l == vlib.LANGS["json"] and f & 2 else 1,
                                     "ok": 0 if crash or x["st"] != 0 else 1,
                                     "tk": [] if crash else [[a, b, names.get(c, "?%d" % c)] for a, b, c in x["t"]]}))
            owner.append(("h", i))
    bad = []
    p = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
    for at in range(0, len(lines), 20000):
        with open(p, "w") as f:
            f.write("\n".join(lines[at:at + 20000]) + "\n")
        t = vlib.tlc("JsonTrace", "SPECIFICATION Spec\n", env={"TRACE": p}, tag=tag, heap="10g")
        if count:
            run.add_tlc(t)
            run.traces += len(lines[at:at + 20000])
        for l in t.prints:
            mm = re.match(r'<<"REJECT", (\d+), "(\w+)">>', l)
            if mm:
                bad.append((owner[at + int(mm.group(1)) - 1], mm.group(2)))
    os.remove(p)
    return bad


def recovery(run, prop, ts, thorough):
    """Highlightings of texts, mostly not JSON, against LexJson.tla: how the highlighting goes on after a violation."""
    import lexchk
    import lexgen
    r = vlib.rng("recovery-" + prop)
    items = [x for l in ("json", "jsonc") for x in lexgen.texts(l, 60000 if thorough else 10000, prop)]
    items += [(r.choice(["json", "jsonc"]), r.randrange(2), s) for s in ts if lexchk.usable(s) and len(s) < 300 and (thorough or r.random() < .3)]
    run.extra["texts_recovery"] = len(items)
    bad, _ = lexchk.validate(run, items, prop.lower() + "-lex")
    if bad:
        ids = sorted({i for i, _ in bad})[:200]
        again, diff = lexchk.validate(run, [items[i] for i in ids], prop.lower() + "-lex-again", count=False)
        for j, k in again:
            l, strict, x = items[ids[j]]
            run.violation("lex-%s-%d-%s" % (l, strict, x.hex()[:80]), "%s: %s of %r: %s" % (l, k, x.decode("utf-8")[:200], diff.get(j, "")),
                          {"language": l, "strict": strict, "text": x.decode("utf-8"), "family": k})


def decide(prop, kinds, parser=True, highlight=False):
    run = vlib.Run(prop)
    thorough = vlib.TIER == "thorough"
    run.add_tlc(vlib.tlc("JsonModel", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nINVARIANTS AcceptsJson Balanced Ordered Lines OneError "
                         "Tokens\n" % (5 if thorough else 4), tag="json-model-" + prop, heap="12g", timeout=3000))
    ts = texts(prop, thorough)
    jobs = parser_traces(ts, prop) if parser else []
    tokens = []
    if highlight:
        r = vlib.rng("hl-" + prop)
        for s in ts:
            tokens.append((r.choice([vlib.LANGS["json"], vlib.LANGS["jsonc"]]), r.choice([0, 2]), s))
    bad = [b for b in validate(run, jobs, tokens, prop.lower() + "-json") if b[1] in kinds]
    if bad:
        idx = sorted({b[0] for b in bad})[:60]
        j2 = [jobs[i] for k, i in idx if k == "p"]
        t2 = [tokens[i] for k, i in idx if k == "h"]
        again = [b for b in validate(run, j2, t2, prop.lower() + "-again", False) if b[1] in kinds]
        if not again:
            raise CheckError("rejections did not repeat: %r" % bad[:3])
        for (k, i), kind in again:
            if k == "p":
                o, s = j2[i]
                run.violation("%s:%d:%s" % (kind, o & 15, s[:80].hex()), "%s of parse_json, options %d, text %r" % (kind, o, s[:200]))
            else:
                l, f, s = t2[i]
                run.violation("%s:%d:%d:%s" % (kind, l, f, s[:80].hex()), "%s of %s flags %d: %r" % (kind, vlib.LANG_NAMES[l], f, s[:200]))
    if highlight:
        recovery(run, prop, ts, thorough)
    run.extra["texts"] = len(ts)
    for s in ts[2000:2006]:
        run.sample(repr(s[:80]))
    return run.finish()
