"""C31: the wrapper of the WebAssembly library, run against the library compiled to WebAssembly."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess

import lexgen
import names
import streams
import vlib
from vlib import CheckError, LANG_NAMES, REPO

WEB = os.path.join(vlib.VERIF, "web")
FLAGS = ["--target=wasm32-unknown-emscripten", "-std=c++23", "-O1", "-w", "-fno-exceptions", "-fsized-deallocation", "-nostdinc++",
         "-nostdlibinc", "-D_GNU_SOURCE", "-Wno-builtin-macro-redefined",
         "-D__cpp_concepts=202002L",   # libstdc++ asks for it in <expected>; clang 18 has what is needed
         "-D__regparm__(x)=__unused__",  # glibc's headers take the target for an i386
         "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu",
         "-isystem", "/usr/include", "-I" + os.path.join(REPO, "include")]
PIECES = ["a", "int x = 0;\n", "<b>&", "\u00e4", "\u20ac", "\U0001f600", "\0", "\ufeff", "\ud800", "\udc00x", "\"s\" ", "// c\n", "/* d */", "  ",
          "x" * 30, "'", "\\", "\r\n", "{", "}", "#if 1\n", "@", "$a ", "\u2028"]


def build_wasm():
    """The library as a WebAssembly module, cached by the digest of its sources."""
    src = [s for s in vlib.lib_sources()] + [os.path.join(WEB, "rt.cpp")]
    dig = hashlib.sha256((vlib._headers_digest() + repr(FLAGS) + open(src[-1]).read()).encode()).hexdigest()[:16]
    d = os.path.join(vlib.BUILD, "wasm-" + dig)
    out = os.path.join(d, "ulight.wasm")
    if os.path.exists(out):
        return out
    for old in glob.glob(os.path.join(vlib.BUILD, "wasm-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(os.path.join(d, "inc", "gnu"))
    open(os.path.join(d, "inc", "gnu", "stubs-32.h"), "w").close()

    def one(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        extra = ["-fno-builtin", "-fno-rtti"] if s == src[-1] else []
        r = subprocess.run(["clang++"] + FLAGS + extra + ["-I" + os.path.join(d, "inc"), "-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compilation to WebAssembly failed: %s\n%s" % (s, r.stderr[-3000:]))
        return o

    src.sort(key=lambda s: -os.path.getsize(s))
    with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
        objs = list(ex.map(one, src))
    r = subprocess.run(["wasm-ld"] + objs + ["-o", out + ".tmp", "--no-entry", "--export-table", "--growable-table", "--allow-undefined"],
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking of WebAssembly failed: " + r.stderr[-2000:])
    os.replace(out + ".tmp", out)
    return out


def drive(wasm, histories, tag):
    d = os.path.join(vlib.BUILD, "web-" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    js = os.path.join(d, "ulight.mjs")
    shutil.copy(os.path.join(REPO, "www/js/ulight.js"), js)
    thunk = os.path.join(REPO, "src/main/wasm/f_i32_i32_i32_to_void.wasm")
    parts = [histories[k::vlib.NCPU] for k in range(vlib.NCPU)]

    def one(k):
        jp, op = os.path.join(d, "jobs%d" % k), os.path.join(d, "out%d" % k)
        with open(jp, "w") as f:
            for h in parts[k]:
                f.write(json.dumps(h) + "\n")
        p = subprocess.run(["node", os.path.join(WEB, "drive.mjs"), js, wasm, thunk, jp, op], capture_output=True, text=True, timeout=600)
        rows = [json.loads(x) for x in open(op)] if os.path.exists(op) else []
        return rows, p.returncode, p.stderr[-600:]

    with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(one, range(vlib.NCPU)))
    out, broken = [None] * len(histories), []
    for k, (rows, rc, err) in enumerate(res):
        for i, x in enumerate(rows):
            out[k + i * vlib.NCPU] = x
        if rc or len(rows) != len(parts[k]):
            broken.append((k + len(rows) * vlib.NCPU, err))
    shutil.rmtree(d, ignore_errors=True)
    return out, broken


def rep(b):
    """Bytes as TLC sees them: as they are if there are few, else length and digest."""
    b = list(b)
    if len(b) <= 600:
        return b
    h = hashlib.sha256(bytes(b)).digest()
    return [len(b)] + [int.from_bytes(h[i:i + 3], "big") for i in range(0, 30, 3)]


def encode(units):
    s = b"".join(u.to_bytes(2, "little") for u in units).decode("utf-16-le", "surrogatepass")
    return "".join("\ufffd" if 0xd800 <= ord(c) < 0xe000 else c for c in s).encode()


def units_of(s):
    b = s.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def source_of(call):
    return encode(call["units"]) if call.get("units") is not None else bytes(call["bytes"])


def entries(rows):
    d = {x["l"]: x["name"] for x in rows if x["k"] == "lang"}
    return [[x["name"], list(d[x["l"]].encode()), x["l"]] for x in sorted((x for x in rows if x["k"] == "entry"), key=lambda x: x["n"])], d


def evaluate(run, wasm, histories, table, tag, count=True):
    """The rejected histories: {index: what}."""
    listed, displays = table
    ids = {bytes(n): l for n, _, l in listed}
    jobs, where = [], {}
    for h in histories:
        for c in h:
            if c["k"] == "html":
                lang = ids.get(encode(c["name"]), 0) if c.get("name") else c["id"]
                s = source_of(c)
                if 1 <= lang <= 25 and (lang, s) not in where:
                    where[(lang, s)] = len(jobs)
                    jobs.append((1, lang, 0, 64, 256, s))
    native = vlib.record(vlib.build(["rec"], "plain")["rec"], jobs, "web-" + tag)
    got, broken = drive(wasm, histories, tag)
    bad = {}
    for i, err in broken:
        bad[i] = "the driver failed: " + err
    p = os.path.join(vlib.BUILD, "trace-web-%s.ndjson" % tag)
    n = 0
    with open(p, "w") as f:
        for i, (h, g) in enumerate(zip(histories, got)):
            if g is None:
                continue
            calls = []
            for c, x in zip(h, g):
                named = 1 if c.get("name") is not None else 0
                lang = ids.get(encode(c["name"]), 0) if named else c.get("id", 0)
                y = {"k": c["k"], "units": [], "bytes": [], "digest": [], "str": 0, "big": 0, "name": c.get("name") or [], "named": named,
                     "id": c.get("id", 0), "lang": lang, "html": [], "utf8": 1, "display": list(displays.get(lang, "").encode()), "list": [],
                     "ev": x["ev"], "res": x["res"], "logged": 0}
                if c["k"] == "html":
                    s = source_of(c)
                    y["big"] = 1 if len(s) > 600 else 0
                    y["digest"] = rep(s) if y["big"] else []
                    y["str"] = 1 if c.get("units") is not None else 0
                    y["units"] = (c.get("units") or []) if not y["big"] else []
                    y["bytes"] = list(s) if not y["big"] else []
                    if (lang, s) in where:
                        html = bytes.fromhex(native[where[(lang, s)]]["h"])
                        y["html"] = rep(html)
                        try:
                            html.decode()
                        except UnicodeDecodeError:
                            y["utf8"] = 0
                if c["k"] == "list":
                    y["list"] = listed
                for e in y["ev"]:
                    if e["t"] == "h":
                        y["logged"] = 1 if e["error"] and any(e["error"] in l for l in x["res"].get("logged", [])) else 0
                        e["bytes"] = rep(e["bytes"])
                        e.pop("error")
                if "b" in x["res"]:
                    x["res"]["b"] = rep(x["res"]["b"])
                x["res"].pop("logged", None)
                calls.append(y)
            f.write(json.dumps({"id": i, "calls": calls}) + "\n")
            n += 1
    t = vlib.tlc("WebTrace", "SPECIFICATION Spec\n", env={"TRACE": p}, tag="web-" + tag, heap="10g")
    for l in t.prints:
        m = re.match(r'<<"REJECT", (\d+), (\d+), (\d+), "(\w+)">>', l)
        if m:
            i = int(m.group(1))
            bad[i] = "call %s: event %s (%s) %r" % (m.group(2), m.group(3), m.group(4), got[i][int(m.group(2)) - 1]["res"])
    if count:
        run.add_tlc(t)
        run.traces += n
        run.count("calls", sum(len(h) for h in histories))
    os.remove(p)
    return bad


def scenarios(run):
    t = vlib.tlc("WebModel", "SPECIFICATION Spec\nCONSTANTS Caps = {1, 2, 3, 4, 100}\nINVARIANTS NothingLeft OnlyCurrentViews Whole Outcomes\n"
                 "PROPERTY Terminates\n", tag="web-model")
    run.add_tlc(t)
    out = set()
    for l in t.prints:
        m = re.match(r'<<"S", (\d), (\d+), (\d), <<(.*?)>>, <<(.*?)>>>>', l)
        if m:
            out.add((int(m.group(1)), int(m.group(2)), int(m.group(3)), tuple(int(x) for x in m.group(4).split(",") if x.strip()),
                     tuple(int(x) for x in m.group(5).split(","))))
    return sorted(out)


def candidates(lang, n):
    if lang in lexgen.L:
        return [x[2] for x in lexgen.texts(lang, n, "web", keywords=False)]
    d, r = streams.dictionary(lang), vlib.rng("web-" + lang)
    return [b"".join(r.choice(d) for _ in range(r.choice([3, 8, 20]))) for _ in range(n)]


def check():
    run = vlib.Run("C31")
    thorough = vlib.TIER == "thorough"
    r = vlib.rng("web")
    wasm = build_wasm()
    rows, crashes = names.record([], "web")
    if not any(x["k"] == "entry" for x in rows):
        raise CheckError("the list of names could not be recorded: %r" % crashes[:3])
    table = entries(rows)
    all_names = [bytes(x[0]).decode() for x in table[0]]
    scs = scenarios(run)
    run.extra["scenarios"] = len(scs)
    n = 60 if not thorough else 600
    texts = {l: r.sample(ts, min(len(ts), n)) for l, ts in ((l, candidates(l, 2 * n)) for l in vlib.LANGS)}

    def source(lang):
        k = r.random()
        ln = LANG_NAMES.get(lang)
        if k < .5 and texts.get(ln):
            b = r.choice(texts[ln])
            try:
                return {"units": units_of(b.decode())} if r.random() < .7 else {"bytes": list(b)}
            except UnicodeDecodeError:
                return {"bytes": list(b)}
        s = "".join(r.choice(PIECES) for _ in range(r.choice([0, 1, 1, 2, 5, 20])))
        return {"units": units_of(s)} if r.random() < .8 else {"bytes": list(encode(units_of(s)))}

    def key(named, ok):
        if named:
            if ok:
                return {"name": units_of(r.choice(all_names))}
            return {"name": units_of(r.choice(["", "C++", "nope", "cp", "c++ ", "\ud800", "\u00e4", "html\0", "x" * 40]))}
        return {"id": r.choice(list(range(1, 26))) if ok else r.choice([0, 26, 27, 255, 256, 257, 1000, -1])}

    def call(s):
        named, cap, status, plan, grown = s
        k = key(named, not status)
        if status and named and not k["name"]:
            k["name"] = units_of("no")
        lang = k.get("id") or next((x[2] for x in table[0] if units_of(bytes(x[0]).decode()) == k.get("name")), 0)
        pages = r.choice([1, 1, 3])
        return {"k": "html", **source(lang), **k, "plan": [x * pages if x > 0 else x for x in plan], "run": [x * pages for x in grown],
                "cap": 0 if cap == 100 else cap}

    def other():
        k = r.choice(["id", "display", "display", "list"])
        if k == "list":
            return {"k": "list"}
        if k == "display" and r.random() < .5:
            return {"k": k, "id": r.randrange(1, 26)}
        x = {"k": k, **key(1, r.random() < .7), "plan": [r.choice([0, 0, 1, -1])]}
        return x

    pick = scs if thorough else r.sample(scs, min(len(scs), 5000))
    histories = []
    order = list(pick) * (3 if thorough else 1)
    r.shuffle(order)
    while order:
        h = []
        for _ in range(min(len(order), r.choice([1, 2, 4, 6]))):
            h.append(call(order.pop()))
            if r.random() < .2:
                h.append(other())
        histories.append(h)
    histories.append([{"k": "list"}] + [{"k": "display", "id": i} for i in range(1, 26)]
                     + [{"k": k, "name": units_of(n)} for n in all_names for k in ("id", "display")])
    # output of many buffers of the size the wrapper uses; code points of every length at their boundary
    for n in range(24 if not thorough else 200):
        unit = r.choice(["\u00e4", "\u20ac", "\U0001f600", "a\u20ac", "<\u00e4", "x"])
        s = "a" * r.randrange(8) + unit * (r.choice([66000, 140000]) // len(unit.encode()))
        histories.append([{"k": "html", "units": units_of(s), "id": r.choice([13, 13, 2, 10]), "plan": r.choice([[], [0, 1], [1, 1, 1, 1]]),
                           "run": [r.choice([0, 1]), 0, r.choice([0, 2])], "cap": 0}] * r.choice([1, 2]))
    # every language: the 32-bit library against the native one
    for l, ts in texts.items():
        for i in range(0, len(ts), 10):
            histories.append([{"k": "html", "bytes": list(t), "id": vlib.LANGS[l], "plan": [], "run": [0, 0, 0], "cap": 0} for t in ts[i:i + 10]])
    bad = evaluate(run, wasm, histories, table, "run")
    if bad:
        idx = sorted(bad)[:30]
        again = evaluate(run, wasm, [histories[i] for i in idx], table, "again", False)
        if not again:
            raise CheckError("rejections did not repeat: %r" % [(i, bad[i]) for i in idx[:3]])
        for i, what in again.items():
            h = histories[idx[i]]
            run.violation("web:" + hashlib.sha256(json.dumps(h).encode()).hexdigest()[:12], what[:300] + " in " + json.dumps(h)[:300], h)
    for h in histories[::max(1, len(histories) // 5)]:
        run.sample(json.dumps(h)[:300])
    return run.finish()
