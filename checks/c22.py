"""C22: loading of files and the command-line program."""
import concurrent.futures
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import tempfile

import lexgen
import vlib
from vlib import CheckError

CHUNKED, BYTES, UTF8_APPEND, UTF8, UTF32, UTF8_OR_ERROR = range(6)
PIECES = [b"a", b"bc", b"\xc3\xa4", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\0", b"\n", b"\r\n", b"x" * 7, b"\xef\xbb\xbf"]
BAD = [b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xff", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80"]


def text(r, n, bad=False):
    s = b""
    while len(s) < n:
        s += r.choice(PIECES)
    while len(s) > n:
        s = s[:-1]
        try:
            s.decode()
        except UnicodeDecodeError:
            continue
    s += b"z" * (n - len(s))
    if bad:
        b = r.choice(BAD)
        p = r.choice([0, len(s), r.randrange(len(s) + 1)])
        s = s[:p] + b + s[p:]
    return s


def loads(r, files, thorough):
    """(function, path, before, scripted, content, reads)"""
    out = []
    pre = lambda: r.choice([b"", b"", b"ab", b"\xc3\xa4", b"\xff\x80", b"\xc3"])  # noqa: E731
    for name, c in files.items():
        for fn in range(6):
            if isinstance(c, bytes):
                out.append((fn, name, pre(), 0, c, [len(c), 0] if c else [0]))
            elif c == "directory":
                out.append((fn, name, pre(), 0, b"", [-1]))
            else:
                out.append((fn, name, pre(), 0, b"", []))
    for n in range(12000 if thorough else 2500):
        size = r.choice([0, 1, 2, 3, 4, 15, 16, 17, 31, 32, 33, 48, 64, r.randrange(80)])
        c = text(r, size, r.random() < .3)
        plan = []
        left = len(c)
        style = r.choice(["whole", "bytes", "random", "random"])
        while left:
            k = {"whole": left, "bytes": 1, "random": r.randrange(1, 20)}[style]
            plan.append(min(k, left))
            left -= plan[-1]
        if r.random() < .35:
            plan = plan[:r.randrange(len(plan) + 1)] + [-1]
        out.append((r.randrange(6), "scripted", pre(), 1, c, plan + [0]))
    return out


def run_loads(jobs, config, cwd, tag):
    b = vlib.build(["io"], config, only=["io.cpp"])["io"]
    jp, op = os.path.join(vlib.BUILD, tag + ".jobs"), os.path.join(vlib.BUILD, tag + ".out")
    blob = lambda s: struct.pack("<I", len(s)) + s  # noqa: E731
    with open(jp, "wb") as f:
        for fn, path, pre, scripted, c, plan in jobs:
            f.write(struct.pack("<B", fn) + blob(path.encode()) + blob(pre) + struct.pack("<B", scripted) + blob(c)
                    + struct.pack("<I", len(plan)) + b"".join(struct.pack("<i", x) for x in plan))
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    p = subprocess.run([b, jp, op, str(vlib.NCPU)], env=e, capture_output=True, timeout=600, cwd=cwd)
    if p.returncode != 0:
        raise CheckError("io driver failed: %r" % p.stderr[-500:])
    res = [None] * len(jobs)
    for l in open(op):
        try:
            x = json.loads(l)
        except ValueError:
            continue
        res[x["i"]] = x
    os.remove(jp)
    os.remove(op)
    if any(x is None for x in res):
        raise CheckError("io driver lost jobs")
    return res


def tlc_rejects(run, module, lines, tag, count):
    path = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
    with open(path, "w") as f:
        f.write("\n".join(json.dumps(x, separators=(",", ":")) for x in lines) + "\n")
    t = vlib.tlc(module, "SPECIFICATION Spec\n", env={"TRACE": path}, tag=tag, heap="10g")
    os.remove(path)
    if count:
        run.add_tlc(t)
        run.traces += len(lines)
    return [(int(m.group(1)) - 1, m.group(2)) for m in re.finditer(r'<<"REJECT", (\d+), "(\w+)">>', t.out)]


def runs(r, thorough):
    """(arguments, input (None: no such file, b"": ...), to, room, before)"""
    out = []
    exts = ["c", "cpp", "js", "json", "html", "txt", "md", "py", "tex", "yaml", "unknown", "", "c.bak", "C", "tar.gz", "h++", "nasm"]
    src = {"c": b"int main() { return 0; } /* <&> */\n", "js": b"let x = `a${1}`; // c\n", "json": b'{"a": [1, null]}', "html": b"<p>a</p><script>let x;</script>",
           "txt": b"plain <text> & \"quotes\"\n", "md": b"# a\n*b* `c`\n", "yaml": b"a: b\n"}
    for e in exts:
        s = src.get(e, b"x = 1 < 2 && \"y\"\n")
        name = "in" + ("." + e if e else "")
        for c in (s, b"", s * 400 if e in src else s, s + b"\xff", None):
            out.append(([name], c, "stdout", -1, None))
            out.append(([name, "out"], c, "file", -1, r.choice([None, b"old " * 50])))
        out.append(([name, "no/out"], s, "nowhere", -1, None))
        out.append(([name, "dir"], s, "nowhere", -1, None))
        for room in (0, 1, 10, 100, 4096, 10000):
            for c in (s, b"", s * 400):
                out.append(([name], c, "stdout", room, None))
                out.append(([name, "out"], c, "file", room, r.choice([None, b"old"])))
        out.append(([name, "/dev/full"], s, "full", 0, None))
        out.append(([name, "/dev/full"], s * 400, "full", 0, None))
        out.append(([name, "out", "more"], s, "file", -1, None))
    out.append(([], None, "stdout", -1, None))
    out.append((["dir.c"], "directory", "stdout", -1, None))
    out.append((["dir.c", "out"], "directory", "file", -1, b"kept"))
    out.append((["in.c", "in.c"], b"int x;", "same", -1, None))
    for _ in range(400 if thorough else 60):
        l = r.choice(["c", "cpp", "js", "css", "html", "xml", "python", "rust", "java"])
        t = lexgen.texts(l, 40, "C22-%d" % r.randrange(1000))
        if t:
            out.append((["in." + {"python": "py", "rust": "rs"}.get(l, l), "out"], r.choice(t)[2], "file", -1, None))
    fixed = []
    for l, s in src.items():
        c = s[:3] + b"\0" + s[3:] + b"%s%n \x1a\r\n\x1b[0m\xef\xbb\xbf\0"
        fixed += [(["in." + l], c, "stdout", -1, None), (["in." + l, "out"], c, "file", -1, None), (["in." + l, "out"], b"\0" * 5000, "file", -1, None)]
    r.shuffle(out)
    out = fixed + out
    if not thorough:
        out = out[:500] + [x for x in out[500:] if x[2] in ("full", "same") or x[1] == "directory"]
    return out


def check():
    run = vlib.Run("C22")
    thorough = vlib.TIER == "thorough"
    r = vlib.rng("C22")
    run.add_tlc(vlib.tlc("IoModel", "SPECIFICATION Spec\nCONSTANTS Block = %d MaxLen = %d\nINVARIANTS Whole Told Kept\nPROPERTY Ends\n"
                         % ((3, 8) if thorough else (2, 5)), tag="C22-model"))
    top = tempfile.mkdtemp(prefix="c22-")
    try:
        d = os.path.join(top, "files")
        os.makedirs(os.path.join(d, "d"))
        files = {}
        for n in list(range(0, 36)) + [47, 48, 49, 64, 65, 80]:
            files["f%d" % n] = text(r, n)
            files["b%d" % n] = text(r, n, True)
        big = {}
        for n in (4095, 4096, 4097, 8190, 8191, 8192, 8193, 8194, 12288, 16383, 16384, 16385, 32768):
            big["F%d" % n] = text(r, n)
        for n in (8192, 16384):
            big["B%d" % n] = text(r, n, True)
        for n, c in {**files, **big}.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(c)
        other = {"d": "directory", "none": None, "d/none": None, "": None, "f1/x": None, "f1\0": None, "f1\0x": None, "\0f1": None, "f3\0": None,
                 "x" * 15: None, "x" * 16: None, "x" * 17: None}
        long = {"y" * n: None for n in (254, 255, 256, 4095, 4096, 8191, 8192, 8193, 20000)}
        sets = [("small", loads(r, {**files, **other}, thorough)), ("asan", loads(r, {**files, **big, **other, **long}, False))]
        skipped = 0
        for config, jobs in sets:
            tag = "C22-" + config

            def validate(jobs, tag, count=True):
                res = run_loads(jobs, config, d, tag)
                bad = [(i, "crash") for i, x in enumerate(res) if "crash" in x]
                good = [i for i, x in enumerate(res) if "crash" not in x and "skip" not in x]
                got = tlc_rejects(run, "IoTrace", [res[i] for i in good], tag, count)
                return bad + [(good[i], k) for i, k in got], sum("skip" in x for x in res)

            bad, n = validate(jobs, tag)
            skipped += n
            if bad:
                ids = sorted({i for i, _ in bad})[:100]
                for j, kind in validate([jobs[i] for i in ids], tag + "-again", False)[0]:
                    fn, path, pre, scripted, c, plan = jobs[ids[j]]
                    run.violation("load-%s-%s-%r-%s" % (config, kind, path[:40], c.hex()[:40]),
                                  "%s of %r (%s), content %r (%d bytes), reads %s, before %r" % (kind, path[:60], config, c[:60], len(c), plan[:20], pre))
        run.extra["scripted_skipped"] = skipped

        # the program
        cli = vlib.build(["cli"], "asan")["cli"]
        rec = vlib.build(["rec"])["rec"]
        jobs = runs(r, thorough)
        env = dict(os.environ)
        env.update(vlib.ASAN_ENV)

        def one(k, job):
            args, c, to, room, before = job
            w = os.path.join(top, "run%d" % k)
            os.makedirs(os.path.join(w, "dir"))
            try:
                if c == "directory":
                    os.makedirs(os.path.join(w, args[0]))
                elif c is not None and args:
                    with open(os.path.join(w, args[0]), "wb") as f:
                        f.write(c)
                target = os.path.join(w, "out" if to != "same" else args[0])
                if before is not None:
                    with open(target, "wb") as f:
                        f.write(before)
                look = lambda: (open(target, "rb").read() if os.path.exists(target) else None)  # noqa: E731
                had = look()

                def limit():
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    if room >= 0 and to != "full":
                        resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))

                with open(os.path.join(w, "stdout"), "wb") as so:
                    p = subprocess.run([cli] + args, cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE, timeout=120,
                                       preexec_fn=limit)
                so = open(os.path.join(w, "stdout"), "rb").read()
                has = look()
                return {"n": len(args), "name": list(args[0].encode()) if args else [], "there": int(isinstance(c, bytes)),
                        "c": list(c) if isinstance(c, bytes) else [],
                        "to": {"full": "file", "same": "file"}.get(to, to), "room": room, "before": list(had or b""), "had": int(had is not None),
                        "so": list(so), "se": int(bool(p.stderr)), "file": list(has or b""), "has": int(has is not None),
                        "seen": int(to != "full"), "exit": p.returncode, "html": []}
            finally:
                shutil.rmtree(w, ignore_errors=True)

        def record(jobs):
            with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
                res = list(ex.map(lambda a: one(*a), enumerate(jobs)))
            # what the library says about the same text
            import names
            paths = {bytes(x["name"]).decode() for x in res if x["n"]}
            lang = {p: lookup(p) for p in paths}
            need = [(k, lang[bytes(x["name"]).decode()]) for k, x in enumerate(res) if x["n"] and x["there"] and lang[bytes(x["name"]).decode()]]
            out = vlib.record(rec, [(1, l, 0, 512, 1 << 16, bytes(res[k]["c"])) for k, l in need], "C22-html")
            for (k, _), y in zip(need, out):
                res[k]["html"] = list(bytes.fromhex(y.get("h", "")))
            return res

        table = re.findall(r'<<"([^"]+)", (\d+)>>', open(os.path.join(vlib.SPEC, "Languages.tla")).read())
        table = {a: int(b) for a, b in table}

        def lookup(path):
            return table.get(path.rsplit(".", 1)[1], 0) if "." in path else 0

        bad = tlc_rejects(run, "Cli", record(jobs), "C22-cli", True)
        for x in jobs[:6]:
            run.sample("ulight %s: input %r, room %d" % (" ".join(x[0]), x[1] if not isinstance(x[1], bytes) else x[1][:30], x[3]))
        if bad:
            ids = sorted({i for i, _ in bad})[:60]
            for j, kind in tlc_rejects(run, "Cli", record([jobs[i] for i in ids]), "C22-cli-again", False):
                args, c, to, room, before = jobs[ids[j]]
                run.violation("cli-%s-%s-%d-%r" % (" ".join(args), to, room, c if not isinstance(c, bytes) else c[:20]),
                              "ulight %s (%s, room %d, input %r) was not %s properly" % (" ".join(args), to, room, c[:60] if c else c, kind))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    run.assumptions += ["Read errors in the middle of files are injected where files are opened by fopen.",
                        "At most 33 KB per file; the HTML expected of the program is that of the library (C02)."]
    return run.finish()
