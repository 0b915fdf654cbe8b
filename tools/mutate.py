#!/usr/bin/env python3
"""tools/mutate.py FILE LANG[,LANG...] N [SEED] [FIRST-LAST]: N random mutations of FILE (relative to /repo), and which of them no text
of the lexical checks tells from the unchanged tree.  A tool for development; no check uses it."""
import concurrent.futures
import hashlib
import importlib
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "../lib"), os.path.join(HERE, "../checks")]
os.environ.setdefault("VERIF_BUILD", "/tmp/w/mut/build")
import lexchk
import lexgen
import jsonchk
import vlib

FLAGS = ["-std=c++23", "-w", "-O0"]
SWAPS = [(r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<"]), (r">=", [">"]), (r"(?<![<\-=>])<(?![<=])(?= )", ["<="]), (r"(?<= )(?<![<\->])>(?![>=])(?= )", [">="]),
         (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"\+=", ["-="]),
         (r"(?<![\w.])(\d+)(?![\w.])", ["+1", "-1"]), (r"(?<=\()!(?=\w)", [""]), (r"(?<= )!(?=\w)", [""]),
         (r"\.remove_prefix\(", ["DROP"]), (r"\badvance\(", ["DROP"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["DROP", "continue;"]),
         (r"Highlight_Type::\w+", ["TYPE"]), (r"u8'(?:[^'\\]|\\.)'", ["CHAR"]), (r"\bif \((?!constexpr)", ["IFT", "IFF"]), (r"\breturn (?!\{)[^;]+;", ["RET"])]


def mutants(s, n, r):
    """Random single changes of the text of a C++ file: (line number, old line, new line)."""
    lines = s.split("\n")
    types = sorted(set(re.findall(r"Highlight_Type::\w+", s)))
    chars = sorted(set(re.findall(r"u8'(?:[^'\\]|\\.)'", s)))
    sites = []
    for i, l in enumerate(lines):
        c = l.strip()
        if not c or c.startswith(("//", "#", "*", "/*", "static_assert", "ULIGHT_ASSERT", "ULIGHT_DEBUG", "template", "using", "case ")) and "DROPCASE" not in c:
            continue
        for k, (p, rs) in enumerate(SWAPS):
            for m in re.finditer(p, l):
                for x in rs:
                    sites.append((k, i, m.start(), m.end(), x))
        if re.fullmatch(r"\s*[\w:.>\-]+\([^{}]*\);", l):
            sites.append((99, i, 0, len(l), "DROP"))
    kinds = sorted({x[0] for x in sites})
    out, seen = [], set()
    for _ in range(n * 30):
        if len(out) >= n:
            break
        # half of the time uniformly over sites, half over kinds of change
        k = r.choice(kinds)
        x = r.choice(sites) if r.random() < .7 else r.choice([y for y in sites if y[0] == k])
        k, i, a, b, how = x
        l = lines[i]
        if how == "DROP":
            if not re.fullmatch(r"\s*[^{}]*;", l) or "return" in l:
                continue
            new = re.match(r"\s*", l).group(0) + ";"
        elif how == "+1":
            new = l[:a] + str(int(l[a:b]) + 1) + l[b:]
        elif how == "-1":
            new = l[:a] + str(max(0, int(l[a:b]) - 1)) + l[b:]
        elif how == "TYPE":
            new = l[:a] + r.choice(types) + l[b:]
        elif how == "CHAR":
            new = l[:a] + r.choice(chars) + l[b:]
        elif how == "IFT":
            new = l[:b] + "true || " + l[b:] if l.rstrip().endswith("{") and ";" not in l[b:] and " = " not in l[b:] else l
        elif how == "IFF":
            new = l[:b] + "false && " + l[b:] if l.rstrip().endswith("{") and ";" not in l[b:] and " = " not in l[b:] else l
        elif how == "RET":
            e = l[a:b]
            new = l[:a] + ("return false;" if "true" in e else "return true;" if "false" in e else "return 0;" if re.search(r"length|size|\d", e) else "return {};") + l[b:]
        else:
            new = l[:a] + how + l[b:]
        if new == l or (i, new) in seen:
            continue
        seen.add((i, new))
        out.append((i, l, new))
    return out


def decides():
    """(property, families, focus, languages, n, make) of every lexical check."""
    got = []
    lexchk.decide = lambda prop, fam, focus, langs, n, thorough=12, config="plain", make=None: got.append((prop, fam, focus, langs, n, make))
    for f in sorted(os.listdir(os.path.join(HERE, "../checks"))):
        if f.endswith(".py") and "lexchk.decide" in open(os.path.join(HERE, "../checks", f)).read():
            importlib.import_module(f[:-3]).check()
    return got


def family(ty):
    table = {"comment": "comment", "comment_delim": "comment", "comment_doc": "comment", "comment_doc_delim": "comment"}
    for x in "keyword keyword_control keyword_type keyword_op keyword_this bool null value value_delim".split():
        table[x] = "keyword"
    if ty in table:
        return table[ty]
    return ty.split("_")[0]


def main():
    path, langs, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
    seed = sys.argv[4] if len(sys.argv) > 4 else "1"
    work = tempfile.mkdtemp(dir="/tmp/w/mut" if os.path.isdir("/tmp/w/mut") else None)
    src = vlib.lib_sources()
    inc = "-I" + os.path.join(vlib.REPO, "include")
    base = "/tmp/w/mut/base-" + vlib._headers_digest()[:12]
    os.makedirs(base, exist_ok=True)

    def obj(s):
        return os.path.join(base, os.path.relpath(s, vlib.REPO).replace("/", "_") + ".o")

    todo = [(s, obj(s)) for s in src] + [(os.path.join(vlib.HARNESS, "rec.cpp"), os.path.join(base, "rec.o"))]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: os.path.exists(j[1]) or subprocess.run([vlib.CXX] + FLAGS + [inc, "-I" + vlib.HARNESS, "-c", j[0], "-o", j[1]], check=True), todo))
    full = os.path.join(vlib.REPO, path)
    if path.endswith(".cpp"):
        deps = [full]
    else:
        mm = lambda s: subprocess.run([vlib.CXX] + FLAGS + [inc, "-MM", s], capture_output=True, text=True).stdout  # noqa: E731
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            deps = [s for s, o in zip(src, ex.map(mm, src)) if full in o]
    rest = [obj(s) for s in src if s not in deps] + [os.path.join(base, "rec.o")]
    names = jsonchk.type_names()
    items = []   # (lang, strict, text, families)
    for prop, fam, focus, ls, k, make in decides():
        for l in ls:
            if l in langs:
                items += [(a, b, c, fam, prop) for a, b, c in (make(k * 3, prop) if make else lexgen.texts(l, k * 3, prop, focus))]
    jobs = [(0, vlib.LANGS[l], 2 if s else 0, 512, 0, x) for l, s, x, _, _ in items]
    b0 = os.path.join(work, "rec0")
    subprocess.run([vlib.CXX] + FLAGS + [obj(s) for s in src] + [os.path.join(base, "rec.o"), "-pthread", "-ldl", "-o", b0], check=True)

    def view(res):
        return [("crash",) if "crash" in y or y["st"] != 0 else tuple((a, b, names.get(c)) for a, b, c in y["t"]) for y in res]

    good = view(vlib.record(b0, jobs, "mut0", workers=8))
    text = open(full, encoding="utf-8").read()
    ms = mutants(text, n, random.Random(seed + path))
    print("%s: %d mutants, %d texts" % (path, len(ms), len(items)), flush=True)

    def differs(x, a, b, fam):
        if a == b:
            return None
        if b == ("crash",) or fam is None:
            return "all"
        for f in fam:
            if [t for t in a if family(t[2] or "none") == f] != [t for t in b if family(t[2] or "none") == f]:
                return f
        return None

    def one(j):
        i, old, new = ms[j]
        w = os.path.join(work, str(j))
        os.makedirs(w)
        try:
            lines = text.split("\n")
            lines[i] = new
            objs = []
            env = dict(os.environ)
            if path.endswith(".cpp"):
                p = os.path.join(w, "m.cpp")
                open(p, "w").write("\n".join(lines))
                cs = [(p, inc)]
            else:
                d = os.path.join(w, "include")
                shutil.copytree(os.path.join(vlib.REPO, "include"), d)
                open(os.path.join(w, path), "w").write("\n".join(lines))
                cs = [(s, "-I" + d) for s in deps]
            for c, ii in cs:
                o = os.path.join(w, str(len(objs)) + ".o")
                x = subprocess.run([vlib.CXX] + FLAGS + [ii, "-c", c, "-o", o], capture_output=True, env=env)
                if x.returncode:
                    return j, "no-compile", None
                objs.append(o)
            b = os.path.join(w, "rec")
            subprocess.run([vlib.CXX] + FLAGS + objs + rest + ["-pthread", "-ldl", "-o", b], check=True, capture_output=True)
            # a quick look first
            hits = {}
            for part in (range(0, len(jobs), 9), range(len(jobs))):
                try:
                    res = view(vlib.record(b, [jobs[q] for q in part], "mut%s-%d-%d" % (os.path.basename(work), os.getpid(), j), workers=1, timeout=240))
                except Exception as e:
                    return j, "killed", "failure %s" % str(e)[:60]
                for q, y in zip(part, res):
                    z = differs(items[q], good[q], y, items[q][3])
                    if z:
                        hits[items[q][4]] = hits.get(items[q][4], 0) + 1
                if sum(hits.values()) > 3:
                    break
            return j, ("killed" if hits else "SURVIVED"), hits
        finally:
            shutil.rmtree(w, ignore_errors=True)

    stat = {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for j, verdict, hits in ex.map(one, range(len(ms))):
            stat[verdict] = stat.get(verdict, 0) + 1
            if verdict == "SURVIVED" or (verdict == "killed" and isinstance(hits, dict) and sum(hits.values()) <= 3):
                print("%s %s:%d %s\n  - %s\n  + %s" % (verdict, path, ms[j][0] + 1, hits or "", ms[j][1].strip(), ms[j][2].strip()), flush=True)
    print(path, stat, flush=True)
    shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
