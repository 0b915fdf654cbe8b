"""C29: style sheets of themes."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess

import c14
import names
import vlib


def rules(css):
    """[[media, prefix, target, kind, [[property, value]]]], or None if it is not of the expected form."""
    out = []
    media = ""
    depth = 0
    pos = 0
    for m in re.finditer(r"([^{}]*)([{}])", css):
        head, b = m.group(1).strip(), m.group(2)
        pos = m.end()
        if b == "{" and head.startswith("@media"):
            if depth:
                return None
            media = head[6:].strip()
            depth = 1
        elif b == "{":
            out.append([media, head, None])
            depth += 2
        elif depth >= 2:
            decls = []
            for d in head.split(";"):
                if d.strip():
                    p, _, x = d.partition(":")
                    decls.append([p.strip(), x.strip()])
            out[-1][2] = decls
            depth -= 2
        elif depth == 1:
            if head:
                return None
            media = ""
            depth = 0
        else:
            return None
    if depth or css[pos:].strip():
        return None
    res = []
    for media, sel, decls in out:
        sels = [" ".join(x.split()) for x in re.split(r",(?![^\[]*\])", sel)]
        got = set()
        m = re.fullmatch(r"(?:(\S+) )?h-\[data-h\^=\"?([a-z_]+)\"?\]", sels[0])
        if m and len(sels) == 1:
            res.append([media, m.group(1) or "", m.group(2), "type", decls])
            continue
        for s in sels:
            m = re.fullmatch(r"(.*?)( ?)\.ulight-(code|code-block)", s)
            if not m:
                return None
            got.add((m.group(1), m.group(2), m.group(3)))
        prefixes = {g[0] for g in got}
        if len(prefixes) != 1:
            return None
        p = prefixes.pop()
        joins = {""} if p == "" else {"", " "}
        for kind, targets in (("foreground", ("code", "code-block")), ("background", ("code-block",))):
            if got == {(p, j, t) for j in joins for t in targets}:
                res.append([media, p, "", kind, decls])
                break
        else:
            return None
    return res


def kind(x):
    return "s" if isinstance(x, str) else "n" if isinstance(x, (int, float)) and not isinstance(x, bool) else "o" if isinstance(x, dict) else "x"


def show(x):
    return x if isinstance(x, str) else json.dumps(x) if kind(x) == "n" else "?"


def themes(r, longs, n):
    out = []
    colors = ["red", "#123456", "#fff", "rgb(1, 2, 3)", "$a", "$b", "$c", "$white"]
    props = ["color", "font-weight", "font-style", "background-color", "text-decoration"]

    def value(bad):
        k = r.random()
        if k < .6:
            return r.choice(colors) if not bad or r.random() < .7 else r.choice(["", "$none", "$", "$loop", "$self", "$number"])
        return {p: (r.choice(colors + ["bold", 700, "italic"]) if not bad or r.random() < .8 else r.choice(["$none", "$loop", "$number"]))
                for p in r.sample(props, r.randrange(1, 4))}

    for _ in range(n):
        bad = r.random() < .3
        pal = {"a": "#0a0a0a", "b": "$a", "c": "$b", "white": "white"}
        if bad:
            pal.update({"loop": "$loop2", "loop2": "$loop", "self": "$self", "number": 5})
        items = list(pal.items())
        r.shuffle(items)
        t = {"meta": {"name": "x"}, "palette": dict(items)}
        if r.random() < .05:
            del t["palette"]
        for v in r.sample(["light", "dark"], r.choice([1, 2, 2])):
            root = r.choice(longs)
            family = [x for x in longs if x.split("-")[0] == root.split("-")[0]]
            keys = r.sample(family, min(len(family), r.choice([1, 3, 8, 20]))) + r.sample(longs, r.choice([0, 2, 10]))
            keys = list(dict.fromkeys(keys))
            if r.random() < .6:
                keys.append("background")
            if r.random() < .6:
                keys.append("foreground")
            r.shuffle(keys)
            d = {}
            for k in keys:
                x = value(bad and r.random() < .15)
                if k in ("background", "foreground") and not isinstance(x, str):
                    x = x if bad and r.random() < .5 else "black"
                d[k] = x
            if bad and r.random() < .1:
                d[r.choice(["name-nothing", "Comment", "comment_doc", "h", ""])] = "red"
            t[v] = d
        if bad and r.random() < .1:
            t[r.choice(["Light", "dim", "colors"])] = {}
        out.append((t, r.choice(["x", "my-theme", "vs_plus", "T1"]), r.choice(["plain", "named", "cowel"]), r.random() < .3, r.random() < .3))
    return out


def check():
    run = vlib.Run("C29")
    thorough = vlib.TIER == "thorough"
    r = vlib.rng("C29")
    rs, crashes = names.record([], "C29")
    types = [[x["long"], x["short"]] for x in rs if x["k"] == "type" and x["long"]]
    if crashes or not types:
        raise vlib.CheckError("no names of types")
    tp = os.path.join(vlib.BUILD, "C29-types.json")
    with open(tp, "w") as f:
        json.dump(types, f)
    longs = [a for a, _ in types]
    # names which the script does not know are decided by C14
    jobs = themes(r, longs, 6000 if thorough else 1000)
    for p in sorted(glob.glob(os.path.join(vlib.REPO, "themes/*.json"))):
        if p.endswith("schema.json"):
            continue
        t = json.load(open(p))
        for how in ("plain", "named", "cowel"):
            for b in (False, True):
                jobs.append((t, os.path.basename(p)[:-5], how, b, r.random() < .5))
    d = os.path.join(vlib.BUILD, "themes")
    shutil.rmtree(d, ignore_errors=True)
    m = os.path.join(d, "node_modules", "yargs")
    os.makedirs(m)
    with open(os.path.join(m, "index.js"), "w") as f:
        f.write(c14.YARGS)
    shutil.copy(os.path.join(vlib.REPO, "scripts/theme-to-css.cjs"), os.path.join(d, "theme-to-css.cjs"))

    def one(k):
        t, name, how, nb, nf = jobs[k]
        w = os.path.join(d, str(k))
        os.makedirs(w, exist_ok=True)
        try:
            p = os.path.join(w, name + ".json")
            with open(p, "w") as f:
                json.dump(t, f)
            args = (["--themed"] if how == "named" else ["--cowel"] if how == "cowel" else [])
            args += ["--no-block-background"] * nb + ["--no-block-foreground"] * nf
            out = os.path.join(w, "out.css") if k % 2 else None
            x = subprocess.run(["node", os.path.join(d, "theme-to-css.cjs"), "--input", p] + args + (["--output", out] if out else []),
                               capture_output=True, text=True, timeout=120)
            css = (open(out).read() if os.path.exists(out) else "") if out else x.stdout
            rl = rules(css) if x.returncode == 0 else []
            ent = lambda a, b: [a, kind(b), show(b) if kind(b) != "o" else [[p, kind(y), show(y)] for p, y in b.items()]]  # noqa: E731
            return {"pal": [[a, kind(b), show(b)] for a, b in t.get("palette", {}).items()],
                    "var": [[v, [ent(a, b) for a, b in e.items()]] for v, e in t.items() if v not in ("meta", "palette", "$schema")],
                    "how": how, "name": name.replace("_", "-"), "nobg": int(nb), "nofg": int(nf), "exit": x.returncode,
                    "said": int(bool(x.stderr)), "out": int(bool(css)), "rules": rl if rl is not None else [["not understood", "", "", "", []]]}
        finally:
            shutil.rmtree(w, ignore_errors=True)

    def validate(ids, tag, count=True):
        with concurrent.futures.ThreadPoolExecutor(vlib.NCPU) as ex:
            res = list(ex.map(one, ids))
        path = os.path.join(vlib.BUILD, "trace-%s.ndjson" % tag)
        with open(path, "w") as f:
            f.write("\n".join(json.dumps(x, separators=(",", ":")) for x in res) + "\n")
        t = vlib.tlc("Theme", "SPECIFICATION Spec\n", env={"TRACE": path, "TYPES": tp}, tag=tag, heap="8g")
        os.remove(path)
        if count:
            run.add_tlc(t)
            run.traces += len(res)
        return [(ids[int(x.group(1)) - 1], x.group(2)) for x in re.finditer(r'<<"REJECT", (\d+), "([^"]+)">>', t.out)]

    bad = validate(list(range(len(jobs))), "C29")
    if bad:
        for k, what in validate(sorted({k for k, _ in bad})[:60], "C29-again", False):
            t, name, how, nb, nf = jobs[k]
            run.violation("%s-%s-%s" % (what, name, how), "%s of the style sheet (%s, %s%s) of %s" % (
                what, name, how, ", no background" * nb + ", no foreground" * nf, json.dumps(t)[:600]), {"theme": t})
    for k in range(0, len(jobs), max(1, len(jobs) // 5)):
        run.sample("%s %s" % (jobs[k][2], json.dumps(jobs[k][0])[:120]))
    run.assumptions += ["The command line is parsed by a stand-in for yargs, which is not installed here."]
    shutil.rmtree(d, ignore_errors=True)
    return run.finish()
