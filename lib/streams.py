"""Sessions of the highlighting API: bulk exploration (fuzz.cpp), recording (rec.cpp) and validation
of the recorded sessions against spec/Session.tla."""
import ast
import glob
import os
import re
import subprocess
import json

import vlib
from vlib import LANGS, LANG_NAMES, REPO, BUILD, CheckError

CORPUS_DIRS = {"bash": "bash", "c": "c", "cowel": "cowel", "cpp": "cpp", "css": "css", "diff": "diff",
               "ebnf": "ebnf", "html": "html", "java": "java", "js": "js", "json": "json",
               "jsonc": "jsonc", "kotlin": "kotlin", "latex": "latex", "llvm": "llvm", "lua": "lua",
               "markdown": "markdown", "nasm": "nasm", "python": "python", "rust": "rust", "tex": "tex",
               "txt": "txt", "ts": "typescript", "xml": "xml", "yaml": "yaml"}

# which source files hold the lexemes of a language
LEXEME_FILES = {l: [l] for l in LANGS}
LEXEME_FILES.update({"c": ["cpp"], "ts": ["js"], "jsonc": ["json", "js"], "json": ["json", "js"],
                     "latex": ["tex"], "html": ["html", "css", "js"], "txt": ["tex"],
                     "kotlin": ["kotlin"], "markdown": ["markdown", "html"], "cowel": ["cowel"]})

GENERIC = ["<", ">", "&", "\"", "'", "`", "{", "}", "[", "]", "(", ")", "//", "/*", "*/", "#", "<!--", "-->",
           "<![CDATA[", "]]>", "<script>", "</script>", "<style>", "</style>", "\n", "\r\n", "\r", "\\",
           "\\\n", "\\\r\n", "\u00e9", "\u20ac", "\U0001f600", "\u0301", "\u2028", "\u00a0", "\ufeff",
           "$", "${", "%", "---", "***", "===", "|", ":", "- ", "? ", "@", "!", "0x", "0b1", "1e", "1.",
           "..", "...", "'''", "\"\"\"", "--", "[[", "]]", "=", ";", ",", "\t", " ", "r#", "R\"x(", ")x\"",
           "b'", "f\"", "let", "if", "true", "null", "# ", "```", "~~~", "<?", "?>", "<!", "&amp;",
           "&#x1F;", "*", "_", "\0", "\\u", "\\x", "\\u{", "\\n", "u8\"", "L'", "0x1F", "1'0", "1_0",
           "1.5e+3", "0b", ".5", "12", "abc", "x1", "é1", "0", "a", "//\n", "/**/", "##", "{{", "}}",
           "{%", "<a ", "b=\"c\"", "/>", "</a>", "a=b", "(*", "*)", "%%", "\\begin{", "\\end{", "@a",
           "$a", "#{", "#if", "#define A", "<<", ">>", "->", "=>", "::", "&&", "||", "<<EOF\n", "EOF\n",
           "    ", "  - ", "> ", "1. ", "--[[", "--[==[", "]==]", "diff", "+++ ", "@@ -1 +1 @@", "+", "-"]
RAW = [b"\x80", b"\xff", b"\xed\xa0\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xf4\x90\x80\x80"]


def source_lexemes(lang):
    """String and character literals of the language's own sources: keywords, delimiters, ..."""
    out = set()
    for stem in LEXEME_FILES[lang]:
        for p in (os.path.join(REPO, "src/main/cpp/lang", stem + ".cpp"),
                  os.path.join(REPO, "include/ulight/impl/lang", stem + ".hpp")):
            if not os.path.exists(p):
                continue
            text = open(p, encoding="utf-8", errors="replace").read()
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.)+)\'', text):
                raw = m.group(1) if m.group(1) is not None else m.group(2)
                try:
                    s = ast.literal_eval('"' + raw.replace('"', '\\"').replace('\\\\"', '\\"') + '"') \
                        if '"' not in raw else ast.literal_eval("'''" + raw.replace("'", "\\'") + "'''")
                except Exception:
                    continue
                if 0 < len(s) <= 24:
                    out.add(s)
    return out


def dictionary(lang):
    d = {x.encode("utf-8") for x in GENERIC} | set(RAW)
    d |= {x.encode("utf-8", "surrogatepass") for x in source_lexemes(lang)}
    return sorted(d)


def corpus_files(lang):
    fs = []
    for p in sorted(glob.glob(os.path.join(REPO, "test/highlight", CORPUS_DIRS[lang], "**", "*"), recursive=True)):
        if os.path.isfile(p) and os.path.getsize(p) < 20000:
            if p.endswith(".html"):
                t = open(p, "rb").read()
                if b"<h- " in t:
                    continue
            fs.append(p)
    extra = os.path.join(vlib.VERIF, "corpus", lang)
    fs += sorted(glob.glob(extra + "/*"))
    return fs


def fuzz(rules, batches, per, langs=None, tag="fuzz", config="asan", timeout=800):
    """Runs the bulk driver. Returns (suspicious runs, samples, per-language statistics)."""
    bins = vlib.build(["fuzz", "rec"], config)
    d = os.path.join(BUILD, "fuzz-" + tag)
    os.makedirs(d, exist_ok=True)
    langs = langs or sorted(LANGS.values())
    with open(os.path.join(d, "corpus"), "w") as f:
        for l in langs:
            for p in corpus_files(LANG_NAMES[l]):
                f.write("%d %s\n" % (l, p))
    with open(os.path.join(d, "dict"), "w") as f:
        for l in langs:
            for s in dictionary(LANG_NAMES[l]):
                f.write("%d %s\n" % (l, s.hex()))
    out = os.path.join(d, "out")
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    r = subprocess.run([bins["fuzz"], out, str(vlib.NCPU), str(vlib.SEED), str(batches), str(per), rules,
                        os.path.join(d, "corpus"), os.path.join(d, "dict")] + [str(l) for l in langs],
                       env=e, capture_output=True, timeout=timeout)
    if r.returncode != 0:
        raise CheckError("fuzz driver failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    susp, samples, stats, ncrash = [], [], {}, 0
    with open(out, "rb") as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                x = json.loads(line)
            except ValueError:
                continue
            if "stat" in x:
                s = stats.setdefault(x["lang"], [0, 0, 0])
                for k in range(3):
                    s[k] += x["stat"][k]
            elif "crash" in x:
                note = bytes.fromhex(x["note"])
                ncrash += 1
                if len(note) >= 6:
                    susp.append({"why": x["crash"], "lang": note[0], "flags": note[1],
                                 "cap": int.from_bytes(note[2:6], "little"), "src": note[6:]})
                else:
                    raise CheckError("driver crashed outside of a run: %r" % x)
            else:
                x["src"] = bytes.fromhex(x["src"])
                (samples if x["why"] == "sample" else susp).append(x)
    if not stats and not ncrash:
        raise CheckError("fuzz driver produced nothing")
    return susp, samples, stats, bins


def continuation_offsets(src):
    """Offsets inside of code points, if src is well-formed UTF-8; otherwise none are known."""
    try:
        src.decode("utf-8")
    except UnicodeDecodeError:
        return []
    return [i for i, b in enumerate(src) if b & 0xC0 == 0x80]


NEUTRAL = {l for l in LANGS.values() if LANG_NAMES[l] not in ("c", "cpp", "json")}


class Sessions:
    """A batch of sessions to record and validate together."""

    def __init__(self, run, bins, tag):
        self.run, self.bins, self.tag = run, bins, tag
        self.items = []   # (lang, src, [(flags, cap)])

    def add(self, lang, src, calls):
        self.items.append((lang, src, calls))

    def _record(self, items, tag):
        jobs, idx = [], []
        for n, (lang, src, calls) in enumerate(items):
            for (f, c) in calls:
                jobs.append((0, lang, f, c, 0, src))
                idx.append(n)
        res = vlib.record(self.bins["rec"], jobs, tag)
        per = [[] for _ in items]
        for j, r, n in zip(jobs, res, idx):
            per[n].append((j, r))
        return per

    def _trace(self, items, per, path):
        with open(path, "w") as f:
            for n, ((lang, src, calls), rs) in enumerate(zip(items, per)):
                ev = []
                for (j, r) in rs:
                    ev.append(["B", "tok", j[2], j[3]])
                    if "crash" in r:
                        ev.append(["X", r["crash"], r["code"]])
                        break
                    p = 0
                    for q in r["fl"]:
                        for t in r["t"][p:p + q]:
                            ev.append(["E"] + [min(v, 2**31 - 1) for v in t])
                        p += q
                        ev.append(["F", min(q, 2**31 - 1), r["ptr"]])
                    ev.append(["R", r["st"], r["same"]])
                f.write(json.dumps({"id": n, "n": len(src), "cont": continuation_offsets(src),
                                    "neutral": 1 if lang in NEUTRAL else 0, "ev": ev}) + "\n")

    CFG = """SPECIFICATION TraceSpec
INVARIANTS TypeOK StreamOrdered StreamInside NothingLost
"""

    def validate(self, describe):
        """Validates everything; rejected sessions are recorded and validated once more."""
        if not self.items:
            return
        rej = self._pass(self.items, self.tag, count=True)
        if rej:
            again = [self.items[i] for i in rej]
            rej2 = self._pass(again, self.tag + "-again", count=False)
            if not rej2:
                raise CheckError("%d rejections did not repeat" % len(rej))
            for i in rej2:
                lang, src, calls = again[i]
                key = "%s:%s" % (LANG_NAMES[lang], src[:60].hex())
                self.run.violation(key, describe(lang, src, calls),
                                   {"lang": LANG_NAMES[lang], "src_hex": src.hex(), "calls": calls,
                                    "recorded": [r for _, r in self._record([again[i]], self.tag + "-rep")[0]]})

    def _pass(self, items, tag, count):
        per = self._record(items, tag)
        p = os.path.join(BUILD, "trace-%s.ndjson" % tag)
        self._trace(items, per, p)
        r = vlib.tlc("SessionTrace", self.CFG, env={"TRACE": p}, tag="session-" + tag)
        if count:
            self.run.add_tlc(r)
            self.run.traces += len(items)
        os.remove(p)
        return sorted({int(re.match(r'<<"REJECT", (\d+),', l).group(1)) for l in r.prints
                       if l.startswith('<<"REJECT"')})


HTML_NAMES = [("h-", "data-h"), ("b", "x"), ("span", "class"), ("h-", "data-h"), ("a:b-c_d", "A_1"),
              ("verylongtagname" * 3, "data-" + "very-long-attribute-name-" + "very-long-attribute-name"),
              ("\u00e9", "&<>")]
HTML_NAMES[5] = ("verylongtagnameverylongtagnameverylongtagname",
                 "data-very-long-attribute-name-very-long-attribute-name")


class HtmlCalls:
    """Calls of ulight_source_to_html to record and validate by spec/HtmlTrace.tla."""

    def __init__(self, run, bins, tag):
        self.run, self.bins, self.tag = run, bins, tag
        self.items = []   # (lang, src, flags, tokcap, textcap, names index)

    def add(self, *item):
        self.items.append(item)

    def _pass(self, items, tag, count):
        jobs = []
        for (lang, src, flags, cap, tcap, nm) in items:
            jobs.append((0, lang, flags, cap, 0, src))
            jobs.append((1 + nm, lang, flags, cap, tcap, src))
        res = vlib.record(self.bins["rec"], jobs, tag)
        p = os.path.join(BUILD, "trace-%s.ndjson" % tag)
        with open(p, "w") as f:
            for n, (lang, src, flags, cap, tcap, nm) in enumerate(items):
                a, b = res[2 * n], res[2 * n + 1]
                if "crash" in a or "crash" in b:
                    x = {"st": 99, "toks": [], "ok": 0, "fl": [], "h": []}
                else:
                    toks = a["t"] if all(t[0] + t[1] <= len(src) and t[2] < 256 for t in a["t"]) else []
                    x = {"st": b["st"] if b["st"] == 0 else 99, "toks": toks, "ok": b["ptr"] & b["same"],
                         "fl": [min(q, 2**31 - 1) for q in b["fl"]], "h": list(bytes.fromhex(b["h"]))}
                tag_, attr = HTML_NAMES[nm]
                x.update({"id": n, "src": list(src), "tag": list(tag_.encode()), "attr": list(attr.encode()),
                          "cap": tcap})
                f.write(json.dumps(x) + "\n")
        r = vlib.tlc("HtmlTrace", "SPECIFICATION TraceSpec\nINVARIANT Progress\n", env={"TRACE": p}, tag="html-" + tag)
        if count:
            self.run.add_tlc(r)
            self.run.traces += len(items)
        os.remove(p)
        return sorted({int(re.match(r'<<"REJECT", (\d+),', l).group(1)) for l in r.prints
                       if l.startswith('<<"REJECT"')})

    def validate(self):
        if not self.items:
            return
        rej = self._pass(self.items, self.tag, True)
        if rej:
            again = [self.items[i] for i in rej]
            rej2 = self._pass(again, self.tag + "-again", False)
            if not rej2:
                raise CheckError("%d rejections did not repeat" % len(rej))
            for i in rej2:
                lang, src, flags, cap, tcap, nm = again[i]
                self.run.violation("html:%s:%s" % (LANG_NAMES[lang], src[:60].hex()),
                                   "HTML of lang=%s source=%r flags=%d token buffer=%d text buffer=%d names=%r" % (
                                       LANG_NAMES[lang], src[:120], flags, cap, tcap, HTML_NAMES[nm]),
                                   {"lang": LANG_NAMES[lang], "src_hex": src.hex(), "flags": flags,
                                    "tokcap": cap, "textcap": tcap, "names": HTML_NAMES[nm]})


def design(run):
    """The exhaustive exploration of the design of Session."""
    r = vlib.tlc("SessionModel", """SPECIFICATION Spec
CONSTANTS N = 3 Caps = {1,2} MaxCalls = 2 SomeTypes = {1,16}
INVARIANTS TypeOK StreamOrdered StreamInside NothingLost MergedIsCanonical
PROPERTY DeliveredMonotone
""", tag="design-" + run.prop)
    run.add_tlc(r)
    run.extra["design_states"] = r.states


def standard(run, rules, calls_of, batches, per, langs=None, extra=(), max_samples=400, html_of=None):
    """fuzz -> validate suspicious runs and samples. calls_of(flags, cap, why) -> list of calls."""
    design(run)
    susp, samples, stats, bins = fuzz(rules, batches, per, langs, tag=run.prop)
    run.extra["inputs_run"] = sum(s[0] for s in stats.values())
    run.extra["calls_run"] = sum(s[1] for s in stats.values())
    run.extra["tokens_seen"] = sum(s[2] for s in stats.values())
    run.extra["languages"] = len(stats)
    S = Sessions(run, bins, run.prop)
    H = HtmlCalls(run, bins, run.prop + "-html")
    seen = {}
    nsus = 0
    for x in sorted(susp, key=lambda x: len(x["src"])):
        k = (x["lang"], x["why"])
        seen[k] = seen.get(k, 0) + 1
        html = x["why"] == "html" or x["flags"] & 0x80
        if seen[k] <= 3 and nsus < 40:
            nsus += 1
            if html:
                for tc in (1, 2, 5, 64, 4096, max(1, min(x["cap"], 100000))):
                    for cap in (1, max(1, min(x["cap"], 100000)), 4096):
                        H.add(x["lang"], x["src"], x["flags"] & 3, cap, tc, tc % 7)
            else:
                S.add(x["lang"], x["src"], calls_of(x["flags"], x["cap"], x["why"]))
    r = vlib.rng("samples")
    r.shuffle(samples)
    for n, x in enumerate(samples[:max_samples]):
        if calls_of:
            S.add(x["lang"], x["src"], calls_of(x["flags"], x["cap"], "sample"))
        for (f, c, tc, nm) in (html_of(n, x) if html_of else []):
            H.add(x["lang"], x["src"], f, c, tc, nm)
    for (lang, src, calls) in extra:
        S.add(lang, src, calls)
    for x in samples[:5]:
        run.sample({"lang": LANG_NAMES[x["lang"]], "source": repr(x["src"][:80]),
                    "calls": calls_of(x["flags"], x["cap"], "sample") if calls_of else html_of(0, x)})
    before = len(run.violations)
    H.validate()
    S.validate(lambda l, s, c: "lang=%s source=%r calls(flags,buffer)=%r" % (LANG_NAMES[l], s[:120], c))
    if susp and len(run.violations) == before:
        raise CheckError("the monitor of the driver and the specification disagree: %r" % (
            [(x["why"], LANG_NAMES[x["lang"]], x["flags"], x["cap"], x["src"][:200]) for x in susp[:5]],))
    return S
