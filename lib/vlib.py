"""Shared machinery of the checks: building the code under test, running TLC, reporting.

Outcomes: exit 0 (held), exit 1 + VIOLATION line, anything else = error of the check itself.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ULIGHT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
OUT = os.environ.get("VERIF_OUT") or VERIF
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JAR = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")
CXX = "g++-13" if shutil.which("g++-13") else "g++"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not decide: an error exit, never a violation."""


def rng(tag=""):
    h = hashlib.sha256(f"{SEED}/{tag}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# --------------------------------------------------------------------------- building

CONFIGS = {
    # assertions of the library are on in both (NDEBUG is not defined), as in the repo's own build
    "plain": ["-O1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=enum",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # input in small blocks (harness/small.hpp)
    "small": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=enum",
              "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(HARNESS, "small.hpp")],
}


def lib_sources():
    src = sorted(glob.glob(os.path.join(REPO, "src/main/cpp/**/*.cpp"), recursive=True))
    return [s for s in src if os.path.basename(s) not in ("main.cpp", "wasm.cpp")]


def _headers_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if p.endswith((".hpp", ".h", ".cpp", ".inc", ".ipp")) and "/test/" not in p:
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def _compile(cmd, out):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return out


def build(harnesses, config="plain", extra=(), extra_sources=(), only=None):
    """Builds every harness (list of .cpp under harness/) against the library sources of /repo.

    Returns {name: binary path}. Objects are cached by the digest of everything they depend on.
    """
    flags = ["-std=c++23", "-w", "-I" + os.path.join(REPO, "include")] + CONFIGS[config] + list(extra)
    dig = hashlib.sha256((_headers_digest() + repr(flags)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "obj-%s-%s" % (config, dig))
    if not os.path.isdir(d):
        # drop stale object directories of this configuration
        for old in glob.glob(os.path.join(BUILD, "obj-%s-*" % config)):
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    jobs = []
    objs = []
    for s in [x for x in lib_sources() if only is None or os.path.basename(x) in only] + [os.path.join(REPO, x) for x in extra_sources]:
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX] + flags + ["-c", s, "-o", o + ".tmp"], o))
    hobjs = {}
    for h in harnesses:
        p = os.path.join(HARNESS, h + ".cpp")
        hd = hashlib.sha256(open(p, "rb").read()
                            + b"".join(open(x, "rb").read() for x in sorted(
                                glob.glob(os.path.join(HARNESS, "*.hpp"))))).hexdigest()[:12]
        o = os.path.join(d, "h_%s_%s.o" % (h, hd))
        hobjs[h] = o
        if not os.path.exists(o):
            jobs.append(([CXX] + flags + ["-I" + HARNESS, "-c", p, "-o", o + ".tmp"], o))
    # largest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-3]))

    def one(j):
        _compile(*j)
        os.replace(j[1] + ".tmp", j[1])

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    bins = {}
    for h, o in hobjs.items():
        b = o[:-2] + ".bin"
        if not os.path.exists(b):
            _compile([CXX] + flags + [o] + objs + ["-pthread", "-ldl", "-o", b + ".tmp"], b)
            os.replace(b + ".tmp", b)
        bins[h] = b
    return bins


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=0",
            "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=0"}

# --------------------------------------------------------------------------- TLC


class TlcResult:
    def __init__(self):
        self.states = 0          # distinct
        self.transitions = 0     # generated
        self.out = ""
        self.violated = None     # name of violated invariant/property or None
        self.prints = []
        self.wall = 0.0


def _expanded():
    """A copy of spec/ in which W("abc"), Ws({"a", "b"}) and Chars("abc") of literals are written as numbers: TLC
    would compute them anew every time."""
    lit = r'"(?:[^"\\]|\\.)*"'

    def codes(m):
        return [ord(c) for c in re.sub(r"\\(.)", lambda x: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(x.group(1), x.group(1)), m[1:-1])]

    def word(m):
        return "<<" + ", ".join(map(str, codes(m))) + ">>"

    def one(m):
        return word(m.group(1))

    def many(m):
        return "{" + ", ".join(word(x) for x in re.findall(lit, m.group(1))) + "}"

    def chars(m):
        return "{" + ", ".join(map(str, sorted(set(codes(m.group(1)))))) + "}"

    files = {}
    for p in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
        with open(p) as f:
            s = f.read()
        s = re.sub(r"\bWs\(\{(\s*" + lit + r"(?:\s*,\s*" + lit + r")*\s*)\}\)", many, s)
        s = re.sub(r"\bW\((" + lit + r")\)", one, s)
        s = re.sub(r"\bChars\((" + lit + r")\)", chars, s)
        files[os.path.basename(p)] = s
    d = os.path.join(BUILD, "spec-" + hashlib.sha256(repr(sorted(files.items())).encode()).hexdigest()[:16])
    if not os.path.isdir(d):
        t = tempfile.mkdtemp(dir=BUILD)
        for n, s in files.items():
            with open(os.path.join(t, n), "w") as f:
                f.write(s)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


def tlc(module, cfg, env=None, workers=NCPU, timeout=600, tag=None, heap="6g", args=(),
        allow_violation=False, deadlock=False, coverage=False):
    """Runs TLC on spec/<module>.tla with configuration text `cfg`."""
    tag = tag or module
    wd = os.path.join(BUILD, "tlc", tag)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    cfgp = os.path.join(wd, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    spec = _expanded()
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss128m", "-Xmx" + heap,
           "-DTLA-Library=" + spec, "-cp", JAR, "tlc2.TLC",
           "-config", cfgp, "-metadir", os.path.join(wd, "meta"), "-workers", str(workers),
           "-noGenerateSpecTE", "-lncheck", "final"]
    if not deadlock:
        cmd.append("-deadlock")
    if coverage:
        cmd += ["-coverage", "60"]
    cmd += list(args)
    cmd.append(os.path.join(spec, module + ".tla"))
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=wd)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s (%s)" % (module, tag))
    r = TlcResult()
    r.wall = time.time() - t0
    r.out = p.stdout
    with open(os.path.join(wd, "out.txt"), "w") as f:
        f.write(p.stdout + "\n--stderr--\n" + p.stderr)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    if m:
        r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
    r.prints = [l for l in p.stdout.splitlines() if l.startswith("<<") or l.startswith('"')]
    m = re.search(r"Invariant (\S+) is violated", p.stdout)
    if m:
        r.violated = m.group(1)
    m = re.search(r"(Temporal properties were violated|Action property (.*) is violated|"
                  r"The postcondition \S+ (?:is|was) violated|Postcondition \S+ is false)", p.stdout)
    if not r.violated and m:
        r.violated = m.group(1)
    shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    if p.returncode == 0 and "Model checking completed. No error has been found" in p.stdout:
        return r
    if r.violated and allow_violation:
        return r
    lines = [l for l in p.stdout.splitlines()
             if not l.startswith(("Semantic processing", "Parsing file")) and l.strip()]
    raise CheckError("TLC failed on %s (%s), exit %d:\n%s\n%s" % (
        module, tag, p.returncode, "\n".join(lines)[:2500], p.stderr[-800:]))


# --------------------------------------------------------------------------- reporting


def known_findings(prop):
    """Entries 'known: property=<id> key=<key> <text>' of KNOWN_FINDINGS.txt."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Run:
    """One run of one check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []     # (key, description, payload)
        self.known = known_findings(prop)
        self.assumptions = []

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, text, payload=None):
        self.violations.append((key, text, payload))

    def finish(self):
        new = [v for v in self.violations if v[0] not in self.known]
        seen_known = set()
        for k, t, _ in self.violations:
            if k in self.known:
                seen_known.add(k)
        for k in self.known:
            # a listed finding is printed on every run (it is reproduced when seen)
            print("KNOWN-FINDING: property=%s %s%s" % (
                self.prop, self.known[k], "" if k in seen_known else " (not exercised in this run)"))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        if new:
            rd = os.path.join(OUT, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump([{"key": k, "what": t, "payload": p} for k, t, p in new[:50]], f, indent=1,
                          default=repr)
            for k, t, _ in new[:10]:
                print("  %s: %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


# --------------------------------------------------------------------------- recording

import struct  # noqa: E402

LANGS = {"cowel": 1, "cpp": 2, "lua": 3, "html": 4, "css": 5, "c": 6, "js": 7, "bash": 8, "diff": 9,
         "json": 10, "jsonc": 11, "xml": 12, "txt": 13, "tex": 14, "latex": 15, "nasm": 16, "ebnf": 17,
         "python": 18, "kotlin": 19, "ts": 20, "rust": 21, "llvm": 22, "markdown": 23, "java": 24,
         "yaml": 25}
LANG_NAMES = {v: k for k, v in LANGS.items()}


def record(binary, jobs, tag, workers=NCPU, env=None, timeout=800):
    """jobs: list of (op, lang, flags, tokcap, textcap, bytes). Returns list of dicts in job order."""
    d = os.path.join(BUILD, "rec")
    os.makedirs(d, exist_ok=True)
    jp, op = os.path.join(d, tag + ".jobs"), os.path.join(d, tag + ".out")
    with open(jp, "wb") as f:
        for (o, l, fl, tc, xc, s) in jobs:
            f.write(struct.pack("<BBBIII", o, l, fl, tc, xc, len(s)) + s)
    e = dict(os.environ)
    e.update(ASAN_ENV)
    e.update(env or {})
    r = subprocess.run([binary, jp, op, str(workers)], env=e, capture_output=True, timeout=timeout)
    if r.returncode != 0:
        raise CheckError("recorder failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    res = [None] * len(jobs)
    with open(op, "rb") as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                x = json.loads(line)
            except ValueError:
                continue  # the partial line of a worker that died
            res[x["i"]] = x
    missing = [i for i, x in enumerate(res) if x is None]
    if missing:
        raise CheckError("recorder lost jobs %s" % missing[:5])
    os.remove(jp)
    os.remove(op)
    return res
