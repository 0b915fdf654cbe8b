#!/usr/bin/env python3
"""tools/mutcheck.py FILE N CHECK[,CHECK...] [SEED] [FIRST-LAST]: N random mutations of FILE, and which of them none of the given checks
reports.  Slow: every mutant is built and checked in a copy of /repo.  A tool for development; no check uses it."""
import os
import queue
import random
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutate

BASE = "/tmp/w/mutc"


def main():
    path, n, checks = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(",")
    seed = sys.argv[4] if len(sys.argv) > 4 else "1"
    text = open("/repo/" + path, encoding="utf-8").read()
    if len(sys.argv) > 5:
        a, b = map(int, sys.argv[5].split("-"))
        ms = [m for m in mutate.mutants(text, n * 20, random.Random(seed + path)) if a <= m[0] + 1 <= b][:n]
    else:
        ms = mutate.mutants(text, n, random.Random(seed + path))
    q = queue.Queue()
    for m in ms:
        q.put(m)
    print("%s: %d mutants" % (path, len(ms)), flush=True)
    tally = {}

    def worker(k):
        d = "%s/%d-%d" % (BASE, os.getpid(), k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.makedirs(d + "/repo")
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s/repo" % d, shell=True, check=True)
        env = dict(os.environ, ULIGHT_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_OUT=d + "/out")
        while True:
            try:
                i, old, new = q.get_nowait()
            except queue.Empty:
                break
            lines = text.split("\n")
            lines[i] = new
            open("%s/repo/%s" % (d, path), "w", encoding="utf-8").write("\n".join(lines))
            how = "SURVIVED"
            for c in checks:
                try:
                    r = subprocess.run([HERE + "/../bin/check", c], env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    how = c + " (timeout)"
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    how = c
                    break
                if r.returncode:
                    how = c + " (exit %d) %s" % (r.returncode, (r.stdout + r.stderr)[-150:].replace("\n", " "))
                    break
            tally[how.split(" (exit")[0]] = tally.get(how.split(" (exit")[0], 0) + 1
            if how == "SURVIVED" or "exit" in how or "timeout" in how:
                print("%s %s:%d\n  - %s\n  + %s" % (how, path, i + 1, old.strip(), new.strip()), flush=True)
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(os.environ.get("JOBS", "2")))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print("%s: %s" % (path, tally), flush=True)


main()
