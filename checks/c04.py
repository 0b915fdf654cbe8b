"""C04: invalid requests are rejected with the documented status, before anything is delivered."""
import json
import os
import re
import subprocess

import vlib


def record(b, tag):
    out = os.path.join(vlib.BUILD, "api-%s.out" % tag)
    e = dict(os.environ)
    e.update(vlib.ASAN_ENV)
    r = subprocess.run([b, out, str(vlib.NCPU)], env=e, capture_output=True, timeout=600)
    if r.returncode != 0:
        raise vlib.CheckError("api driver failed: %r" % r.stderr[-1000:])
    rows = {}
    crashes = {}
    for l in open(out):
        l = l.strip()
        if l:
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if "crash" in x:
                crashes[x["i"]] = x
            else:
                rows[x["i"]] = x
    return rows, crashes


def check():
    run = vlib.Run("C04")
    configs = ["asan"]
    for config in configs:
        b = vlib.build(["api"], config)["api"]

        def once(tag):
            rows, crashes = record(b, tag)
            if crashes:
                c = [(i, crashes[i]["crash"]) for i in sorted(crashes)]
                rej = ["request %d: %s" % x for x in c]
                return rej, None, rows
            p = os.path.join(vlib.BUILD, "trace-api.ndjson")
            with open(p, "w") as f:
                for i in sorted(rows):
                    f.write(json.dumps(rows[i]) + "\n")
            r = vlib.tlc("RequestTrace", "SPECIFICATION Spec\n", env={"TRACE": p}, tag="api")
            rej = [l for l in r.prints if "REJECT" in l]
            return rej, r, rows

        rej, r, rows = once("1")
        if r is not None:
            run.add_tlc(r)
        run.traces += len(rows)
        for i in list(rows)[:: max(1, len(rows) // 5)]:
            run.sample({"request [op,source,tokens,flush,lang,text,flush_text,tag,attr]": rows[i]["r"],
                        "outcome [status,callbacks,touched,message,intact]": rows[i]["o"]})
        if rej:
            rej2, _, _ = once("2")
            if not rej2:
                raise vlib.CheckError("rejections did not repeat")
            for x in rej2[:50]:
                run.violation("request:" + re.sub(r"[^0-9,]", "", x)[:60], x)
    run.extra["exhaustive_requests"] = run.traces
    return run.finish()
