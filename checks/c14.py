"""C14: names of highlight types, and the themes and scripts that use them."""
import glob
import json
import os
import re
import shutil
import subprocess

import names
import vlib

YARGS = """// stands in for the yargs package, which is not installed here
const a = {};
const r = process.argv.slice(2);
for (let i = 0; i < r.length; ++i) {
    if (r[i] === '--input') a.input = r[++i];
    else if (r[i] === '--output') a.output = r[++i];
    else if (r[i] === '--themed') a.themed = true;
    else if (r[i] === '--cowel') a.cowel = true;
    else if (r[i] === '--no-block-background') a.blockBackground = false;
    else if (r[i] === '--no-block-foreground') a.blockForeground = false;
}
const y = { option() { return y; }, get argv() { return a; } };
module.exports = y;
"""


def css_of(theme, args=(), tag="t"):
    d = os.path.join(vlib.BUILD, "css")
    m = os.path.join(d, "node_modules", "yargs")
    os.makedirs(m, exist_ok=True)
    with open(os.path.join(m, "index.js"), "w") as f:
        f.write(YARGS)
    shutil.copy(os.path.join(vlib.REPO, "scripts/theme-to-css.cjs"), os.path.join(d, "theme-to-css.cjs"))
    p = os.path.join(d, tag + ".json")
    with open(p, "w") as f:
        json.dump(theme, f)
    r = subprocess.run(["node", os.path.join(d, "theme-to-css.cjs"), "--input", p] + list(args),
                       capture_output=True, text=True, timeout=60)
    return r.returncode, r.stdout, r.stderr


def check():
    run = vlib.Run("C14")

    def rows(tag):
        rs, cr = names.record([], "c14" + tag)
        rs = [x for x in rs if x["k"] == "type"]
        if cr:
            return rs, cr
        longs = [x["long"] for x in rs if x["long"]]
        for p in sorted(glob.glob(os.path.join(vlib.REPO, "themes/*.json"))):
            t = json.load(open(p))
            for variant in ("light", "dark"):
                for k in t.get(variant, {}):
                    if not p.endswith("schema.json"):
                        rs.append({"k": "theme", "theme": os.path.basename(p), "key": k})
        for n, l in enumerate(longs):
            pass
        # one theme with a color of its own for every name; a name the script does not know makes it fail
        known = list(longs)
        while True:
            code, out, err = css_of({"meta": {"name": "t"}, "light": {l: "#%06x" % i for i, l in enumerate(longs)
                                                                     if l in known}}, tag="all" + tag)
            m = re.search(r'Invalid highlight type "([^"]*)"', err)
            if code != 0 and m and m.group(1) in known:
                known.remove(m.group(1))
                rs.append({"k": "script", "long": m.group(1), "short": "(unknown)"})
                continue
            break
        if code != 0:
            raise vlib.CheckError("theme-to-css failed: %s" % err[:500])
        for short, color in re.findall(r"h-\[data-h\^=([^\]]*)\] \{\s*color: #([0-9a-f]{6});\s*\}", out):
            rs.append({"k": "script", "long": longs[int(color, 16)], "short": short})
        return rs + [{"k": "done"}], cr

    def key(x):
        return ":".join(str(v) for k, v in sorted(x.items()) if k != "i").replace(" ", "_") or "done"

    names.decide(run, "TypeTrace", rows, key)
    return run.finish()
