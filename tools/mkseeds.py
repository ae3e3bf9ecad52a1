#!/usr/bin/env python3
"""mkseeds.py [ID...]: writes /verif/seeded/ID from tools/seeds_def.py.
Each patch is made in a scratch clone of /repo; there the demonstration must
pass before and fail after, and the repository's own tests must still pass."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/tools")
from seeds_def import SEEDS
def run(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package; fails when the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
m=%s
printf '{"Replace":{"%%s":"%%s"}}' "$root/$m/zz_demo_test.go" "$here/demo_test.go" > "$s/overlay.json"
cp "$root/$m/go.mod" "$s/go.mod"
cat "$root/$m/go.sum" > "$s/go.sum"
[ -f "$here/extra.sum" ] && cat "$here/extra.sum" >> "$s/go.sum"
cd "$root/$m" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local \\
	timeout 250 go test -modfile "$s/go.mod" -overlay "$s/overlay.json" -vet=off -count=1 -run '^TestZZDemo$' %s .
'''
def tests(r):
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    ok = set()
    for d, extra in ((r, "/opt/vp/gomod/xcore.extra.sum"), (r + "/v2", None)):
        t = tempfile.mkdtemp(prefix="seedmod-")
        shutil.copy(d + "/go.mod", t + "/go.mod")
        s = open(d + "/go.sum").read()
        if extra: s += open(extra).read()
        open(t + "/go.sum", "w").write(s)
        o = run("go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "-modfile", t + "/go.mod", "./...", cwd=d, env=env)
        for l in o.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Test") and e.get("Action") == "pass": ok.add(e["Package"] + "/" + e["Test"])
        shutil.rmtree(t)
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
def make(d):
    id = d["id"]
    out = here + "/seeded/" + id
    scratch = tempfile.mkdtemp(prefix="seed-")
    try:
        r = scratch + "/repo"
        run("git", "clone", "-q", "/repo", r)
        for e in d["edits"]:
            f = r + "/" + e["file"]
            s = open(f).read()
            if s.count(e["old"]) == 0: return "old text absent: " + e["old"]
            if s.count(e["old"]) > 1 and "nth" not in e: return "ambiguous: " + e["old"]
            i = -1
            for _ in range(e.get("nth", 0) + 1): i = s.index(e["old"], i + 1)
            open(f, "w").write(s[:i] + e["new"] + s[i + len(e["old"]):])
        diff = run("git", "-C", r, "diff").stdout
        base = run("git", "-C", r, "rev-list", "--max-parents=0", "HEAD").stdout.split()[0]
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = "\n".join(run("git", "-C", r, "show", base + ":" + e["file"]).stdout for e in d["edits"]).splitlines()
        mine = [l for l in removed if l not in orig]
        mod = "v2" if d.get("module", "v2") == "v2" else "."
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        imps = d.get("imports", [])
        open(out + "/demo_test.go", "w").write("package xcore\n\nimport (\n" + "".join('\t"%s"\n' % i for i in sorted(set(imps + ["testing"]))) + ")\n\n" + d["test"].strip() + "\n")
        open(out + "/demo.sh", "w").write(DEMO % (mod, "-race" if d.get("race") else ""))
        if mod == ".": shutil.copy("/opt/vp/gomod/xcore.extra.sum", out + "/extra.sum")
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(out + "/meta.json", "w"), indent=1)
        bad = run("bash", out + "/demo.sh", cwd=r)
        if "build failed" in bad.stdout or "setup failed" in bad.stdout: return "BUILD FAILED " + bad.stdout + bad.stderr
        miss = tests(r)
        run("git", "-C", r, "checkout", "--", ".")
        good = run("bash", out + "/demo.sh", cwd=r)
        msg = "unchanged %d patched %d" % (good.returncode, bad.returncode)
        if good.returncode: msg += "\n" + good.stdout[-1500:] + good.stderr[-1500:]
        if bad.returncode == 0: msg += " DEMO DOES NOT FAIL"
        if miss: msg += " TESTS BROKEN " + str(miss)
        if mine: msg += " CHANGES MY LINES " + str(mine)
        return msg
    finally:
        shutil.rmtree(scratch)
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    sel = [d for d in SEEDS if not sys.argv[1:] or d["id"] in sys.argv[1:]]
    with ThreadPoolExecutor(4) as ex:
        for d, m in zip(sel, ex.map(make, sel)): print(d["id"], m)
