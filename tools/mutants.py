#!/usr/bin/env python3
"""mutants.py [-t] [PROP|mNN ...]: applies each change of mutants_def.py to a
scratch clone of /repo and reports whether the named checks find it.
-t also runs the repository's own tests on the changed clone."""
import os, re, shutil, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/tools")
from mutants_def import MUTANTS
import mkseeds
args = sys.argv[1:]
tests = "-t" in args
args = [a for a in args if a != "-t"]
missed = []
for i, (props, edits, what) in enumerate(MUTANTS):
    id = "m%02d" % i
    props = props.split()
    if args and id not in args and not set(props) & set(args): continue
    scratch = tempfile.mkdtemp(prefix="mut-")
    try:
        r = scratch + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        bad = ""
        for e in edits:
            f, old, new = e[0], e[1], e[2]
            nth = e[3] if len(e) > 3 else 0
            s = open(r + "/" + f).read()
            if s.count(old) == 0: bad = "old text absent: " + old; break
            if s.count(old) > 1 and len(e) < 4: bad = "ambiguous: " + old; break
            k = -1
            for _ in range(nth + 1): k = s.index(old, k + 1)
            open(r + "/" + f, "w").write(s[:k] + new + s[k + len(old):])
        d = r + ("/v2" if any(e[0].startswith("v2/") for e in edits) else "")
        if not bad:
            cmd = ["go", "build", "./..."]
            if d == r:
                shutil.copy(r + "/go.mod", scratch + "/m.mod")
                open(scratch + "/m.sum", "w").write(open(r + "/go.sum").read() + open(here + "/harness/v1/extra.sum").read())
                cmd = ["go", "build", "-modfile", scratch + "/m.mod", "."]
            b = subprocess.run(cmd, cwd=d, capture_output=True, text=True, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off"))
            if b.returncode: bad = "does not build: " + b.stderr[:300]
        if bad:
            print(id, "BAD", what, bad, flush=True); continue
        t = ""
        if tests:
            lost = mkseeds.tests(r)
            t = " [tests lost: %d]" % len(lost) if lost else " [tests pass]"
        res = []
        for p in props:
            t0 = time.time()
            o = subprocess.run(["bash", here + "/run.sh", p, "quick"], capture_output=True, text=True, env=dict(os.environ, REPO=r, VERIF_SEED="1"))
            v = re.findall(r"^VIOLATION.*|violation.*", o.stdout, re.M)
            m = re.search(r"(C\d\d_\w+): .*violations=[1-9]", o.stdout)
            st = {0: "missed", 1: "caught"}.get(o.returncode, "ERROR %d %s" % (o.returncode, o.stderr[-300:]))
            un = re.findall(r"reduced bound: .*", o.stdout)
            res.append("%s %s %s%.0fs%s" % (p, st, m.group(1) + " " if m else "", time.time() - t0, " {" + "; ".join(un)[:200] + "}" if un else ""))
            if o.returncode != 1: missed.append(id)
        print(id, "; ".join(res), "|", what + t, flush=True)
    finally:
        shutil.rmtree(scratch)
print("not caught:", " ".join(missed))
