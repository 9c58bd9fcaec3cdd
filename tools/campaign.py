#!/usr/bin/env python3
"""campaign.py MUTANTS.py [id-prefix ...] [--jobs N]: runs the quick check of each mutant's property on a scratch copy.

MUTANTS.py defines M, a list of (id, property, file, old, new[, n]); old must occur, and its n-th (default: only) occurrence is replaced.
Several edits: old and new may be lists of (file, old, new). Results go to /tmp/campaign.txt."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs = 2
args = sys.argv[1:]
if "--jobs" in args:
    i = args.index("--jobs"); jobs = int(args[i + 1]); del args[i:i + 2]
g = {}
exec(open(args[0]).read(), g)
sel = args[1:]
todo = [m for m in g["M"] if not sel or any(m[0].startswith(p) for p in sel)]

def one(m):
    mid, prop = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [tuple(m[2:])]
    d = f"/tmp/camp/{mid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", os.environ.get("CAMP_REPO", "/repo"), d + "/repo"], check=True)
    subprocess.run(f"mkdir {d}/verif && cd {ROOT} && cp -a *.py *.json harness {d}/verif/ && sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/run.py && sed -i 's#=> /repo#=> {d}/repo#' {d}/verif/harness/go.mod", shell=True, check=True)
    try:
        for e in edits:
            if e[0] == "@patch":
                subprocess.run(["git", "apply", e[1]], cwd=d + "/repo", check=True)
                continue
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else None
            p = f"{d}/repo/{f}"
            s = open(p).read()
            c = s.count(old)
            if c == 0 or (c > 1 and n is None):
                return f"{mid} {prop} BAD-EDIT {f}: {c} occurrences"
            parts = s.split(old)
            k = n or 0
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w").write(s)
        b = subprocess.run(". /opt/vp/env.sh; go build ./... && go vet ./... >/dev/null 2>&1; go build ./...", shell=True, cwd=d + "/repo", executable="/bin/bash", capture_output=True, text=True)
        if b.returncode:
            return f"{mid} {prop} NO-BUILD {b.stderr[-300:]}"
        out = []
        for pr in prop.split(","):
            try:
                r = subprocess.run(["python3", "run.py", pr, "quick"], cwd=d + "/verif", capture_output=True, text=True, timeout=900)
                why = re.findall(r"^(?!VIOLATION).*$", r.stdout, re.M)
                out.append(f"{pr}:{ {0:'MISSED',1:'caught'}.get(r.returncode, 'rc=%d' % r.returncode) }" + ((" " + " | ".join(why)[-160:].replace(chr(10), " ")) if r.returncode != 0 else ""))
            except subprocess.TimeoutExpired:
                out.append(f"{pr}:TIMEOUT")
        return f"{mid} " + "  ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(jobs) as ex, open("/tmp/campaign.txt", "a") as log:
    for r in ex.map(one, todo):
        print(r, flush=True); log.write(r + "\n"); log.flush()
