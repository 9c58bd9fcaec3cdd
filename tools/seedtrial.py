#!/usr/bin/env python3
"""seedtrial.py [ID...] -- runs, on copies in /tmp/camp, the quick check of the property of each planted bug in seeded/.
Not used by any check."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
def one(i):
    d = f"/tmp/camp/seed-{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/verif")
    try:
        subprocess.run(f"cp -a /repo {d}/repo && git -C {d}/repo apply /verif/seeded/{i}/patch.diff && cd /verif && cp -a *.py *.json harness {d}/verif/ && sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/run.py && sed -i 's#=> /repo#=> {d}/repo#' {d}/verif/harness/go.mod", shell=True, check=True)
        p = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
        r = subprocess.run(["python3", "run.py", p, "quick"], cwd=d + "/verif", capture_output=True, text=True)
        return f"{i} {p} {r.returncode} {r.stdout[-200:] if r.returncode != 1 else r.stdout[:160]!r}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
