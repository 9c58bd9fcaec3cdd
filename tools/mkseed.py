#!/usr/bin/env python3
"""mkseed.py ID PKG PROPERTY 'needs' 'what it breaks' -- makes /verif/seeded/ID from the uncommitted change in a
scratch worktree ($WT, default /tmp/wt) and the demonstration $WT/PKG/zz_demo_test.go, after confirming that the
demonstration fails with the change and passes without it.  Not used by any check."""
import json, os, shutil, subprocess, sys
wt = os.environ.get("WT", "/tmp/wt")
id_, pkg, prop, needs, breaks = sys.argv[1:6]
d = f"/verif/seeded/{id_}"
os.makedirs(d, exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
demo = f"{wt}/{pkg}/zz_demo_test.go"
if os.path.exists(demo):
    shutil.move(demo, f"{d}/demo_test.go")
diff = sh(f"git -C {wt} diff").stdout
assert diff and "zz_demo" not in diff, "no change"
open(f"{d}/patch.diff", "w").write(diff)
open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Run in the repository: exit 0 if the property holds for the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}}}" >"$ov"
go test -overlay "$ov" -vet=off -run '^TestDemo$' -count=1 -timeout 200s ./{pkg}
''')
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
a = sh(f"bash {d}/demo.sh", cwd="/repo")
b = sh(f"bash {d}/demo.sh", cwd=wt)
print("unchanged:", a.returncode, "changed:", b.returncode)
if a.returncode or not b.returncode:
    print((a.stdout + a.stderr)[-3000:]); print("=== changed"); print((b.stdout + b.stderr)[-3000:]); sys.exit(1)
print((b.stdout + b.stderr)[-500:])
