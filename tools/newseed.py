#!/usr/bin/env python3
"""newseed.py ID PLACE PROPERTY: from the diff of the scratch tree /tmp/x/seed (a copy of /repo) and /tmp/x/demo.rs, makes
/verif/seeded/ID; then confirms: demo passes on /repo, fails with the patch, and the stable tests pass with the patch."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, place, prop, needs, breaks = sys.argv[1:6]
S = os.environ.get("SEED", "/tmp/x/seed")
d = f"{V}/seeded/{i}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True, check=True).stdout
assert diff.strip(), "no change"
open(f"{d}/patch.diff", "w").write(diff)
shutil.copy(f"{V}/tools/seed_ws.py", f"{d}/ws.py")
shutil.copy(os.environ.get("DEMO", "/tmp/x/demo.rs"), f"{d}/demo.rs")
if "verif_" in open(f"{d}/demo.rs").read():
    for k in ("conn", "fake"):
        shutil.copy(f"{V}/harness/src/{k}.rs", f"{d}/kit_{k}.rs")
t = open(f"{V}/tools/seed_demo.sh").read().replace("@PLACE@", place).replace("@CRATE@", place.split("/")[0])
open(f"{d}/demo.sh", "w").write(t)
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
r1 = subprocess.run([f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
r2 = subprocess.run([f"{d}/demo.sh"], cwd=S, capture_output=True, text=True)
print("demo on /repo:", r1.returncode, "" if r1.returncode == 0 else [l for l in r1.stdout.splitlines() if "panicked" in l or "error" in l][:6])
print("demo with patch:", r2.returncode, [l for l in r2.stdout.splitlines() if "panicked" in l or "error" in l][:3])
