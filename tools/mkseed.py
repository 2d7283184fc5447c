"""mkseed.py DIR_ID < spec.json : build /verif/seeded/<id> from {property, edits:[[file,old,new],...], needs, breaks, demo}.
Confirms in a scratch copy: tests still pass (247), demo 0 on the unchanged tree, nonzero with the change; then runs the check."""
import json, os, shutil, subprocess, sys
sid = sys.argv[1]
spec = json.load(sys.stdin)
W = "/tmp/seedwork"
shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)
for f, old, new in spec["edits"]:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
D = f"/verif/seeded/{sid}"
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(diff)
open(D + "/demo.py", "w").write(spec["demo"])
open(D + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(D + "/demo.sh", 0o755)
json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(D + "/meta.json", "w"), indent=1)
ok = True
r = subprocess.run(["bash", D + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
print("demo unchanged:", r.returncode, r.stdout[-300:], r.stderr[-600:]); ok &= r.returncode == 0
r = subprocess.run(["bash", D + "/demo.sh"], cwd=W, capture_output=True, text=True)
print("demo changed:", r.returncode, (r.stdout + r.stderr)[-300:]); ok &= r.returncode != 0
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_pass", [])) or None
assert subprocess.run(["git", "apply", "--check", D + "/patch.diff"], cwd="/repo").returncode == 0
subprocess.run(["git", "apply", D + "/patch.diff"], cwd="/repo", check=True)
try:
    subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
    subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed_o.json"], capture_output=True)
    d = json.load(open("/tmp/seed_o.json"))
    print("tests passed:", len(d["passed"]), "failed:", d["failed"]); ok &= len(d["passed"]) >= 247
    r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", spec["property"]], capture_output=True, text=True, cwd="/verif")
    print("check exit", r.returncode, r.stdout[-700:])
finally:
    subprocess.run(["git", "checkout", "--", "."], cwd="/repo", check=True)
    shutil.rmtree(W, ignore_errors=True)
print("KEEP" if ok else "REJECT", sid, "caught" if r.returncode == 1 else "MISSED")
if not ok:
    shutil.rmtree(D)
