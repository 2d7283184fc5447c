"""mutants.py FILE.py : FILE defines M = [(prop, file, old, new[, idx]), ...]; each is applied to a scratch copy of
/repo/gridded and the check is run on it.  Prints which layer reports what."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
jobs = int(os.environ.get("J", "3"))

def one(m):
    prop, f, old, new = m[:4]
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(__import__("os").environ.get("MUT_BASE", "/repo") + "/gridded", d + "/gridded", ignore=shutil.ignore_patterns("__pycache__"))
        p = f"{d}/gridded/{f}"
        s = open(p).read()
        n = s.count(old)
        if n == 0:
            return m, "PATTERN NOT FOUND", ""
        if len(m) > 4:
            parts = s.split(old)
            s = old.join(parts[:m[4] + 1]) + new + old.join(parts[m[4] + 1:])
        else:
            s = s.replace(old, new)
        open(p, "w").write(s)
        r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "/out"))
        v = ""
        if r.returncode == 1:
            q = json.load(open(f"{d}/out/replays/{prop}.json"))
            v = f"{q['kind']}; obligations: {len(q.get('failed_obligations', []))}"
        return m, f"exit {r.returncode} {v}", r.stdout[-600:] + r.stderr[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(jobs) as ex:
    for m, res, out in ex.map(one, ns["M"]):
        print(f"[{m[0]} {m[2][:60]!r} -> {m[3][:60]!r}] {res}")
        if "-v" in sys.argv or not res.startswith("exit 1"):
            print("    " + out.replace("\n", "\n    "))
