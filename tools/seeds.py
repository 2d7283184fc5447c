"""seeds.py [ID ...]: apply each seeded/<ID>/patch.diff to a scratch copy of /repo and run its property's check on it."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob("/verif/seeded/*/meta.json"))
ids = [i for a in ids for i in ([a] if os.path.exists(f"/verif/seeded/{a}/meta.json") else
       sorted(os.path.basename(p) for p in glob.glob(f"/verif/seeded/{a}*")))]

def one(i):
    prop = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        shutil.copytree("/repo/gridded", d + "/gridded", ignore=shutil.ignore_patterns("__pycache__"))
        r = subprocess.run(["patch", "-p1", "-s", "-i", f"/verif/seeded/{i}/patch.diff"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return i, "PATCH FAILED " + r.stdout[:200], ""
        r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "/out"))
        v = ""
        if r.returncode == 1:
            q = json.load(open(f"{d}/out/replays/{prop}.json"))
            v = f"{q['kind']}; obligations: {len(q.get('failed_obligations', []))}"
        return i, f"exit {r.returncode} {v}", r.stdout[-500:] + r.stderr[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for i, res, out in ex.map(one, ids):
        print(f"{i}: {res}")
        if "-v" in sys.argv or not res.startswith("exit 1") or "no-failing" in out:
            print("    " + out.replace("\n", "\n    "))
