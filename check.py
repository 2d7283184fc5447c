#!/usr/bin/env python
"""check.py <property> [quick|thorough]      run the check of one property
check.py <property> --replay FILE            re-run a recorded failing input on the current /repo

exit 0: every obligation discharged / property held on everything explored
exit 1: a line  VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import base64
import importlib
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", HERE)
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
TRUSTED = [
    "z3 4.x / cvc5 (SMT solvers)", "CPython 3.12 executing the shadow-imported source",
    "pyvc/loader.py source transform (for-loops over symbolic iterables, list comprehensions, int/float/str/list/"
    "tuple/set calls)", "pyvc/symnp.py + pyvc/arr.py: assumed contracts of the numpy / numpy.ma functions used",
    "machine floats treated as mathematical reals with a NaN flag; datetimes as real seconds; ints unbounded",
]


# ------------------------------------------------------------------------------------------------ bounded layer
class Stop(BaseException):
    pass


class B:
    def __init__(self, prop, tier, seed, trace=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.evals = 0
        self.seen = set()
        self.nontrivial = 0
        self.samples = []
        self.fails = []
        self.known = []
        self.fam = {}
        self.trace = trace
        self.deadline = time.time() + (240 if tier == "quick" else 3000)
        with open(os.path.join(HERE, "known_findings.json")) as f:
            self.findings = [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def nprng(self):
        import numpy as np
        return np.random.default_rng(self.rng.getrandbits(32))

    def case(self, family, oracle, case, nontrivial=True):
        if time.time() > self.deadline:
            raise Stop()
        blob = pickle.dumps(case)
        h = hash((family, blob))
        if h in self.seen:
            return
        self.seen.add(h)
        self.evals += 1
        self.nontrivial += bool(nontrivial)
        self.fam[family] = self.fam.get(family, 0) + 1
        if self.trace:
            with open(self.trace, "wb") as f:
                pickle.dump((family, oracle.__name__, case), f)
        msg = run_oracle(oracle, case)
        if len(self.samples) < 3 and nontrivial and self.fam[family] == 2:
            self.samples.append(dict(family=family, case=repr(case)[:600], verdict="holds" if msg is None else msg))
        if msg is None:
            return
        for k in self.findings:
            if k["family"] == family and k["match"] in msg:
                if not any(x is k for x in self.known):
                    self.known.append(k)
                return
        self.fails.append(dict(family=family, oracle=oracle.__name__, msg=msg, case=repr(case)[:4000],
                               blob=base64.b64encode(blob).decode()))
        if len(self.fails) >= 3:
            raise Stop()


def run_oracle(oracle, case):
    import warnings
    c = pickle.loads(pickle.dumps(case))      # the code under test may not touch our copy
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return oracle(c)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(t.filename, REPO)}:{t.lineno}" for t in tb if t.filename.startswith(REPO)][-3:]
        return f"raised {type(e).__name__}: {e} at {' <- '.join(reversed(where))}"


def setup_paths():
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.path.append(VT)
    sys.dont_write_bytecode = True


def load_prop(pid):
    return importlib.import_module(f"props.{pid}")


def phase_bounded(pid, tier, seed, out, trace):
    setup_paths()
    import gridded
    assert os.path.realpath(gridded.__file__).startswith(os.path.realpath(REPO) + os.sep), gridded.__file__
    m = load_prop(pid)
    b = B(pid, tier, seed, trace)
    complete = True
    t0 = time.time()
    try:
        if hasattr(m, "bounded"):
            m.bounded(b)
    except Stop:
        complete = bool(b.fails)
    json.dump(dict(evaluations=b.evals, nontrivial=b.nontrivial, samples=b.samples, fails=b.fails, families=b.fam,
                   known=b.known, complete=complete, wall_s=round(time.time() - t0, 1),
                   rule=getattr(m, "RULE", "")), open(out, "w"))


# ------------------------------------------------------------------------------------------------ proof layer
def _one_contract(pid, name, tier, path, verbose=False):
    m = load_prop(pid)
    from pyvc.verify import V
    fn = [c for c in m.CONTRACTS if c.__name__ == name][0]
    t0 = time.time()
    v = V(pid, name.replace("contract_", ""), limits=dict(deadline=time.time() + (240 if tier == "quick" else 1500)),
          verbose=verbose)
    v.tier = tier
    try:
        fn(v)
    except BaseException as e:   # any engine failure leaves the contract undecided
        v.undecided.append(f"{name}: engine: {type(e).__name__}: {e} "
                           f"{traceback.format_exc(limit=-3) if not isinstance(e, KeyboardInterrupt) else ''}")
    s = v.summary()
    s["doc"] = (fn.__doc__ or "").strip()
    s["wall_s"] = round(time.time() - t0, 2)
    for r in s["refuted"]:
        if r.get("case") is not None:
            r["blob"] = base64.b64encode(pickle.dumps(r["case"])).decode()
            r["case"] = repr(r["case"])[:4000]
    with open(path + ".part", "w") as f:
        json.dump(s, f, default=str)
    os.replace(path + ".part", path)


def phase_proof(pid, tier, out):
    setup_paths()
    import multiprocessing as mp
    m = load_prop(pid)
    names = [c.__name__ for c in getattr(m, "CONTRACTS", []) if tier != "quick" or not getattr(c, "thorough", False)]
    tmp = tempfile.mkdtemp(prefix="vc_")
    limit = 300 if tier == "quick" else 1800
    try:
        cx = mp.get_context("fork")
        todo, running = list(names), {}
        while todo or running:
            while todo and len(running) < 7:
                n = todo.pop(0)
                p = cx.Process(target=_one_contract, args=(pid, n, tier, os.path.join(tmp, n + ".json")))
                p.start()
                running[n] = (p, time.time())
            for n, (p, t0) in list(running.items()):
                if not p.is_alive():
                    p.join()
                    del running[n]
                elif time.time() - t0 > limit:
                    p.kill()
                    p.join()
                    del running[n]
            _collect(names, tmp, out, limit)
            time.sleep(0.05)
        _collect(names, tmp, out, limit)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _collect(names, tmp, out, limit):
    """results so far (the driver may stop this phase early)"""
    res = []
    for n in names:
        f = os.path.join(tmp, n + ".json")
        if os.path.exists(f):
            res.append(json.load(open(f)))
        else:
            res.append(dict(name=n, obligations=0, discharged=0, refuted=[], undecided=[f"{n}: not finished"],
                            functions=[], assumes=[], paths=0, queries=0, solver_s=0, backends={}, uncovered=[],
                            labels=[], doc="", wall_s=limit))
    with open(out + ".part", "w") as f:
        json.dump(res, f)
    os.replace(out + ".part", out)


# ------------------------------------------------------------------------------------------------ driver
def spawn(args, out):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MPLBACKEND="Agg")
    env.pop("PYTHONPATH", None)
    log = open(out + ".log", "w")
    return subprocess.Popen([PY, os.path.abspath(__file__)] + args + ["--out", out], stdout=log, stderr=log, env=env,
                            cwd=os.path.dirname(out), start_new_session=True)


def write_replay(pid, data):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}.json")
    data = dict(property=pid, rerun=f"{PY} check.py {pid} --replay {p}", **data)
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def main():
    a = sys.argv[1:]
    pid = a[0]
    if "--phase" in a:
        ph = a[a.index("--phase") + 1]
        out = a[a.index("--out") + 1]
        tier, seed = a[a.index("--tier") + 1], int(a[a.index("--seed") + 1])
        if ph == "bounded":
            phase_bounded(pid, tier, seed, out, a[a.index("--trace") + 1] if "--trace" in a else None)
        else:
            phase_proof(pid, tier, out)
        return 0
    if "--replay" in a:
        setup_paths()
        d = json.load(open(a[a.index("--replay") + 1]))
        m = load_prop(pid)
        if not d.get("blob"):
            print("no concrete input recorded; failed obligation:", d.get("obligation"))
            return 0
        msg = run_oracle(getattr(m, d["oracle"]), pickle.loads(base64.b64decode(d["blob"])))
        print("property holds on this input" if msg is None else f"FAILS: {msg}")
        return 0 if msg is None else 1
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_")
    notes, violation = [], None
    try:
        ob, op = os.path.join(tmp, "b.json"), os.path.join(tmp, "p.json")
        common = ["--tier", tier, "--seed", str(seed)]
        lim_b, lim_p = (420, 500) if tier == "quick" else (3600, 5400)
        pb = spawn([pid, "--phase", "bounded"] + common, ob)
        pp = spawn([pid, "--phase", "proof"] + common, op)

        def wait(p, lim):
            try:
                return p.wait(max(1, lim - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                return "timeout"
        rb = wait(pb, lim_b)
        if rb == 0 and tier == "quick" and json.load(open(ob))["fails"]:
            lim_p = min(lim_p, time.time() - t0 + 90)     # already violated: the proof layer only adds detail
        rp = wait(pp, lim_p)
        bounded = json.load(open(ob)) if rb == 0 and os.path.exists(ob) else None
        proof = json.load(open(op)) if rp in (0, "timeout") and os.path.exists(op) else None
        if bounded is None:
            # crashed or hung: find the input being processed
            trace = os.path.join(tmp, "trace.pkl")
            t1 = time.time()
            p2 = spawn([pid, "--phase", "bounded", "--trace", trace] + common, ob)
            try:
                r2 = p2.wait(180)
            except subprocess.TimeoutExpired:
                p2.kill()
                p2.wait()
                r2 = "timeout"
            if r2 == 0 and os.path.exists(ob):
                bounded = json.load(open(ob))
            elif os.path.exists(trace) and (r2 == "timeout" and time.time() - os.path.getmtime(trace) > 100
                                            or isinstance(r2, int) and r2 < 0):
                fam, orc, case = pickle.load(open(trace, "rb"))
                violation = dict(kind="crash", family=fam, oracle=orc, case=repr(case)[:4000],
                                 blob=base64.b64encode(pickle.dumps(case)).decode(),
                                 msg="the call did not return" if r2 == "timeout" else f"the process died ({r2})")
            else:
                notes.append("bounded layer did not finish: " + open(ob + ".log").read()[-1500:])
        if proof is None:
            notes.append("proof layer did not finish: " + (open(op + ".log").read()[-1500:]
                                                           if os.path.exists(op + ".log") else ""))
    finally:
        for p in (locals().get("pb"), locals().get("pp"), locals().get("p2")):
            if p is not None:
                try:
                    os.killpg(p.pid, 9)       # own session: contract workers and solvers included
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)
    setup_paths()
    m = load_prop(pid)
    tail = ""
    if violation is None and bounded and bounded["fails"]:
        f = bounded["fails"][0]
        violation = dict(kind="bounded", others=[x["msg"] for x in bounded["fails"][1:]], **f)
    refuted = [r for c in (proof or []) for r in c["refuted"]]
    if violation is not None and refuted:
        violation["failed_obligations"] = [r["label"] for r in refuted]
    if violation is None:
        for r in refuted:
            if r["outcome"] == "fails":
                violation = dict(kind="counter-model replayed on the real code", obligation=r["label"],
                                 oracle=r.get("oracle") or getattr(m, "REPLAY_ORACLE", "oracle"), case=r["case"], blob=r.get("blob"), msg=r["msg"],
                                 model=r["model"])
                break
    if violation is None:
        for r in refuted:
            if r["outcome"] is None:
                violation = dict(kind="failed obligation", obligation=r["label"], model=r["model"], path=r["path"],
                                 msg=f"obligation refuted by the solver; {r['msg'] or 'no concretiser'}", oracle=None,
                                 blob=None)
                tail = " no-failing-input-found"
                break
    for r in refuted:
        if r["outcome"] == "passes":
            notes.append(f"{r['label']}: counter-model does not fail on the real code (undecided)")
    undecided = [u for c in (proof or []) for u in c["undecided"]]
    uncovered = [f"{c['name']}: {u}" for c in (proof or []) for u in c["uncovered"]]
    zero = [c["name"] for c in (proof or []) if c["obligations"] == 0]
    nob = sum(c["obligations"] for c in proof or [])
    ndis = sum(c["discharged"] for c in proof or [])
    backends = {}
    for c in proof or []:
        for k, v in c["backends"].items():
            backends[k] = backends.get(k, 0) + v
    bd = bounded or {}
    level = getattr(m, "LEVEL", "proof" if getattr(m, "CONTRACTS", []) else "exploration")
    cov = dict(
        obligations=nob, discharged=ndis, checker_cmd=f"{PY} check.py {pid} {tier}", trusted_base=TRUSTED,
        proved=bool(proof) and nob > 0 and nob == ndis and not undecided and not uncovered and not zero,
        functions_under_contract=sorted({f for c in proof or [] for f in c["functions"]}),
        backends=backends, solver_s=round(sum(c["solver_s"] for c in proof or []), 2),
        paths=sum(c["paths"] for c in proof or []), solver_queries=sum(c["queries"] for c in proof or []),
        assumptions=sorted({x for c in proof or [] for x in c["assumes"]}),
        undecided=undecided[:20], unreached_covers=uncovered, contracts_without_obligations=zero,
        contracts=[dict(name=c["name"], obligations=c["obligations"], discharged=c["discharged"], wall_s=c["wall_s"],
                        statement=c["doc"]) for c in proof or []],
        evaluations=bd.get("evaluations", 0), distinct_nontrivial=bd.get("nontrivial", 0),
        rule=bd.get("rule") or "seeded generator of inputs; distinct by content; non-trivial as flagged by generator",
        samples=bd.get("samples", []), bounded_families=bd.get("families", {}), bounded_complete=bd.get("complete"),
        bounded_functions=getattr(m, "BOUNDED_FUNCTIONS", []),
        explanation="deductive contracts over the real source (all inputs) plus a bounded companion run on the real "
                    "code; the bounded part is never counted as proved",
        notes=notes)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violation=violation["msg"] if violation else None)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {ndis}/{nob} obligations discharged ({backends}), {len(undecided)} undecided; bounded: "
          f"{bd.get('evaluations', 0)} cases {bd.get('families', {})}; {time.time() - t0:.1f}s")
    for u in (undecided + uncovered + [f'no obligations: {z}' for z in zero])[:8]:
        print("  undecided:", u[:300])
    for n in notes[:5]:
        print("  note:", n[:1500])
    for k in bd.get("known", []):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if violation:
        print("  " + str(violation["msg"])[:1500])
        path = write_replay(pid, violation)
        print(f"VIOLATION property={pid} replay={path}{tail}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
