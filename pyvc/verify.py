"""Verification sessions: run contracts, collect obligations, turn counter-models into concrete inputs."""
import datetime as _dt
import time as _time
import traceback

import z3

from . import core, loader
from .core import (And, BudgetExceeded, Infeasible, Not, Path, Stats, Sym, Unsupported, check_valid, conc_int, explore,
                   lift, simp, zi)


class Model:
    """evaluates symbolic values under a z3 model"""

    def __init__(self, m):
        self.m = m

    def val(self, e):
        if isinstance(e, Sym):
            if e.nan is not None and z3.is_true(self.m.eval(e.nan, model_completion=True)):
                return float("nan")
            v = self.val(e.e)
            if e.kind == "t":
                return _dt.datetime(2000, 1, 1) + _dt.timedelta(seconds=v)
            if e.kind == "d":
                return _dt.timedelta(seconds=v)
            if e.kind == "f":
                return float(v)
            return v
        if not isinstance(e, z3.ExprRef):
            return e
        v = self.m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return a.numerator_as_long() / a.denominator_as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise ValueError(f"cannot evaluate {v}")

    def array(self, a):
        """list-of-lists content of a symbolic *input* array"""
        import numpy as np
        dims = [self.val(d) for d in a.sshape]
        if np.prod([float(d) for d in dims] + [1.0]) > 4000:
            raise ValueError("counter-model too large to replay")
        out = np.empty(dims, dtype=object)
        for i in np.ndindex(*dims):
            out[i] = self.val(self._read(a, i))
        return out.astype({"f": float, "i": int, "b": bool}.get(a.kind, object))

    def _read(self, a, i):
        zs = [z3.IntVal(x) for x in i]
        from .core import Sym as S
        inp = a
        F = getattr(inp, "F", None)
        if F is None:
            raise ValueError("not an input array")
        return S(a.kind, F(*zs))


class Result(dict):
    pass


class V:
    """one contract being verified"""

    def __init__(self, prop, name, limits=None, verbose=False):
        self.prop, self.name = prop, name
        self.stats = Stats()
        self.limits = dict(limits or {})
        self.obl = []            # dict(label,status,backend,ms)
        self.undecided = []      # reasons
        self.refuted = []        # dict(label, info, case, msg)
        self.covers = {}
        self.returns = 0
        self.raises = 0
        self.functions = []
        self.assumes = []
        self.verbose = verbose

    def mod(self, name, overrides=None):
        return loader.shadow(overrides).load(name)

    def verify(self, run, post, replay=None, limits=None, want_return=True):
        lim = dict(self.limits)
        lim.update(limits or {})
        ret0 = self.returns
        try:
            for p in explore(run, self.stats, lim):
                if p.outcome == "unsupported":
                    self.undecided.append(f"{self.name}: {type(p.value).__name__}: {p.value}")
                    if self.verbose:
                        traceback.print_exception(p.value)
                    continue
                if p.outcome == "return":
                    self.returns += 1
                else:
                    self.raises += 1
                self._p, self._replay = p, replay
                try:
                    with p:
                        post(self, p)
                except Infeasible:
                    continue
                except Unsupported as e:
                    self.undecided.append(f"{self.name} (postcondition): {e}")
                    if self.verbose:
                        traceback.print_exc()
        except BudgetExceeded as e:
            self.undecided.append(f"{self.name}: budget: {e}")
        if want_return and self.returns == ret0 and not self.undecided:
            # no normal path at all: vacuous
            self.undecided.append(f"{self.name}: no feasible normal path (vacuous)")

    def cover(self, label, cond=True):
        """reachability witness: some path must satisfy cond"""
        if self.covers.get(label):
            return
        c = cond.e if isinstance(cond, Sym) else cond
        ok = core.ctx()._check(c if not isinstance(c, bool) else z3.BoolVal(c)) == z3.sat
        self.covers[label] = ok

    def require_cover(self, label):
        self.covers.setdefault(label, False)

    def prove(self, label, goal, replay=None, timeout_ms=20000, soft=False):
        cx = core.ctx()
        t0 = _time.time()
        if isinstance(goal, Sym):
            goal = goal.e
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        st, model, be = check_valid(cx, goal, timeout_ms)
        ms = int((_time.time() - t0) * 1000)
        self.obl.append(dict(label=label, status=st, backend=be, ms=ms))
        if self.verbose:
            print("   ", self.name, label, st, be, ms)
        if st == "refuted" and soft:       # a step of an argument, not the property itself
            self.undecided.append(f"{self.name}/{label}: the stated invariant is not kept")
        elif st == "refuted":
            self._refuted(label, cx, goal, model, replay or self._replay)
        elif st == "unknown":
            self.undecided.append(f"{self.name}/{label}: solver returned unknown")
        return st == "proved"

    def prove_eq(self, label, a, b, hyp, nonzero=(), subst=(), replay=None):
        """hyp => a == b over the reals, by field normalisation first, then the SMT solvers"""
        from . import ring
        cx = core.ctx()
        t0 = _time.time()
        a = a.e if isinstance(a, Sym) else a
        b = b.e if isinstance(b, Sym) else b
        cx._tick()
        cx.saturate()
        self.stats.queries += 1
        if ring.prove_eq(cx, a, b, hyp, nonzero, subst):
            ms = int((_time.time() - t0) * 1000)
            self.stats.solver_s += _time.time() - t0
            self.obl.append(dict(label=label, status="proved", backend="field", ms=ms))
            if self.verbose:
                print("   ", self.name, label, "proved field", ms)
            return True
        goal = z3.Implies(And(hyp, *[x != 0 for x in nonzero], *[x == y for x, y in subst]), a == b)
        m = ring.guided_refute(cx, goal)
        if m is not None:
            self.obl.append(dict(label=label, status="refuted", backend="z3", ms=int((_time.time() - t0) * 1000)))
            if self.verbose:
                print("   ", self.name, label, "refuted (guided)")
            self._refuted(label, cx, goal, m, replay or self._replay)
            return False
        return self.prove(label, goal, replay)

    def prove_lin(self, label, goal, replay=None):
        """a lemma over its own terms only (the path's facts are not needed)"""
        t0 = _time.time()
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(Not(goal))
        self.stats.queries += 1
        r = s.check()
        dt = _time.time() - t0
        self.stats.solver_s += dt
        if r == z3.unsat:
            self.obl.append(dict(label=label, status="proved", backend="z3", ms=int(dt * 1000)))
            if self.verbose:
                print("   ", self.name, label, "proved z3 lemma", int(dt * 1000))
            return True
        return self.prove(label, goal, replay)

    def prove_rw(self, label, W, hyp, res, want, extra=(), replay=None):
        """hyp => res == want (componentwise, not NaN) after rewriting with W (ring.Rewriter)"""
        t0 = _time.time()
        goals = []
        for r, w in zip(res, want):
            goals.append(W(r.e) == w)
            if r.nan is not None:
                goals.append(Not(W(r.nan)))
        g = z3.Implies(And(hyp, core.INF > 0, *extra), And(*goals))
        self.stats.queries += 1
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(Not(W._purify(g)), core.INF > core.realval(1e308), *W.divfacts)
        r = s.check()
        dt = _time.time() - t0
        self.stats.solver_s += dt
        if r == z3.unsat:
            self.obl.append(dict(label=label, status="proved", backend="field", ms=int(dt * 1000)))
            if self.verbose:
                print("   ", self.name, label, "proved rewriting", int(dt * 1000))
            return True
        if self.verbose:
            print("   ", self.name, label, "rewriting left:", str(W._purify(g))[:3000] if r == z3.sat else r)
        self.undecided.append(f"{label}: not established by rewriting")
        self.obl.append(dict(label=label, status="unknown", backend="field", ms=int(dt * 1000)))
        return False

    def prove_false(self, label, f, hyp, nonzero=(), replay=None):
        """hyp and the non-zero terms => not f"""
        from . import ring
        cx = core.ctx()
        t0 = _time.time()
        if f is None:
            f = z3.BoolVal(False)
        cx._tick()
        cx.saturate()
        if ring.prove_false(cx, f, hyp, nonzero):
            self.stats.queries += 1
            ms = int((_time.time() - t0) * 1000)
            self.stats.solver_s += _time.time() - t0
            self.obl.append(dict(label=label, status="proved", backend="field", ms=ms))
            if self.verbose:
                print("   ", self.name, label, "proved field", ms)
            return True
        return self.prove(label, z3.Implies(And(hyp, *[x != 0 for x in nonzero]), Not(f)), replay)

    def _refuted(self, label, cx, goal, model, replay):
        rec = dict(label=f"{self.name}/{label}", outcome=None, case=None, msg=None,
                   model=str(model)[:4000], path=[str(c)[:300] for c in cx.pc][:40])
        if replay is None:
            if not hasattr(self, "_hit"):
                self._hit = search_bounded(self.prop)
            if self._hit is not None:
                rec["case"], rec["msg"], rec["oracle"] = self._hit
                rec["outcome"] = "fails"
        if replay is not None:
            # prefer small models
            models = []
            small = [And(zi(d) <= 6) for d in cx.ghost.get("dims", [])]
            if small:
                s = z3.Solver()
                s.set("timeout", 8000)
                s.add(*cx.pc, *cx.facts, Not(goal), *small)
                if s.check() == z3.sat:
                    models.append(s.model())
            models.append(model)
            for m in models:
                try:
                    r = replay(Model(m), cx)
                except (Exception, Unsupported) as e:
                    rec["msg"] = f"replay not possible: {type(e).__name__}: {e}"
                    continue
                if r is None:
                    continue
                case, msg = r[:2]
                if len(r) > 2:
                    rec["oracle"] = r[2]
                rec["case"], rec["msg"] = case, msg
                rec["outcome"] = "fails" if msg else "passes"
                if msg:
                    break
        if rec["outcome"] != "fails" and cx.incomplete:
            # a question asked on the way ran out of time: the refutation may rest on what is missing for that reason alone
            self.undecided.append(f"{rec['label']}: refuted after an unanswered question on the way")
            return
        self.refuted.append(rec)

    def summary(self):
        bad_cov = [k for k, v in self.covers.items() if not v]
        return dict(name=self.name, functions=self.functions, assumes=self.assumes,
                    obligations=len(self.obl), discharged=sum(o["status"] == "proved" for o in self.obl),
                    undecided=self.undecided[:20], refuted=self.refuted[:5], paths=self.stats.paths,
                    queries=self.stats.queries, solver_s=round(self.stats.solver_s, 2),
                    backends=self._backends(), uncovered=bad_cov, returns=self.returns, raises=self.raises,
                    labels=sorted({o["label"] for o in self.obl}))

    def _backends(self):
        b = {}
        for o in self.obl:
            if o["status"] == "proved":
                b[o["backend"]] = b.get(o["backend"], 0) + 1
        return b


# ------------------------------------------------------------------ helpers for writing contracts
def dim(name, lo=1):
    """symbolic array dimension >= lo"""
    cx = core.ctx()
    e = z3.Int(name)
    cx.fact(e >= lo)
    cx.ghost.setdefault("dims", []).append(e)
    return e


def real(name):
    return Sym("f", z3.Real(name))


def integer(name):
    return Sym("i", z3.Int(name))


def boolean(name):
    return Sym("b", z3.Bool(name))


def datetime_(name):
    return Sym("t", z3.Real(name))


def implies(a, b):
    a = a.e if isinstance(a, Sym) else a
    b = b.e if isinstance(b, Sym) else b
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return z3.Implies(a, b)


def run_case(oracle, case):
    """(case, verdict, oracle name) of a concrete case on the real code; an exception is a failure"""
    try:
        msg = oracle(case)
    except Exception as e:
        msg = f"raised {type(e).__name__}: {e}"
    return case, msg, oracle.__name__


class _Found(Exception):
    pass


class _Search:
    """drives a property's bounded generator with another seed until a case fails"""
    tier = "quick"

    def __init__(self, prop, seconds):
        import random
        self.rng = random.Random(f"search-{prop}")
        self.end = _time.time() + seconds
        self.hit = None

    def n(self, q, t):
        return 3 * q

    def nprng(self):
        import numpy as np
        return np.random.default_rng(self.rng.getrandbits(32))

    def case(self, family, oracle, case, nontrivial=True):
        import pickle
        r = run_case(oracle, pickle.loads(pickle.dumps(case)))
        if r[1]:
            self.hit = (case,) + r[1:]
        if r[1] or _time.time() > self.end:
            raise _Found()


def search_bounded(prop, seconds=45):
    """replay for obligations whose counter-model speaks about abstract collaborators: look for a concrete failure of
    the real code with the property's own input generator; None when there is none (reported without a failing input)"""
    import importlib
    import warnings
    m = importlib.import_module(f"props.{prop}")
    if not hasattr(m, "bounded"):
        return None
    b = _Search(prop, seconds)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m.bounded(b)
        except _Found:
            pass
    return b.hit
