"""C01: time lookup brackets the query and the weight is the exact linear fraction."""
import datetime as dt

import z3

from pyvc.verify import run_case

ID = "C01"


# ------------------------------------------------------------------ oracle on the real code (shared with replay)
def oracle(case):
    """case: times (list of datetime), q, extrapolate -> failure message or None"""
    import numpy as np
    from gridded.time import Time, OutOfTimeRangeError
    ts, q, ex = case["times"], case["q"], case["extrapolate"]
    T = Time(data=np.array(ts))
    n = len(ts)
    inside = ts[0] <= q <= ts[-1]
    must_raise = not inside and not ex and n > 1
    try:
        T.valid_time(q)
        if not inside:
            return f"valid_time accepted {q} outside [{ts[0]}, {ts[-1]}]"
    except OutOfTimeRangeError:
        if inside:
            return f"valid_time rejected {q} inside [{ts[0]}, {ts[-1]}]"
    if bool(T.time_in_bounds(q)) != inside:
        return f"time_in_bounds({q}) is {T.time_in_bounds(q)}, expected {inside}"
    for fn in ("index_of", "interp_alpha"):
        try:
            r = getattr(T, fn)(q, extrapolate=ex)
        except OutOfTimeRangeError as e:
            if not must_raise:
                return f"{fn} raised {e!r} for {q}, extrapolate={ex}, axis {ts[0]}..{ts[-1]}"
            continue
        if must_raise:
            return f"{fn} accepted out-of-range time {q} -> {r}"
        if fn == "index_of":
            want = 0 if n == 1 else sum(1 for t in ts if t < q)
            if int(r) != want:
                return f"index_of({q}) = {r}, expected {want} on {ts}"
        else:
            k = sum(1 for t in ts if t < q)
            if n == 1 or k == 0:
                want = 0.0
            elif k == n:
                want = 1.0
            else:
                want = (q - ts[k - 1]) / (ts[k] - ts[k - 1])
            if not abs(float(r) - want) <= 1e-9:
                return f"interp_alpha({q}) = {r}, expected {want} on {ts}"
            if not 0 <= float(r) <= 1:
                return f"interp_alpha({q}) = {r} outside [0,1]"
    if T.min_time != ts[0] or T.max_time != ts[-1]:
        return "min_time/max_time are not the ends of the axis"
    if list(T.data) != list(ts):
        return "a query changed the time axis"
    return None


def bounded(B):
    rng = B.rng
    base = dt.datetime(2012, 2, 28)
    for c in range(B.n(300, 3000)):
        n = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 20])
        unit = rng.choice([dt.timedelta(microseconds=1), dt.timedelta(seconds=1), dt.timedelta(hours=1),
                           dt.timedelta(days=40)])
        t, ts = base + unit * rng.randint(-1000, 1000), []
        for _ in range(n):
            ts.append(t)
            t = t + unit * rng.randint(1, 9)
        qs = [ts[0], ts[-1], rng.choice(ts), ts[0] - unit, ts[-1] + unit, ts[0] - unit / 2,
              ts[-1] + dt.timedelta(microseconds=1), ts[0] - dt.timedelta(microseconds=1)]
        qs += [ts[0] + (ts[-1] - ts[0]) * rng.random() for _ in range(3)]
        if n > 1:
            k = rng.randrange(n - 1)
            qs += [ts[k] + (ts[k + 1] - ts[k]) * rng.random(), ts[k] + dt.timedelta(microseconds=1),
                   ts[k + 1] - dt.timedelta(microseconds=1)]
        for q in qs:
            for ex in (False, True):
                B.case("lookup", oracle, dict(times=ts, q=q, extrapolate=ex), nontrivial=n > 1)


# ------------------------------------------------------------------ contracts
def _axis(cx, n, single):
    from pyvc.arr import ascending, sym_array
    from pyvc.verify import dim
    N = 1 if single else dim("N", 2)
    return N, sym_array("t", (N,), "t", axioms=[ascending()])


def _mk(T, data):
    o = T.Time.__new__(T.Time)
    o._data = data
    o._tz_offset = None
    return o


def contract_lookup(V):
    """Time.index_of / interp_alpha / valid_time / time_in_bounds over an arbitrary strictly ascending axis of any
    length, arbitrary query time, extrapolate both ways"""
    from pyvc.core import And, Not, Sym, zi, zlt
    from pyvc.verify import datetime_, implies
    V.functions = ["Time.index_of", "Time.interp_alpha", "Time.valid_time", "Time.time_in_bounds", "Time.min_time",
                   "Time.max_time"]
    T = V.mod("gridded.time")
    for single in (False, True):
        for ex in (False, True):
            for what in ("index_of", "interp_alpha", "valid_time", "time_in_bounds"):
                if ex and what in ("valid_time", "time_in_bounds"):
                    continue

                def run(cx):
                    N, t = _axis(cx, "N", single)
                    q = datetime_("q")
                    cx.ghost.update(N=N, t=t, q=q)
                    o = _mk(T, t)
                    if what in ("valid_time", "time_in_bounds"):
                        return getattr(o, what)(q)
                    return getattr(o, what)(q, extrapolate=ex)

                def replay(M, cx):
                    g = cx.ghost
                    ts = sorted(set(M.array(g["t"]).tolist()))
                    case = dict(times=ts, q=M.val(g["q"]), extrapolate=ex)
                    return run_case(oracle, case)

                def post(V, p):
                    cx = p.ctx
                    g = cx.ghost
                    N, t, q = g["N"], g["t"], g["q"]
                    first, last = t.at(0), t.at(zi(N) - 1)
                    inside = And(first.e <= q.e, q.e <= last.e)
                    tag = f"{what}[single={single},extrapolate={ex}]"
                    if p.outcome == "raise":
                        ok = type(p.value).__name__ == "OutOfTimeRangeError" and isinstance(p.value, ValueError)
                        V.prove(f"{tag}: raises only the out-of-range error", ok)
                        may = what == "valid_time" or (not ex and not single)
                        V.prove(f"{tag}: raises only for out-of-range queries", And(may, Not(inside)))
                        V.cover(f"{tag}:raise")
                        return
                    V.cover(f"{tag}:return")
                    if what == "time_in_bounds":
                        r = p.value
                        r = r.e if isinstance(r, Sym) else z3.BoolVal(bool(r))
                        V.prove(f"{tag}: exactly the closed range", r == inside)
                        return
                    if what == "valid_time":
                        V.prove(f"{tag}: returns only in range", inside)
                        return
                    if not ex and not single:
                        V.prove(f"{tag}: out of range never accepted", inside)
                    from pyvc.core import lift
                    if what == "index_of":
                        i = zi(p.value)
                        if single:
                            V.prove(f"{tag}: index of a single time is 0", i == 0)
                            return
                        V.prove(f"{tag}: in 0..N", And(i >= 0, i <= N))
                        j = cx.fresh_index(N, "j").e
                        V.prove(f"{tag}: every earlier time is before the query",
                                implies(j < i, t.at(j).e < q.e))
                        V.prove(f"{tag}: every later time is not before the query",
                                implies(j >= i, t.at(j).e >= q.e))
                        return
                    a = lift(p.value)
                    av = z3.ToReal(a.e) if a.kind == "i" else a.e
                    if single:
                        V.prove(f"{tag}: weight 0", av == 0)
                        return
                    V.prove(f"{tag}: in [0,1]", And(av >= 0, av <= 1, Not(a.nan) if a.nan is not None else True))
                    k = cx.fresh_index(N, "k").e
                    lo, hi = t.at(k - 1), t.at(k)
                    V.prove(f"{tag}: exact linear fraction",
                            implies(And(k >= 1, lo.e < q.e, q.e <= hi.e), av * (hi.e - lo.e) == q.e - lo.e))
                    V.prove(f"{tag}: at or before the start -> 0", implies(q.e <= first.e, av == 0))
                    V.prove(f"{tag}: after the end -> 1", implies(q.e > last.e, av == 1))
                V.verify(run, post, replay)


CONTRACTS = [contract_lookup]
