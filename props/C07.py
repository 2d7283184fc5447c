"""C07: time interpolation of variables, result layout, vector components."""
import z3

from pyvc.verify import run_case

ID = "C07"
BOUNDED_FUNCTIONS = ["Variable.at / VectorVariable.at on real UGrid, SGrid and rectangular grids"]


# ---------------------------------------------------------------- unit oracle (real Variable and Time, table grid)
class _Grid:
    def __init__(self, table, off, ma):
        self.table, self.off, self.ma = table, off, ma

    def infer_location(self, d):
        return "node"

    def interpolate_var_to_points(self, points, variable, location=None, slices=None, **kw):
        import numpy as np
        ks = np.asarray(points)[:, 0].astype(int)
        i = int(slices[-1]) if slices else 0
        v, m = self.table[i][ks], np.broadcast_to(self.off, self.table.shape)[i][ks]
        return np.ma.MaskedArray(v.copy(), mask=m.copy()) if self.ma else v.copy()


def oracle_unit(case):
    """case: times, q, extrapolate, F (records x points), off (points, or records x points)"""
    import numpy as np
    from gridded.time import OutOfTimeRangeError, Time
    from gridded.variable import Variable
    ts, q, ex = case["times"], case["q"], case["extrapolate"]
    F = np.array(case["F"], dtype=float)
    n = F.shape[1]
    off = np.array(case["off"], dtype=bool) if case["ma"] else np.zeros(n, dtype=bool)
    off = np.broadcast_to(off, F.shape)
    v = Variable(name="x", data=np.zeros((len(ts), 3, 3)), grid=_Grid(F, off, case["ma"]), time=Time(np.array(ts)))
    v.dimension_ordering = ["time", "lon", "lat"]
    pts = np.column_stack([np.arange(n), np.arange(n)]).astype(float)
    inside = ts[0] <= q <= ts[-1]
    try:
        r = v._time_interp(pts, q, ex)
    except OutOfTimeRangeError:
        if inside or ex or len(ts) == 1:
            return f"time {q} refused (axis {ts[0]} .. {ts[-1]}, extrapolate={ex})"
        return None
    if not inside and not ex and len(ts) > 1:
        return f"time {q} outside {ts[0]} .. {ts[-1]} accepted"
    if q <= ts[0] or len(ts) == 1:
        e, no, may = F[0], off[0], off[0]
    elif q >= ts[-1]:
        e, no, may = F[-1], off[-1], off[-1]
    else:
        k = max(i for i in range(len(ts)) if ts[i] <= q)
        a = (q - ts[k]) / (ts[k + 1] - ts[k])
        e = F[k] * (1 - a) + F[k + 1] * a
        # the value needs both records; exactly at a record, that one (a gap of a neighbour may show)
        no = off[k] | off[k + 1] if a else off[k]
        may = no if a else off[k - 1] | off[k] | off[k + 1]
    r = np.ma.asarray(r).reshape(-1)
    if r.shape != (n,):
        return f"{n} points but {r.shape}"
    rm = np.ma.getmaskarray(r)
    if (no & ~rm).any() or (rm & ~may).any():
        return f"mask {rm.tolist()} expected {no.tolist()} (at {q}, gaps of the records {off.tolist()})"
    bad = ~rm & ~(np.abs(r.data - e) <= 1e-9 * np.maximum(1, np.abs(e)))
    if bad.any():
        k = int(np.argmax(bad))
        return f"point {k}: value {r.data[k]} at {q}, records {F[:, k].tolist()} at {[str(t) for t in ts]}, expected {e[k]}"
    return None


# ---------------------------------------------------------------- full stack
def oracle(case):
    import datetime as dt
    import random
    import numpy as np
    from gridded.grids import Grid_R, Grid_S, Grid_U
    from gridded.time import OutOfTimeRangeError, Time
    from gridded.variable import Variable, VectorVariable
    from . import common
    rng = random.Random(case["seed"])
    n, gk, nt, nc = case["n"], case["grid"], case["nt"], case["nc"]
    t = dt.datetime(1999, 12, 31, 22)
    ts = []
    for _ in range(nt):
        ts.append(t)
        t += dt.timedelta(minutes=rng.choice([1, 30, 60, 600]))
    sq = None
    if gk == "U":
        nodes, faces, rect = common.tri_mesh(rng, 4, 3, rot=case["rot"])
        g = Grid_U(nodes=nodes, faces=faces)
        P = common.inside(rng, rect, n)
        X, Y = nodes[:, 0], nodes[:, 1]
    else:
        lon, lat, (A, o, gx, gy) = common.block(rng, 5, 4, rot=case["rot"] if gk == "S" else 0)
        uv = np.array([[rng.uniform(.02, 3.98), rng.uniform(.02, 2.98)] for _ in range(n)])
        P = uv @ A.T + o
        g = Grid_S(node_lon=lon, node_lat=lat) if gk == "S" else Grid_R(node_lon=gx.copy(), node_lat=gy.copy())
        X, Y = lon, lat
    gaps = case["gaps"] and gk == "S" and not case["notime"] and nt > 1
    off = np.array([(case["off"] and not gaps) and rng.random() < .3 for _ in range(n)], dtype=bool)
    P[off] += 900.0
    co = [[(rng.uniform(-5, 5), rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(nt)] for _ in range(nc)]
    field = lambda c, x, y: c[0] + c[1] * x + c[2] * y
    T = Time(list(ts))
    gap = rng.randrange(nt)
    notime = case["notime"]
    fill = case["fill"]
    vs = []
    for c in co:
        d = np.array([field(q, X, Y) for q in c])
        if gaps:
            # one record is masked everywhere, the others nowhere
            d = np.ma.MaskedArray(d, mask=np.zeros(d.shape, bool))
            d.mask[gap] = True
        vs.append(Variable(name="x", data=d[0] if notime else d, grid=g, time=None if notime else T, fill_value=fill))
    obj = vs[0] if nc == 1 else VectorVariable(variables=vs, time=None if notime else T, name="v")
    fr = case["frac"]
    if fr == "rec":
        q = rng.choice(ts)
    elif fr == "before":
        q = ts[0] - dt.timedelta(minutes=7)
    elif fr == "after":
        q = ts[-1] + dt.timedelta(minutes=7)
    else:
        q = ts[0] + (ts[-1] - ts[0]) * fr
    ex = case["ex"]
    inside = ts[0] <= q <= ts[-1]
    form = case["form"]
    pts = P.copy()
    if case["z"]:
        pts = np.column_stack([pts, np.zeros(n)])
    kw, ref = {}, None
    if form == "list":
        arg = pts.tolist()
    elif form == "lonlat":
        arg, kw = None, dict(lons=P[:, 0].tolist(), lats=P[:, 1].tolist())
    elif form == "T" and n > 3:
        arg = np.ascontiguousarray(pts.T)
    elif form == "1d" and n == 1:
        arg = pts[0]
    else:
        arg = pts
    ref = None if arg is None else np.array(arg, copy=True)
    try:
        if form == "arr" or form == "list":
            for w in common.earlier(case["warm"], pts):
                obj.at(w.tolist() if form == "list" else w, q, extrapolate=ex, unmask=case["unmask"])
        r = obj.at(arg, q, extrapolate=ex, unmask=case["unmask"], **kw)
        if case["twice"]:
            r2 = obj.at(arg, q, extrapolate=ex, unmask=case["unmask"], **kw)
            if not np.ma.allequal(r, r2) or (np.ma.getmaskarray(r) != np.ma.getmaskarray(r2)).any():
                return "asking again gives another answer"
    except OutOfTimeRangeError:
        if notime or inside or ex or nt == 1:
            return f"time {q} refused (axis {ts[0]} .. {ts[-1]}, extrapolate={ex})"
        return None
    if ref is not None and not np.array_equal(ref, np.array(arg)):
        return "query modified its points"
    if not notime and not inside and not ex and nt > 1:
        return f"time {q} outside {ts[0]} .. {ts[-1]} accepted"
    if r.shape != (n, nc):
        return f"result shape {r.shape}, expected {(n, nc)}"
    if notime or nt == 1 or q <= ts[0]:
        k, a = 0, 0.0
    elif q >= ts[-1]:
        k, a = nt - 1, 0.0
    else:
        k = max(i for i in range(nt) if ts[i] <= q)
        a = (q - ts[k]) / (ts[k + 1] - ts[k])
    rm, rd = np.ma.getmaskarray(r), np.ma.getdata(r)
    if gaps and not a and 0 < k < nt - 1 and abs(k - gap) == 1:
        return None  # exactly at a record whose neighbour has a gap: masked or not
    if gaps and (k == gap or (a and k + 1 == gap)):
        off[:] = True
    for c in range(nc):
        for p in range(n):
            d = f"component {c} point {p} {P[p].tolist()} time {q} grid {gk}"
            if off[p]:
                if gk == "S":
                    if case["unmask"]:
                        if rm[p, c] or rd[p, c] != fill:
                            return f"{d}: off the grid, unmask requested, got {r[p, c]} instead of the fill value {fill}"
                    elif not rm[p, c]:
                        return f"{d}: off the grid but not masked ({r[p, c]})"
                elif rm[p, c] or rd[p, c] != 0:
                    return f"{d}: off the grid but value {r[p, c]}"
                continue
            e = field(co[c][k], *P[p])
            if a:
                e = e * (1 - a) + field(co[c][k + 1], *P[p]) * a
            if rm[p, c] or not abs(rd[p, c] - e) <= 1e-6 * max(1, abs(e)):
                return f"{d}: value {r[p, c]}, expected {e}"
    return None


def bounded(B):
    import datetime as dt
    from . import common
    rng = B.rng
    for c in range(B.n(400, 4000)):
        nt, n = rng.choice([1, 2, 2, 3, 5, 9]), rng.choice([1, 2, 5])
        t, ts = dt.datetime(2011, 11, 11), []
        for _ in range(nt):
            ts.append(t)
            t += dt.timedelta(seconds=rng.choice([1, 60, 3600, 1e6]) * rng.randint(1, 4))
        q = rng.choice([ts[0], ts[-1], rng.choice(ts), ts[0] - dt.timedelta(seconds=1), ts[-1] + dt.timedelta(days=3),
                        ts[0] + (ts[-1] - ts[0]) * rng.random(), ts[0] + (ts[-1] - ts[0]) * rng.random()])
        B.case("unit", oracle_unit, dict(times=ts, q=q, extrapolate=rng.random() < .5, ma=rng.random() < .5,
                                         off=[[rng.random() < .2 for _ in range(n)] for _ in range(nt)] if c % 2 else [rng.random() < .3 for _ in range(n)],
                                         F=[[rng.uniform(-9, 9) for _ in range(n)] for _ in range(nt)]), nontrivial=nt > 1)
    for c in range(B.n(350, 3500)):
        B.case("full", oracle, dict(
            seed=rng.getrandbits(32), grid=rng.choice("USR"), n=rng.choice([1, 2, 3, 4, 7, 30]), nt=rng.choice([1, 2, 3, 6]),
            nc=rng.choice([1, 1, 2, 3]), rot=rng.choice([0, .5, 2.2, -1.3]), off=rng.random() < .5, notime=rng.random() < .15,
            fill=rng.choice([0, 0, -99.0]), z=rng.random() < .4, frac=rng.choice(["rec", "before", "after", .2, .5, .83]),
            ex=rng.random() < .4, unmask=rng.random() < .4, form=rng.choice(["arr", "arr", "list", "lonlat", "T", "1d"]),
            gaps=rng.random() < .3, twice=rng.random() < .3, warm=rng.choice(common.WARM)))


# ------------------------------------------------------------------------------------------------ contracts
def _var(V, cx, masked, single, order):
    from pyvc.arr import SMa, ascending, new, sym_array
    from pyvc.core import Sym, zi
    from pyvc.verify import dim
    Vm, Tm = V.mod("gridded.variable"), V.mod("gridded.time")
    N = 1 if single else dim("N", 2)
    t = sym_array("t", (N,), "t", axioms=[ascending()])
    T = Tm.Time.__new__(Tm.Time)
    T._data, T._tz_offset = t, None
    F = z3.Function("F", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
    O = z3.Function("O", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())  # gaps of each record
    calls = []

    class G:
        def interpolate_var_to_points(self, points, variable, location=None, slices=None, **kw):
            if isinstance(slices, tuple) and len(slices) == 0:
                i = z3.IntVal(0)
            else:
                rec = slices[-1] if isinstance(slices, tuple) else slices
                rec = rec if isinstance(rec, Sym) else Sym("i", zi(rec))
                if not bool(Sym("b", z3.And(rec.e >= -zi(N), rec.e < zi(N)))):
                    raise IndexError("record out of range")
                i = z3.If(rec.e < 0, rec.e + N, rec.e)
            calls.append(slices)
            rp = points.reader()
            n = points.sshape[0]
            v = new((n,), "f", lambda q: Sym("f", F(i, rp((q[0], 0)).e, rp((q[0], 1)).e)))
            o = new((n,), "b", lambda q: Sym("b", O(i, rp((q[0], 0)).e, rp((q[0], 1)).e)))
            return SMa(v, o) if masked else v

    class Data:
        shape = (Sym("i", zi(N)), 3, 3)
    v = Vm.Variable.__new__(Vm.Variable)
    v._order = order
    v.grid, v.depth, v._location, v._time, v._data = G(), None, "node", T, Data()
    v.surface_boundary_condition, v.bottom_boundary_condition = "extrapolate", "mask"
    v.fill_value = 0
    import collections
    v._result_memo = collections.OrderedDict()
    v._revision = 0
    cx.ghost.update(N=N, t=t, F=F, O=O, masked=masked, calls=calls)
    return v


def _replay(single, ex, masked):
    def replay(M, cx):
        g = cx.ghost
        ts = M.array(g["t"]).tolist()
        if any(b <= a for a, b in zip(ts, ts[1:])):
            raise ValueError("axis not increasing outside the named records")
        P = g["P"]
        n = M.val(P.sshape[0])
        rp = P.reader()
        xy = [[rp((z3.IntVal(k), z3.IntVal(c))).e for c in (0, 1)] for k in range(n)]
        F = [[M.val(g["F"](z3.IntVal(i), *xy[k])) for k in range(n)] for i in range(len(ts))]
        case = dict(times=ts, q=M.val(g["q"]), extrapolate=ex, F=F, ma=masked,
                    off=[[bool(M.val(g["O"](z3.IntVal(i), *xy[k]))) for k in range(n)] for i in range(len(ts))])
        return run_case(oracle_unit, case)
    return replay


def _post(single, ex, masked, tag, column):
    def post(V, p):
        from pyvc.core import And, Not, zi
        from pyvc.verify import implies
        cx, g = p.ctx, p.ctx.ghost
        N, t, q = g["N"], g["t"], g["q"].e
        first, last = t.at(0).e, t.at(zi(N) - 1).e
        inside = And(first <= q, q <= last)
        if p.outcome == "raise":
            V.prove(f"{tag}: raises only the out-of-range error", type(p.value).__name__ == "OutOfTimeRangeError")
            V.prove(f"{tag}: raises only out of range without extrapolation", And(not ex and not single, Not(inside)))
            V.cover(f"{tag}: refused")
            return
        if not ex and not single:
            V.prove(f"{tag}: out of range never accepted", inside)
        r = p.value
        n = g["P"].sshape[0]
        k = cx.fresh_index(n, "k").e
        if column:
            V.prove(f"{tag}: N x 1", And(len(r.sshape) == 2, zi(r.sshape[0]) == n, zi(r.sshape[1]) == 1))
            v, rm = r.at(k, 0), (r.mat(k, 0) if masked else z3.BoolVal(False))
        else:
            V.prove(f"{tag}: one value per point", And(len(r.sshape) == 1, zi(r.sshape[0]) == n))
            v, rm = r.at(k), (r.mat(k) if masked else z3.BoolVal(False))
        rp = g["P"].reader()
        x, y = rp((k, 0)).e, rp((k, 1)).e
        F, O = g["F"], g["O"]
        ok = Not(rm)
        gap = lambda i: O(i, x, y) if masked else z3.BoolVal(False)
        V.prove(f"{tag}: no NaN", implies(ok, Not(v.nan) if v.nan is not None else True))
        val = v.e if v.kind == "f" else z3.ToReal(v.e)
        if single:
            V.prove(f"{tag}: masked exactly where the record is", rm == gap(z3.IntVal(0)))
            V.prove(f"{tag}: the only record serves every time", implies(ok, val == F(z3.IntVal(0), x, y)))
            return
        i = cx.fresh_index(N, "i").e
        lo, hi = t.at(i).e, t.at(i + 1).e
        cx.index_term(zi(N), i + 1)
        cx.saturate()
        br = And(ok, i + 1 < N, lo <= q, q <= hi)
        if masked:
            between = And(i + 1 < N, lo < q, q < hi)
            V.prove(f"{tag}: between two records masked exactly where one of them is", implies(between, rm == z3.Or(gap(i), gap(i + 1))))
            V.prove(f"{tag}: at a record masked where it is", implies(And(q == lo, gap(i)), rm))
            V.prove(f"{tag}: at a record masked only by a gap of it or of its neighbours",
                    implies(And(q == lo, i > 0, i + 1 < N, Not(gap(i - 1)), Not(gap(i)), Not(gap(i + 1))), ok))
            V.prove(f"{tag}: before the start masked exactly where the first record is", implies(q <= first, rm == gap(z3.IntVal(0))))
            V.prove(f"{tag}: after the end masked exactly where the last record is", implies(q >= last, rm == gap(zi(N) - 1)))
            V.cover(f"{tag}: one record has a gap", And(between, gap(i), Not(gap(i + 1))))
        V.prove(f"{tag}: linear between the two records around the time",
                implies(br, val * (hi - lo) == F(i, x, y) * (hi - q) + F(i + 1, x, y) * (q - lo)))
        V.prove(f"{tag}: before the start the first record", implies(And(ok, q <= first), val == F(z3.IntVal(0), x, y)))
        V.prove(f"{tag}: after the end the last record", implies(And(ok, q >= last), val == F(N - 1, x, y)))
        V.cover(f"{tag}: strictly between records", And(br, lo < q, q < hi))
    return post


def contract_time_interp(V):
    """Variable._time_interp over any increasing axis, any time, any number of points; horizontal interpolation by
    contract; Time's real code"""
    from pyvc.arr import sym_array
    from pyvc.verify import datetime_, dim
    V.functions = ["Variable._time_interp", "Variable._xy_interp", "Time.index_of", "Time.interp_alpha", "Time.min_time",
                   "Time.max_time"]
    V.assumes = ["Grid.interpolate_var_to_points: value depends on the record and the point only (C08/C09/C10)"]
    for single in (False, True):
        for ex in (False, True):
            for masked in (False, True):
                tag = f"single={single},extrapolate={ex},masked={masked}"

                def run(cx):
                    v = _var(V, cx, masked, single, ["time", "lon", "lat"])
                    P = sym_array("P", (dim("n", 1), 2), "f")
                    q = datetime_("q")
                    cx.ghost.update(P=P, q=q)
                    return v._time_interp(P, q, ex)
                V.verify(run, _post(single, ex, masked, tag, False), _replay(single, ex, masked))


def contract_at(V):
    """Variable.at: N x 1 result, one row per point in the order given, time interpolation as above; a repeated call
    (served from the result cache) satisfies the same contract"""
    from pyvc.arr import sym_array
    from pyvc.verify import datetime_, dim
    V.functions = ["Variable.at", "Variable._get_hash", "Variable._get_memoed", "Variable._memoize_result",
                   "_reorganize_spatial_data", "Variable.dimension_ordering"]
    V.assumes = ["hashlib.sha1 is injective on the byte strings hashed", "at least four points (smaller counts: C16)"]
    for masked in (False, True):
        for twice in (False, True):
            tag = f"at masked={masked}{' repeated' if twice else ''}"

            def run(cx):
                v = _var(V, cx, masked, False, ["time", "lon", "lat"])
                P = sym_array("P", (dim("n", 4), 3), "f")
                q = datetime_("q")
                cx.ghost.update(P=P, q=q)
                r = v.at(P, q, extrapolate=True)
                if twice:
                    c0 = len(cx.ghost["calls"])
                    r = v.at(P, q, extrapolate=True)
                return r
            V.verify(run, _post(False, True, masked, tag, True), _replay(False, True, masked))


def contract_vector(V):
    """VectorVariable.at: column j is component j at the same points and time, row k is point k; masks per component"""
    from pyvc.arr import SMa, new, sym_array
    from pyvc.core import And, Not, Sym, zi
    from pyvc.verify import datetime_, dim, implies
    V.functions = ["VectorVariable.at", "VectorVariable._get_memoed", "VectorVariable._memoize_result"]
    V.assumes = ["Variable.at: (n,1) result per point (contract_at)"]
    Vm = V.mod("gridded.variable")
    for ncomp in (2, 3):
        for twice in (False, True):
            def run(cx):
                import collections
                n = dim("n", 4)
                P = sym_array("P", (n, 3), "f")
                q = datetime_("q")
                Fs = [z3.Function(f"F{j}", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort()) for j in range(ncomp)]
                O = [z3.Function(f"O{j}", z3.RealSort(), z3.RealSort(), z3.BoolSort()) for j in range(ncomp)]

                class C:
                    _revision = 0
                    surface_boundary_condition, bottom_boundary_condition = "extrapolate", "mask"

                    def __init__(self, j):
                        self.j = j

                    def at(self, points=None, time=None, units=None, extrapolate=False, **kw):
                        rp = points.reader()
                        j = self.j
                        m = points.sshape[0]
                        return SMa(new((m, 1), "f", lambda i: Sym("f", Fs[j](rp((i[0], 0)).e, rp((i[0], 1)).e, time.e))),
                                   new((m, 1), "b", lambda i: Sym("b", O[j](rp((i[0], 0)).e, rp((i[0], 1)).e))))
                v = Vm.VectorVariable.__new__(Vm.VectorVariable)
                v.variables = [C(j) for j in range(ncomp)]
                v._result_memo = collections.OrderedDict()
                cx.ghost.update(P=P, q=q, F=Fs, O=O, n=n)
                r = v.at(P, q)
                return v.at(P, q) if twice else r

            def post(V, p):
                cx, g = p.ctx, p.ctx.ghost
                tag = f"{ncomp} components{' repeated' if twice else ''}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r = p.value
                V.prove(f"{tag}: N x M", And(len(r.sshape) == 2, zi(r.sshape[0]) == g["n"], zi(r.sshape[1]) == ncomp))
                k = cx.fresh_index(g["n"], "k").e
                rp = g["P"].reader()
                x, y = rp((k, 0)).e, rp((k, 1)).e
                for j in range(ncomp):
                    V.prove(f"{tag}: component mask", r.mat(k, j) == g["O"][j](x, y))
                    V.prove(f"{tag}: component value",
                            implies(Not(r.mat(k, j)), r.at(k, j).e == g["F"][j](x, y, g["q"].e)))

            V.verify(run, post)




CONTRACTS = [contract_time_interp, contract_at, contract_vector]
