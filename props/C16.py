"""C16: points in every layout that is allowed, and answers that line up with them."""
import numpy as np
import z3

from pyvc.verify import run_case

ID = "C16"
BOUNDED_FUNCTIONS = ["Variable.at / VectorVariable.at over layouts of the points", "_reorganize_spatial_data / _align_results_to_spatial_data on real containers"]


# ------------------------------------------------------------------------------------------------ bounded companion
def layouts(P, how):
    """the rows P (n,k) in a layout that is allowed"""
    n, k = P.shape
    cols = n > 3
    return {
        "rows": lambda: P, "list": lambda: P.tolist(), "tuples": lambda: tuple(tuple(r) for r in P.tolist()), "arrays": lambda: [r.copy() for r in P],
        "cols": lambda: np.ascontiguousarray(P.T) if cols else P, "fortran": lambda: np.asfortranarray(P),
        "colview": lambda: P.T if cols else P, "collist": lambda: P.T.tolist() if cols else P.tolist(),
        "colarrays": lambda: tuple(c.copy() for c in P.T) if cols else P,
        "one": lambda: P[0] if n == 1 else P, "onelist": lambda: P[0].tolist() if n == 1 else P, "onecol": lambda: P.T if n == 1 else P,
        "extra": lambda: P[:, None, :], "extra0": lambda: P[None], "strided": lambda: np.repeat(P, 2, axis=0)[::2],
        "f4": lambda: P.astype("f4"), "masked": lambda: np.ma.MaskedArray(P)}[how]()


HOW = ["rows", "list", "tuples", "arrays", "cols", "fortran", "colview", "collist", "colarrays", "one", "onelist", "onecol", "extra", "extra0", "strided",
       "f4", "masked"]


def oracle_norm(case):
    from gridded.utilities import _align_results_to_spatial_data, _reorganize_spatial_data
    P = np.array(case["P"])
    if case["int"]:
        P = np.round(P).astype(int)
    n, k = P.shape
    a = layouts(P, case["how"])
    before = np.array(a, copy=True)
    r = _reorganize_spatial_data(a)
    want = P.astype("f4") if case["how"] == "f4" else P
    if r.shape != (n, k) or not np.array_equal(r, want):
        return f"{P.tolist()} as {case['how']} became {np.asarray(r).tolist()}"
    if not np.array_equal(before, np.array(a)):
        return "the caller's points were changed"
    # results: one row for each point
    m = case["m"]
    R = np.arange(n * m).reshape(n, m) * 1.5
    given = R[:, 0] if m == 1 and case["flat"] else R
    s = np.array(a).squeeze().shape
    got = _align_results_to_spatial_data(given, a)
    by_column = len(s) == 2 and s not in ((2, 2), (2, 3), (3, 2), (3, 3)) and s[0] < s[1]
    small = len(s) == 1 or s in ((2, 2), (2, 3), (3, 2), (3, 3))
    exp = given.T if by_column else given if small else R if given.ndim == 1 else given
    if got.shape != exp.shape or not np.array_equal(got, exp):
        return f"results {given.tolist()} for {case['how']} of {P.shape} became {got.tolist()}"
    return None


def oracle_refused(case):
    from gridded.utilities import _align_results_to_spatial_data, _reorganize_spatial_data
    a = np.zeros(case["shape"]) if case["what"] == "shape" else {"bool": np.zeros((4, 2), bool), "object": np.array([["a", "b"], [None, 2]], object),
                                                                 "bytes": np.array([[b"1", b"2"]]), "text": [["1", "2"], ["3", "4"]],
                                                                 "times": np.array([["2000-01-01", "2000-01-02"]], "M8[s]"), "nothing": [[None, None]]}[case["what"]]
    fs = [lambda: _reorganize_spatial_data(a)]
    if case["what"] == "shape":
        fs.append(lambda: _align_results_to_spatial_data(np.zeros(4), a))
    for f in fs:
        try:
            f()
        except (ValueError, TypeError, IndexError):
            continue
        return f"points of shape {np.shape(a)} and type {np.asarray(a).dtype} accepted"
    return None


def oracle_at(case):
    """asking in a layout = asking for each point alone"""
    import datetime as dt
    import random
    from gridded.grids import Grid_R, Grid_S, Grid_U
    from gridded.time import Time
    from gridded.variable import Variable, VectorVariable
    from . import common
    rng = random.Random(case["seed"])
    n, k, nc = case["n"], case["k"], case["nc"]
    if case["grid"] == "U":
        nodes, faces, rect = common.tri_mesh(rng, 4, 3, rot=.4)
        P = common.inside(rng, rect, n)
        X, Y = nodes[:, 0], nodes[:, 1]
        g = Grid_U(nodes=nodes, faces=faces)
    else:
        lon, lat, (A, o, gx, gy) = common.block(rng, 5, 4, rot=.4 if case["grid"] == "S" else 0)
        P = np.array([[rng.uniform(.02, 3.98), rng.uniform(.02, 2.98)] for _ in range(n)]) @ A.T + o
        g = Grid_S(node_lon=lon, node_lat=lat) if case["grid"] == "S" else Grid_R(node_lon=gx.copy(), node_lat=gy.copy())
        X, Y = lon, lat
    T = Time([dt.datetime(2000, 1, 1), dt.datetime(2000, 1, 2)])
    q = dt.datetime(2000, 1, 1, 9)
    co = [[rng.uniform(-5, 5) for _ in range(3)] for _ in range(nc)]
    vs = [Variable(name=f"v{j}", data=np.array([c[0] + c[1] * X + c[2] * Y, 3 * (c[0] + c[1] * X + c[2] * Y)]), grid=g, time=T) for j, c in enumerate(co)]
    obj = vs[0] if nc == 1 else VectorVariable(variables=vs, time=T, name="v")
    if k == 3:
        P = np.column_stack([P, np.array([rng.uniform(0, 9) for _ in range(n)])])
    for how in case["hows"]:
        kw, tol = {}, 1e-9
        if how == "lonlat":
            kw = dict(lons=P[:, 0].tolist(), lats=P[:, 1].tolist()) if rng.random() < .5 else dict(lons=P[:, 0].copy(), lats=tuple(P[:, 1]))
            arg = None
        else:
            arg, tol = layouts(P, how), 1e-4 if how == "f4" else 1e-9
            if rng.random() < .2:
                kw = dict(lons=[1e3], lats=[1e3])       # ignored if points are given
        r = obj.at(arg, q, **kw)
        want = np.array([[(c[0] + c[1] * p[0] + c[2] * p[1]) * (1 + 2 * 9 / 24) for c in co] for p in P])
        if r.shape != (n, nc) or not np.allclose(np.ma.filled(r, 1e30), want, rtol=tol, atol=1e-7 if tol < 1e-6 else 1e-3):
            return f"{how} of {P.tolist()} gives {np.asarray(r).tolist()} instead of {want.tolist()}"
    return None


def bounded(B):
    rng = B.rng
    for c in range(B.n(600, 6000)):
        n, k = rng.choice([1, 1, 2, 3, 4, 4, 5, 9]), rng.choice([2, 3])
        B.case("layout", oracle_norm, dict(P=[[rng.uniform(-180, 180) for _ in range(k)] for _ in range(n)], how=rng.choice(HOW), int=rng.random() < .2,
                                           m=rng.choice([1, 1, 2, 3, 5]), flat=rng.random() < .6), nontrivial=n > 1)
    for s in [(1,), (4,), (1, 1), (1, 5), (5, 1), (4, 4), (4, 5), (9, 4), (1, 4, 4), (7, 1, 6)]:
        B.case("refused", oracle_refused, dict(what="shape", shape=s))
    for w in ("bool", "object", "bytes", "text", "times", "nothing"):
        B.case("refused", oracle_refused, dict(what=w))
    for c in range(B.n(150, 1500)):
        hows = [rng.choice(HOW + ["lonlat"] * 4) for _ in range(rng.choice([1, 2, 3]))]
        B.case("at", oracle_at, dict(seed=rng.getrandbits(30), grid=rng.choice("URS"), n=rng.choice([1, 2, 3, 4, 5, 8]), k=rng.choice([2, 3]), nc=rng.choice([1, 2, 3]),
                                     hows=hows))


# ------------------------------------------------------------------------------------------------ contracts
def given(cx, conf):
    """(points as given, number of points, number of columns, reader of point q, coordinate c)"""
    from pyvc.arr import sym_array
    from pyvc.core import zi
    from pyvc.verify import dim, real
    form, k, n = conf
    if form in ("rows", "cols", "cols+1", "rows+1", "1+rows"):
        N = dim("n", 4) if n is None else n
        shape = {"rows": (N, k), "cols": (k, N), "rows+1": (N, 1, k), "1+rows": (1, N, k), "cols+1": (k, 1, N)}[form]
        P = sym_array("P", shape, "f")
        at = {"rows": lambda q, c: P.at(q, c), "cols": lambda q, c: P.at(c, q), "rows+1": lambda q, c: P.at(q, 0, c), "1+rows": lambda q, c: P.at(0, q, c),
              "cols+1": lambda q, c: P.at(c, 0, q)}[form]
        return P, zi(N), k, at
    if form == "int":
        P = sym_array("P", (dim("n", 4), k), "i")
        return P, zi(P.sshape[0]), k, P.at
    if form == "single":
        P = sym_array("P", (k,), "f")
        return P, z3.IntVal(1), k, lambda q, c: P.at(c)
    vals = [[real(f"p{i}{j}") for j in range(k)] for i in range(n)]

    def at(q, c):
        r = vals[0][c]
        from pyvc.core import Sym
        e = r.e
        for i in range(1, n):
            e = z3.If(zi(q) == i, vals[i][c].e, e)
        return Sym("f", e)
    if form == "list":
        return [list(r) for r in vals], z3.IntVal(n), k, at
    if form == "tuples":
        return tuple(tuple(r) for r in vals), z3.IntVal(n), k, at
    if form == "collist":
        return [[r[c] for r in vals] for c in range(k)], z3.IntVal(n), k, at
    if form == "one":
        return list(vals[0]), z3.IntVal(1), k, at
    raise ValueError(form)


def confs():
    for k in (2, 3):
        for n in (1, 2, 3, None):
            yield "rows", k, n
        yield "cols", k, None
        yield "cols", k, 1
        yield "rows+1", k, None
        yield "1+rows", k, None
        yield "cols+1", k, None
        yield "rows+1", k, 2
        yield "int", k, None
        yield "single", k, 1
        yield "one", k, 1
        for n in (1, 2, 3, 4, 6):
            yield "list", k, n
        yield "tuples", k, 5
        yield "collist", k, 4
        yield "collist", k, 7


def contract_reorganize(V):
    """points in every layout become an array with one row for each point, in the order given; the caller's points stay; nothing else is accepted"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    from pyvc.verify import dim
    V.functions = ["_reorganize_spatial_data"]
    U = V.mod("gridded.utilities")
    for conf in confs():
        def run(cx):
            g = cx.ghost
            g["P"], g["n"], g["k"], g["at"] = given(cx, conf)
            if hasattr(g["P"], "sshape"):
                g["before"] = g["P"].copy()
            return U._reorganize_spatial_data(g["P"])

        def post(V, p):
            cx, g = p.ctx, p.ctx.ghost
            tag = f"{conf[0]}, {conf[1]} columns, {conf[2] or 'any number of'} points"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r = p.value
            V.prove(f"{tag}: one row for each point", And(len(r.sshape) == 2, zi(r.sshape[0]) == g["n"], zi(r.sshape[1]) == g["k"]))
            q = cx.fresh_index(g["n"], "q").e
            cx.saturate()
            for c in range(conf[1]):
                a, b = r.at(q, c), g["at"](q, c)
                V.prove(f"{tag}: coordinate {c}", a.e == b.e)
            if "before" in g:
                idx = tuple(cx.fresh_index(s, "i").e for s in g["P"].sshape)
                V.prove(f"{tag}: the caller's points stay", g["P"].at(*idx).e == g["before"].at(*idx).e)
            V.cover(f"{tag}: reached")
        V.verify(run, post)
    refused = {"two long axes": lambda: (dim("n", 4), dim("m", 4)), "one coordinate": lambda: (1,), "more than a point": lambda: (dim("n", 4),),
               "one column": lambda: (dim("n", 4), 1), "one row": lambda: (1, dim("n", 4))}
    for what, shape in refused.items():
        for f, name in ((U._reorganize_spatial_data, "points"), (lambda P: U._align_results_to_spatial_data(P, P), "results")):
            def run(cx):
                return f(sym_array("P", shape(), "f"))

            def post(V, p):
                V.prove(f"{what} ({name}): refused", p.outcome == "raise" and isinstance(p.value, (ValueError, IndexError)))
                V.cover(f"{what} ({name}): reached")
            V.verify(run, post, want_return=False)

    def run(cx):
        return U._reorganize_spatial_data(sym_array("P", (dim("n", 4), 2), "b"))

    def post(V, p):
        V.prove("no numbers: refused", p.outcome == "raise" and isinstance(p.value, TypeError))
        V.cover("no numbers: reached")
    V.verify(run, post, want_return=False)


def contract_align(V):
    """results with one row for each point are turned exactly if the points were given as columns"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    V.functions = ["_align_results_to_spatial_data"]
    U = V.mod("gridded.utilities")
    for conf in confs():
        for m in (None, 1, 2, 3):
            def run(cx):
                g = cx.ghost
                g["P"], g["n"], g["k"], g["at"] = given(cx, conf)
                n = g["n"]
                n = n.as_long() if z3.is_int_value(n) else g["P"].sshape[[i for i, s in enumerate(g["P"].sshape) if not isinstance(s, int)][0]]
                g["R"] = sym_array("R", (n,) if m is None else (n, m), "f")
                return U._align_results_to_spatial_data(g["R"], g["P"])

            def post(V, p):
                cx, g = p.ctx, p.ctx.ghost
                form, k, n = conf
                tag = f"{form}, {k} columns, {n or 'any number of'} points, results {'flat' if m is None else f'of {m}'}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r, R = p.value, g["R"]
                turned = form in ("cols", "collist", "cols+1") and n != 1
                small = n in (1, 2, 3)
                q = cx.fresh_index(g["n"], "q").e
                shape = list(R.sshape)
                if turned:
                    shape = shape[::-1]
                elif m is None and not small:
                    shape.append(1)
                V.prove(f"{tag}: shape", And(len(r.sshape) == len(shape), *[zi(a) == zi(b) for a, b in zip(r.sshape, shape)]))
                for c in range(m or 1):
                    want = R.at(q) if m is None else R.at(q, c)
                    i = (q,) if len(shape) == 1 else (c, q) if turned else (q, c)
                    V.prove(f"{tag}: result {c}", r.at(*i).e == want.e)
                V.cover(f"{tag}: reached")
            V.verify(run, post)


def contract_at(V):
    """Variable.at and VectorVariable.at: the answer for a point does not depend on how the points are given"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, zi
    from pyvc.verify import datetime_, dim, implies, real
    from . import C07
    import collections
    V.functions = ["Variable.at", "VectorVariable.at", "_reorganize_spatial_data"]
    V.assumes = ["interpolate_var_to_points of the grid: one value for each row (C08, C09, C10)", "hashlib.sha1 is injective on the byte strings hashed"]
    Vm = V.mod("gridded.variable")
    all_confs = list(confs()) + [("lonlat", 2, n) for n in (1, 2, 3, 4, None)] + [("lonlat list", 2, n) for n in (1, 2, 3, 5)] + [("both", 2, None), ("none", 2, None)]
    for vector in (0, 2, 3):
        for masked in (False, True):
            if vector == 3 and masked:
                continue
            for conf in all_confs:
                form, k, n = conf
                if vector and form in ("1+rows", "cols+1", "tuples") or vector == 3 and form.startswith("rows"):
                    continue

                def run(cx):
                    g = cx.ghost
                    kw = {}
                    if form in ("lonlat", "both", "none"):
                        N = dim("n", 4) if n is None else n
                        x, y = sym_array("x", (N,), "f"), sym_array("y", (N,), "f")
                        kw = dict(lons=x, lats=y)
                        if form == "both":
                            P = sym_array("P", (N, k), "f")
                            g.update(P=P, at=P.at)
                        elif form == "none":
                            kw.pop("lats")
                            g.update(P=None, at=None)
                        else:
                            g.update(P=None, at=lambda q, c: (x, y)[c].at(q))
                        g["n"] = zi(N)
                    elif form == "lonlat list":
                        cols, g["n"], _, g["at"] = given(cx, ("collist", 2, n))
                        kw, g["P"] = dict(lons=cols[0], lats=tuple(cols[1])), None
                    else:
                        g["P"], g["n"], _, g["at"] = given(cx, conf)
                    vs, fs = [], []
                    for j in range(max(1, vector)):
                        v = C07._var(V, cx, masked, True, ["time", "lon", "lat"])
                        G = v.grid
                        F, O = g["F"], g["O"]
                        F2 = z3.Function(f"F{j}", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
                        O2 = z3.Function(f"O{j}", z3.RealSort(), z3.RealSort(), z3.BoolSort())
                        v.grid = _grid(F2, O2, masked)
                        fs.append((F2, O2))
                        vs.append(v)
                    g["fs"] = fs
                    obj = vs[0]
                    if vector:
                        obj = Vm.VectorVariable.__new__(Vm.VectorVariable)
                        obj.variables = vs
                        obj._result_memo = collections.OrderedDict()
                    return obj.at(g["P"], datetime_("q"), **kw)

                def post(V, p):
                    cx, g = p.ctx, p.ctx.ghost
                    tag = f"{f'vector of {vector}' if vector else 'variable'}{' masked' if masked else ''}, {form}, {k} columns, {n or 'any number of'} points"
                    if form == "none":
                        V.prove(f"{tag}: refused", p.outcome == "raise" and isinstance(p.value, ValueError))
                        return
                    if p.outcome == "raise":
                        V.prove(f"{tag}: no exception", False)
                        return
                    r = p.value
                    q = cx.fresh_index(g["n"], "q").e
                    V.prove(f"{tag}: one row for each point", And(len(r.sshape) == 2, zi(r.sshape[0]) == g["n"], zi(r.sshape[1]) == max(1, vector)))
                    cx.saturate()
                    x, y = g["at"](q, 0), g["at"](q, 1)
                    x, y = (z3.ToReal(a.e) if a.kind == "i" else a.e for a in (x, y))
                    for j, (F, O) in enumerate(g["fs"]):
                        v = r.at(q, j)
                        m = r.mat(q, j) if masked else z3.BoolVal(False)
                        if masked:
                            V.prove(f"{tag}: component {j} masked", m == O(x, y))
                        V.prove(f"{tag}: component {j}", implies(Not(m), v.e == F(z3.IntVal(0), x, y)))
                    V.cover(f"{tag}: reached")
                V.verify(run, post, want_return=form != "none")


def _grid(F, O, masked):
    from pyvc.arr import SMa, new
    from pyvc.core import Sym

    class G:
        def interpolate_var_to_points(self, points, variable, location=None, slices=None, **kw):
            rp = points.reader()
            n = points.sshape[0]

            def co(q, c):
                a = rp((q, c))
                return z3.ToReal(a.e) if a.kind == "i" else a.e
            v = new((n,), "f", lambda q: Sym("f", F(z3.IntVal(0), co(q[0], 0), co(q[0], 1))))
            return SMa(v, new((n,), "b", lambda q: Sym("b", O(co(q[0], 0), co(q[0], 1))))) if masked else v
    return G()


CONTRACTS = [contract_reorganize, contract_align, contract_at]
