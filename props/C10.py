"""C10: rectangular grids: cell lookup and bilinear interpolation."""
import numpy as np
import z3

from pyvc.verify import run_case

ID = "C10"
BOUNDED_FUNCTIONS = ["Grid_R.interpolate_var_to_points with the real scipy interpolator (also netCDF data, Variable.at)",
                     "Grid_R.locate_faces on real arrays and lists"]


# ------------------------------------------------------------------------------------------------ oracle
class _Data:
    """array with the dimension names of a netCDF variable"""

    def __init__(self, a, dims):
        self.a, self.dimensions, self.shape = a, dims, a.shape

    def __getitem__(self, i):
        return self.a[i]


def _bil(lon, lat, v, x, y):
    """bilinear value (v indexed [lat, lon]) by direct search, None outside the closed extents"""
    def loc(ax, p):
        for i in range(len(ax) - 1):
            if min(ax[i], ax[i + 1]) <= p <= max(ax[i], ax[i + 1]):
                return i, (p - ax[i]) / (ax[i + 1] - ax[i])
        return None
    a, b = loc(lat, y), loc(lon, x)
    if a is None or b is None:
        return None
    (i, t), (j, u) = a, b
    return (v[i, j] * (1 - t) * (1 - u) + v[i + 1, j] * t * (1 - u) + v[i, j + 1] * (1 - t) * u + v[i + 1, j + 1] * t * u)


class _Named(np.ndarray):
    pass


def oracle_locate(case):
    import numpy as np
    from gridded.grids import Grid_R
    lon, lat, P = (np.asarray(case[k], dtype=float) for k in ("lon", "lat", "P"))
    P = P.reshape(-1, 2)
    conv = (lambda a: a.tolist()) if case.get("lists") else (lambda a: a.copy())
    g = Grid_R(node_lon=conv(lon), node_lat=conv(lat))
    for w in case.get("warm", ()):
        g.locate_faces(np.asarray(w))
    arg = conv(P)
    one = case.get("one")
    r = np.asarray(g.locate_faces(arg[0] if one else arg))
    if r.shape != ((2,) if one else (len(P), 2)):
        return f"locate_faces returned shape {r.shape}"
    if not np.array_equal(np.asarray(arg), P):
        return "locate_faces modified its points"
    if not (np.array_equal(g.node_lon, lon) and np.array_equal(g.node_lat, lat)):
        return "locate_faces modified the grid"
    r = r.reshape(-1, 2)
    for (x, y), ij in zip(P if not one else P[:1], r):
        i, j = int(ij[0]), int(ij[1])
        out = not (lon.min() <= x <= lon.max() and lat.min() <= y <= lat.max())
        inn = lon.min() < x < lon.max() and lat.min() < y < lat.max()
        if (i, j) == (-1, -1):
            if inn:
                return f"({x}, {y}) lies inside the grid but was not located"
            continue
        if out:
            return f"({x}, {y}) lies outside the grid but was located in {(i, j)}"
        for ax, k, p in ((lon, i, x), (lat, j, y)):
            if not (0 <= k < len(ax) - 1 and min(ax[k], ax[k + 1]) <= p <= max(ax[k], ax[k + 1])):
                return f"({x}, {y}) is not in cell {(i, j)}"
    return None


def oracle_interp(case):
    import warnings
    import numpy as np
    from gridded.grids import Grid_R
    lon, lat, P = (np.asarray(case[k], dtype=float) for k in ("lon", "lat", "P"))
    P = P.reshape(-1, 2)
    v = np.asarray(case["v"], dtype=float)      # (..., lat, lon)
    m = np.asarray(case["mask"], dtype=bool) if case.get("mask") is not None else None
    S = case.get("slices")
    S = tuple(S) if isinstance(S, list) else S
    shared = case.get("shared")
    la = lon if shared else lat
    lo = lon
    g = Grid_R(node_lon=lo, node_lat=la)
    if case.get("names"):
        g.dimensions = list(case["names"])
    dims = tuple(g.dimensions)
    full = np.ma.array(v, mask=m) if m is not None else v
    if m is not None:
        full.data[m] = 1e30
    sw = case["swap"]
    raw = np.swapaxes(full, -1, -2) if sw else full
    d = dims[::-1] if sw else dims
    lead = tuple("tz"[:raw.ndim - 2])
    ds = None
    if case.get("nc"):
        import netCDF4 as nc
        ds = nc.Dataset("inmem_c10.nc", "w", diskless=True, persist=False)
        for nme, k in zip(lead + d, raw.shape):
            ds.createDimension(nme, k)
        data = ds.createVariable("v", "f8", lead + d, fill_value=1e30)
        data[:] = raw
    elif case["dims"]:
        data = _Data(raw.copy(), lead + d)
    else:
        data = raw.copy()
    keep = np.ma.filled(data[...], -7.0).copy()
    arg = P.copy()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            one = case.get("one")
            try:
                for w in case.get("warm", ()):
                    g.interpolate_var_to_points(np.asarray(w), data, slices=S)
                if case.get("other"):       # other data of the same shape on the same grid, equal at the corners
                    b = np.ma.filled(data[...], 0.0).copy()
                    mid = (slice(None),) * (b.ndim - 2) + (slice(1, None), slice(0, -1))
                    b[mid] = b[mid] * 2 + 1
                    g.interpolate_var_to_points(arg, _Data(b, data.dimensions) if hasattr(data, "dimensions") else b, slices=S)
                r = g.interpolate_var_to_points(arg[0] if one else arg, data, slices=S)
            except ValueError:
                if not case["dims"] and not case.get("nc") and len(lon) == len(la):
                    return None       # a square array without dimension names cannot be oriented
                raise
        if not np.array_equal(arg, P):
            return "interpolation modified its points"
        if not np.array_equal(np.ma.filled(data[...], -7.0), keep):
            return "interpolation modified the data"
    finally:
        if ds is not None:
            ds.close()
    if not case["dims"] and not case.get("nc") and len(lon) == len(la):
        return "a square array without dimension names was accepted: its orientation is a guess"
    q = full if S is None else full[S]
    q = np.ma.filled(q, 0.0)
    r = np.asarray(r)
    if r.shape != (() if one else (len(P),)):
        return f"result shape {r.shape}"
    for (x, y), got in zip(P, np.atleast_1d(r)):
        e = _bil(lo, la, q, x, y)
        e = 0.0 if e is None else e
        if not abs(got - e) <= 1e-9 * max(1.0, np.abs(q).max()):
            return f"value {got} at ({x}, {y}), expected {e}"
    return None


def oracle_variable(case):
    """Variable.at on a rectangular grid: linear in time, bilinear in space, zero outside"""
    import datetime as dt
    import numpy as np
    from gridded.grids import Grid_R
    from gridded.time import Time
    from gridded.variable import Variable
    lon, lat, P = (np.asarray(case[k], dtype=float) for k in ("lon", "lat", "P"))
    v = np.asarray(case["v"], dtype=float)
    t0 = dt.datetime(2000, 1, 1)
    ts = [t0 + dt.timedelta(hours=h) for h in case["hours"]]
    g = Grid_R(node_lon=lon, node_lat=lat)
    data = v
    if case["dims"]:
        data = v.view(_Named)
        data.dimensions = ("t", "lat", "lon")
    var = Variable(name="v", data=data, grid=g, time=Time(ts))
    for w, f in case["warm"]:
        var.at(np.asarray(w), ts[0] + (ts[-1] - ts[0]) * f)
    tm = ts[0] + (ts[-1] - ts[0]) * case["frac"]
    r = np.asarray(var.at(P.copy(), tm))
    if r.shape != (len(P), 1):
        return f"result shape {r.shape}"
    s = (tm - t0).total_seconds() / 3600
    w = [np.interp(s, case["hours"], np.eye(len(ts))[k]) for k in range(len(ts))]
    q = np.tensordot(w, v, 1)
    for (x, y), got in zip(P, r[:, 0]):
        e = _bil(lon, lat, q, x, y)
        e = 0.0 if e is None else e
        if not abs(got - e) <= 1e-8 * max(1.0, np.abs(v).max()):
            return f"value {got} at ({x}, {y}), {tm}, expected {e}"
    return None


def _axis_case(rng, n):
    import numpy as np
    if rng.random() < .3:       # evenly spaced, or nearly so
        a = rng.uniform(-50, 50) + np.cumsum([rng.choice([1, 1, 1.0001, .99, 1.02]) for _ in range(n)]) * rng.choice([.1, 1.0])
        return (a[::-1] if rng.random() < .4 else a).tolist()
    a = np.cumsum([rng.uniform(-50, 50)] + [rng.choice([.1, 1.0, 3.0]) * rng.uniform(.5, 1.5) for _ in range(n - 1)])
    return (a[::-1] if rng.random() < .4 else a).tolist()


def _points(rng, lon, lat, n):
    def one(ax):
        lo, hi = min(ax), max(ax)
        s = rng.random()
        if s < .5:
            return rng.uniform(lo, hi)
        if s < .6:
            return rng.choice(ax) + rng.choice([1, -1]) * rng.choice([1e-9, 1e-6, 1e-3]) * (hi - lo)
        if s < .75:
            return rng.choice(ax)
        if s < .8:
            return rng.choice([lo, hi])
        return rng.choice([lo - 1e-6, hi + 1e-6, lo - rng.uniform(0, 9), hi + rng.uniform(0, 9)])
    return [[one(lon), one(lat)] for _ in range(n)]


def bounded(B):
    from . import common
    rng = B.rng
    for c in range(B.n(400, 4000)):
        lon, lat = _axis_case(rng, rng.choice([2, 3, 5, 9])), _axis_case(rng, rng.choice([2, 3, 4, 8]))
        P = _points(rng, lon, lat, rng.choice([1, 2, 7]))
        case = dict(lon=lon, lat=lat, P=P, one=rng.random() < .2, lists=rng.random() < .3,
                    warm=[w.tolist() for w in common.earlier(rng.choice(common.WARM), P)])
        B.case("locate", oracle_locate, case)
    for c in range(B.n(500, 5000)):
        lon, lat = _axis_case(rng, rng.choice([2, 3, 4, 6])), _axis_case(rng, rng.choice([2, 3, 4, 5]))
        shared = rng.random() < .1
        if shared:
            lat = lon
        K, T = rng.choice([1, 2]), rng.choice([1, 3])
        nd = rng.choice([2, 3, 4])
        shape = ((T, K)[:nd - 2]) + (len(lat), len(lon))
        rs = B.nprng()
        v = rs.uniform(-10, 10, shape)
        mask = (rs.uniform(size=shape) < .3).tolist() if rng.random() < .4 else None
        S = tuple(rng.randrange(k) for k in shape[:nd - 2]) if nd > 2 else rng.choice([None, ()])
        P = _points(rng, lon, lat, rng.choice([1, 2, 7]))
        dims = rng.random() < .6 or shared
        case = dict(lon=lon, lat=lat, P=P, v=v.tolist(), mask=mask, slices=S, swap=rng.random() < .5, dims=dims, shared=shared,
                    names=rng.choice([None, ["y", "x"]]), nc=dims and rng.random() < .2, one=rng.random() < .2, other=rng.random() < .3,
                    warm=[w.tolist() for w in common.earlier(rng.choice(common.WARM), P)])
        B.case("interpolate", oracle_interp, case)
    for c in range(B.n(150, 1500)):
        lon, lat = _axis_case(rng, rng.choice([2, 3, 5])), _axis_case(rng, rng.choice([4, 6]))
        hours = sorted(rng.sample(range(20), rng.choice([2, 3])))
        v = B.nprng().uniform(-10, 10, (len(hours), len(lat), len(lon)))
        P = _points(rng, lon, lat, rng.choice([1, 2, 7]))
        case = dict(lon=lon, lat=lat, P=P, v=v.tolist(), hours=hours, frac=rng.choice([0, 1, rng.random()]),
                    dims=rng.random() < .5,
                    warm=[(w.tolist(), rng.random()) for w in common.earlier(rng.choice(common.WARM), P)])
        if len(lon) == len(lat):
            case["dims"] = True
        B.case("variable", oracle_variable, case)


# ------------------------------------------------------------------------------------------------ contracts
def _grid(V, cx, asc_lon, asc_lat, square=None):
    from pyvc.arr import ascending, descending, sym_array
    from pyvc.core import And
    from pyvc.verify import dim
    G = V.mod("gridded.grids")
    NX = dim("NX", 2)
    NY = NX if square else dim("NY", 2)
    if square is False:
        cx.fact(NX != NY)
    lon = sym_array("lon", (NX,), "f", axioms=[ascending() if asc_lon else descending()])
    lat = sym_array("lat", (NY,), "f", axioms=[ascending() if asc_lat else descending()])
    g = G.Grid_R.__new__(G.Grid_R)
    g.node_lon, g.node_lat = lon, lat
    g.dimensions = ["lat", "lon"]
    cx.ghost.update(NX=NX, NY=NY, lon=lon, lat=lat)
    return g


def contract_locate(V):
    """locate_faces: cell indices exactly when the point is inside the extents; the cell contains the point; (-1, -1) outside;
    any number of points, ascending or descending axes"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, Or, zi
    from pyvc.verify import dim, implies
    V.functions = ["Grid_R.locate_faces"]
    for al in (True, False):
        for bl in (True, False):
            for mode in ("many", "one"):
                def run(cx):
                    g = _grid(V, cx, al, bl)
                    n = 1 if mode == "one" else dim("n", 1)
                    P = sym_array("P", (n, 2), "f")
                    cx.ghost.update(P=P, n=n)
                    return g.locate_faces(P[0] if mode == "one" else P)

                def replay(M, cx):
                    q = cx.ghost
                    lon, lat = M.array(q["lon"]), M.array(q["lat"])
                    return run_case(oracle_locate, dict(lon=lon.tolist(), lat=lat.tolist(), P=M.array(q["P"]).tolist(),
                                                        one=mode == "one"))

                def post(V, p):
                    cx, q = p.ctx, p.ctx.ghost
                    tag = f"asc={al},{bl},{mode}"
                    if p.outcome == "raise":
                        V.prove(f"{tag}: no exception", False)
                        return
                    r = p.value
                    if mode == "one":
                        V.prove(f"{tag}: one pair of indices", And(len(r.sshape) == 1, zi(r.sshape[0]) == 2))
                        k = z3.IntVal(0)
                        i, j = r.at(0).e, r.at(1).e
                    else:
                        V.prove(f"{tag}: a pair of indices per point",
                                And(len(r.sshape) == 2, zi(r.sshape[0]) == q["n"], zi(r.sshape[1]) == 2))
                        k = cx.fresh_index(q["n"], "k").e
                        i, j = r.at(k, 0).e, r.at(k, 1).e
                    x, y = q["P"].F(k, z3.IntVal(0)), q["P"].F(k, z3.IntVal(1))
                    lon, lat, NX, NY = q["lon"], q["lat"], q["NX"], q["NY"]
                    ext = []
                    for ax, n, p_, asc in ((lon, NX, x, al), (lat, NY, y, bl)):
                        a, b = ax.at(0).e, ax.at(zi(n) - 1).e
                        ext.append((a, b, p_) if asc else (b, a, p_))
                    inside = And(*[And(a < p_, p_ < b) for a, b, p_ in ext])
                    outside = Or(*[Or(p_ < a, p_ > b) for a, b, p_ in ext])
                    V.prove(f"{tag}: both or none", (i == -1) == (j == -1))
                    V.prove(f"{tag}: inside is located", implies(inside, And(i >= 0, j >= 0)))
                    V.prove(f"{tag}: outside is -1", implies(outside, And(i == -1, j == -1)))
                    for nm, c, ax, n, p_, asc in (("longitude", i, lon, NX, x, al), ("latitude", j, lat, NY, y, bl)):
                        lo, hi = (ax.at(c).e, ax.at(c + 1).e) if asc else (ax.at(c + 1).e, ax.at(c).e)
                        V.prove(f"{tag}: {nm} cell exists and contains the point",
                                implies(c != -1, And(c >= 0, c < zi(n) - 1, lo <= p_, p_ <= hi)))
                    V.prove(f"{tag}: points unchanged", q["P"].at(k, 0).e == x)
                    V.cover(f"{tag}: located", i >= 0)
                    V.cover(f"{tag}: outside", i == -1)
                V.verify(run, post, replay)


class _Dims:
    """array with dimension names"""

    def __init__(self, a, dims):
        self.a, self.dimensions = a, dims

    @property
    def shape(self):
        return self.a.shape

    def __getitem__(self, i):
        return self.a[i]


def contract_interpolate(V):
    """interpolate_var_to_points: the bilinear interpolant of the values on the node lattice -- latitude with the latitude axis,
    longitude with the longitude axis, whichever order the data have -- and zero outside; masked data count as zero"""
    from pyvc.arr import SMa, new, sym_array
    from pyvc.core import And, Not, Or, Sym, Unsupported, ctx, ite, lift, zi
    from pyvc.verify import dim, implies
    V.functions = ["Grid_R.interpolate_var_to_points", "Grid_R.lonlat_to_yx"]
    V.assumes = ["scipy RegularGridInterpolator(axes, values, linear, bounds_error=False, fill_value=f): values must fit the axes; at "
                 "points within the axes the multilinear interpolant of the values in the cell that contains the point, f elsewhere"]
    R, I = z3.RealSort(), z3.IntSort()

    def stub(cx):
        q = cx.ghost
        L = {k: (z3.Function("cell_" + k, R, I), z3.Function("weight_" + k, R, R)) for k in ("lon", "lat")}
        q["L"] = L

        def same(a, k):
            b, n = q[k], q["NX" if k == "lon" else "NY"]
            if a is b:
                return True
            i = cx.fresh("ax", "i").e
            return len(a.sshape) == 1 and cx.provable(zi(a.sshape[0]) == zi(n)) and \
                cx.provable(z3.Implies(And(i >= 0, i < zi(n)), a.at(i).e == b.F(i)))

        class RGI:
            def __init__(self, axes, values, method="linear", bounds_error=True, fill_value=float("nan"), **kw):
                if kw or method != "linear" or bounds_error:
                    raise Unsupported("RegularGridInterpolator options")
                if len(axes) != 2 or len(values.sshape) != 2:
                    raise ValueError("There are not enough point arrays for the values")
                for a, s in zip(axes, values.sshape):
                    if not cx.provable(zi(a.sshape[0]) == zi(s)):
                        raise ValueError("There are points and values of different lengths")
                self.k = [next((k for k in ("lon", "lat") if same(a, k)), None) for a in axes]
                if None in self.k:
                    raise Unsupported("axes of the interpolator are not the node coordinates")
                if isinstance(values, SMa):
                    values = values.data          # scipy ignores masks
                self.v, self.fill = values.copy().reader(), lift(fill_value)

            def __call__(self, xi, method=None):
                rp = xi.copy().reader()

                def f(ix):
                    c = [rp((ix[0], 0)), rp((ix[0], 1))]
                    inn = []
                    idx, w = [], []
                    for k, p in zip(self.k, c):
                        if p.nan is not None and not z3.is_false(p.nan):
                            raise Unsupported("NaN points")
                        a, b = q[k].at(0).e, q[k].at(zi(q["NX" if k == "lon" else "NY"]) - 1).e
                        inn.append(Or(And(a <= p.e, p.e <= b), And(b <= p.e, p.e <= a)))
                        idx.append(L[k][0](p.e))
                        w.append(L[k][1](p.e))
                    val = _bilinear(self.v, idx, w)
                    return ite(And(*inn), Sym("f", val), Sym("f", self.fill.e if self.fill.kind == "f" else z3.ToReal(self.fill.e)))
                return new((xi.sshape[0],), "f", f)
        return RGI

    def _bilinear(v, idx, w):
        z = lambda e: (e.e if isinstance(e, Sym) else e)
        (i, j), (t, u) = idx, w
        return (z(v((i, j))) * (1 - t) * (1 - u) + z(v((i + 1, j))) * t * (1 - u) +
                z(v((i, j + 1))) * (1 - t) * u + z(v((i + 1, j + 1))) * t * u)

    modes = [(swap, dims, sl, ma, sq) for swap in (False, True) for dims in (False, True) for sl in ("none", "()", "t", "tz")
             for ma in (False, True) for sq in (False, True) if not (sq and not dims and sl != "none")]
    for swap, dims, sl, ma, sq in modes:
        for one in ((False, True) if sl == "none" and not ma else (False,)):
            def run(cx):
                g = _grid(V, cx, True, True, square=sq)
                q = cx.ghost
                q["RegularGridInterpolator"] = stub(cx)
                n = 1 if one else dim("n", 1)
                P = sym_array("P", (n, 2), "f")
                lead, idx = (), ()
                if sl in ("t", "tz"):
                    T = dim("T", 1)
                    t = z3.Int("t")
                    cx.fact(And(t >= 0, t < T))
                    lead, idx = (T,), (Sym("i", t),)
                    if sl == "tz":
                        K = dim("K", 1)
                        z = z3.Int("z")
                        cx.fact(And(z >= 0, z < K))
                        lead, idx = (T, K), idx + (Sym("i", z),)
                sh = (q["NX"], q["NY"]) if swap else (q["NY"], q["NX"])
                a = sym_array("v", lead + sh, "f")
                m = sym_array("m", lead + sh, "b") if ma else None
                data = SMa(a, m) if ma else a
                q.update(P=P, n=n, v=a, m=m, idx=tuple(s.e for s in idx))
                if dims:
                    data = _Dims(data, ("t", "z")[:len(lead)] + (("lon", "lat") if swap else ("lat", "lon")))
                kw = {} if sl == "none" else dict(slices=idx if sl != "()" else ())
                return g.interpolate_var_to_points(P[0] if one else P, data, **kw)

            def replay(M, cx):
                import numpy as np
                q = cx.ghost
                lon, lat = M.array(q["lon"]), M.array(q["lat"])
                v = M.array(q["v"])
                m = M.array(q["m"]) if ma else None
                if swap:
                    v = np.swapaxes(v, -1, -2)
                    m = np.swapaxes(m, -1, -2) if ma else None
                idx = tuple(int(M.val(e)) for e in q["idx"])
                S = None if sl == "none" else idx
                return run_case(oracle_interp, dict(lon=lon.tolist(), lat=lat.tolist(), P=M.array(q["P"]).tolist(), v=v.tolist(),
                                                    mask=None if m is None else m.tolist(), slices=S, swap=swap, dims=dims,
                                                    one=one))

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                tag = f"swap={swap},dims={dims},slices={sl},masked={ma},square={sq}" + (",one point" if one else "")
                if sq and not dims:
                    V.prove(f"{tag}: refused, the orientation is unknown",
                            p.outcome == "raise" and isinstance(p.value, ValueError))
                    V.cover(f"{tag}: refused")
                    return
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r = p.value
                k = z3.IntVal(0) if one else cx.fresh_index(q["n"], "k").e
                if one:
                    a = lift(r)
                else:
                    V.prove(f"{tag}: one value per point", And(len(r.sshape) == 1, zi(r.sshape[0]) == q["n"]))
                    a = r.at(k)
                x, y = q["P"].F(k, z3.IntVal(0)), q["P"].F(k, z3.IntVal(1))
                inn = []
                for ax, n, c in ((q["lon"], q["NX"], x), (q["lat"], q["NY"], y)):
                    inn.append(And(ax.at(0).e <= c, c <= ax.at(zi(n) - 1).e))
                inside = And(*inn)
                L = q["L"]

                def val(ij):
                    i, j = (e if isinstance(e, z3.ExprRef) else z3.IntVal(e) for e in ij)
                    ix = q["idx"] + ((j, i) if swap else (i, j))
                    e = q["v"].F(*ix)
                    return z3.If(q["m"].F(*ix), z3.RealVal(0), e) if ma else e
                exp = _bilinear(val, (L["lat"][0](y), L["lon"][0](x)), (L["lat"][1](y), L["lon"][1](x)))
                ok = Not(a.nan) if a.nan is not None else z3.BoolVal(True)
                V.prove(f"{tag}: bilinear interpolant inside", implies(inside, And(ok, a.e == exp)))
                V.prove(f"{tag}: zero outside", implies(Not(inside), And(ok, a.e == 0)))
                V.cover(f"{tag}: inside", inside)
                V.cover(f"{tag}: outside", Not(inside))
            V.verify(run, post, replay, want_return=not (sq and not dims))


CONTRACTS = [contract_locate, contract_interpolate]
