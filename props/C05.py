"""C05: terrain-following depth profiles."""
import z3

from pyvc.verify import run_case

ID = "C05"
BOUNDED_FUNCTIONS = ["ROMS_Depth / FVCOM_Depth profiles on real grids with real bathymetry and free surface variables",
                     "S_Depth.from_netCDF (averaging of cell-centred bathymetry and free surface to the nodes)"]


def _stretch(n, kind):
    import numpy as np
    s = np.linspace(-1, 0, n)
    if kind == 0:
        return s, s.copy()
    return s, (1 - np.cosh(kind * s)) / (np.cosh(kind) - 1)


def expected(kind, vt, s, cs, hc, h, z):
    """depth below the instantaneous surface, from the published transforms; s, cs per level; h, z per point"""
    import numpy as np
    h, z = h[:, None], z[:, None]
    if kind == "fvcom":
        return -(z + h) * s
    if vt == 1:
        z0 = hc * s + (h - hc) * cs
        elev = z0 + z * (1 + z0 / h)
    else:
        z0 = (hc * s + h * cs) / (hc + h)
        elev = z + (z + h) * z0
    return z - elev


def oracle(case):
    import datetime as dt
    import numpy as np
    import random
    from gridded.depth import FVCOM_Depth, ROMS_Depth
    from gridded.grids import Grid_S, Grid_U
    from gridded.time import Time
    from gridded.variable import Variable
    from . import common
    rng = random.Random(case["seed"])
    kind, n, L = case["kind"], case["n"], case["L"]
    t0 = dt.datetime(2001, 2, 3)
    T = Time([t0, t0 + dt.timedelta(hours=6), t0 + dt.timedelta(hours=10)])
    ah, bh, ch = case["h"]
    hx = lambda x, y: ah + bh * x + ch * y
    zc = case["zeta"]          # 3 x (a,b,c)
    zx = lambda i, x, y: zc[i][0] + zc[i][1] * x + zc[i][2] * y
    wrap = np.ma.array if case["ma"] else np.array
    if kind == "roms":
        lon, lat, rect = common.block(rng, 5, 4, rot=case["rot"])
        g = Grid_S(node_lon=lon, node_lat=lat)
        u = np.array([rng.uniform(.01, 3.99) for _ in range(n)])
        v = np.array([rng.uniform(.01, 2.99) for _ in range(n)])
        A, off, gx, gy = rect
        P = np.column_stack([u, v]) @ A.T + off
        H = wrap(hx(lon, lat))
        Z = wrap([zx(i, lon, lat) for i in range(3)])
    else:
        nodes, faces, rect = common.tri_mesh(rng, 4, 4, rot=case["rot"])
        g = Grid_U(nodes=nodes, faces=faces)
        P = common.inside(rng, rect, n)
        H = wrap(hx(nodes[:, 0], nodes[:, 1]))
        Z = wrap([zx(i, nodes[:, 0], nodes[:, 1]) for i in range(3)])
    off = np.zeros(n, dtype=bool)
    if case["off"] and kind == "roms":
        for k in range(n):
            if rng.random() < .3:
                off[k] = True
                P[k] += 500.0
    h = Variable(name="h", data=H, grid=g, time=None)
    zeta = Variable.constant(0) if case["flat"] else Variable(name="zeta", data=Z, grid=g, time=T)
    s, cs = _stretch(L, case["stretch"])
    sr, csr = (s[1:] + s[:-1]) / 2, (cs[1:] + cs[:-1]) / 2
    if kind == "roms":
        terms = dict(s_w=wrap(s), s_rho=wrap(sr), Cs_w=wrap(cs), Cs_r=wrap(csr), hc=case["hc"])
        D = ROMS_Depth(grid=g, bathymetry=h, zeta=zeta, terms=terms, vtransform=case["vt"], time=T)
    else:
        # generalised sigma: a different (monotone) spacing at every node, affine in x so that interpolation is exact
        w = np.clip(case["gen"], 0, .3)
        f = nodes[:, 0] / (np.abs(nodes[:, 0]).max() + 1)
        sig = lambda q, f: -q - w * f * (q * (1 - q))
        q = -s[::-1]
        ql = (q[1:] + q[:-1]) / 2
        terms = dict(siglev=wrap(sig(q[:, None], f[None, :])), siglay=wrap(sig(ql[:, None], f[None, :])))
        D = FVCOM_Depth(grid=g, bathymetry=h, zeta=zeta, terms=terms, time=T)
    keep = {k: np.array(v) for k, v in terms.items()}
    frac = case["frac"]
    tm = t0 + dt.timedelta(seconds=int(36000 * frac))
    sec = (tm - t0).total_seconds()
    z = np.zeros(n)
    if not case["flat"]:
        i0, a = (0, sec / 21600) if sec <= 21600 else (1, (sec - 21600) / 14400)
        z = zx(i0, P[:, 0], P[:, 1]) * (1 - a) + zx(i0 + 1, P[:, 0], P[:, 1]) * a
    hh = hx(P[:, 0], P[:, 1])
    pts = np.column_stack([P, np.zeros(n)])
    p0 = pts.copy()
    shape = {"lev": (L,), "lay": (L - 1,), "none": None}[case["shape"]]
    for pw in common.earlier(case["warm"], pts):
        D.get_depth_profile(pw, tm, data_shape=shape)
        D.get_s_coordinate(pw, tm, data_shape=shape)
    reps = 2 if case["twice"] else 1
    for _ in range(reps):
        prof = D.get_depth_profile(pts, tm, data_shape=shape)
        sco = D.get_s_coordinate(pts, tm, data_shape=shape)
    if not np.array_equal(p0, pts):
        return "query modified its points"
    for k, v in terms.items():
        if not np.array_equal(np.array(v), keep[k]):
            return f"query modified term {k}"
    lay = case["shape"] == "lay"
    if kind == "roms":
        e = expected(kind, case["vt"], sr if lay else s, csr if lay else cs, case["hc"], hh, z)
    else:
        fp = P[:, 0] / (np.abs(nodes[:, 0]).max() + 1)
        e = expected(kind, 0, sig((ql if lay else q)[None, :], fp[:, None]), None, None, hh, z)
    M = L - 1 if lay else L
    if prof.shape != (n, M):
        return f"profile shape {prof.shape}, expected {(n, M)}"
    pm = np.ma.getmaskarray(prof)
    if not (pm == off[:, None]).all():
        return f"profile mask {pm.tolist()} but off-grid {off.tolist()}"
    tol = 1e-7 * max(1, np.abs(hh).max())
    on = ~off
    pd, sd = np.ma.getdata(prof)[on], np.ma.getdata(sco)[on]
    if on.any():
        if np.abs(pd - e[on]).max() > tol:
            k = np.argmax(np.abs(pd - e[on]).max(axis=1))
            return f"profile {pd[k].tolist()} expected {e[on][k].tolist()} (h={hh[on][k]}, zeta={z[on][k]})"
        if np.abs(sd - (e[on] - z[on][:, None])).max() > tol:
            return f"s-coordinate {sd.tolist()} expected {(e[on] - z[on][:, None]).tolist()}"
        if not lay:
            su, bo = (0, -1) if kind == "fvcom" else (-1, 0)
            if np.abs(pd[:, su]).max() > tol or np.abs(pd[:, bo] - (hh + z)[on]).max() > tol:
                return "surface level is not at depth 0 or bottom level not at the water depth"
    return None


def oracle_nc(case):
    """ROMS file: cell-centred bathymetry and free surface are averaged to the grid nodes"""
    import datetime as dt
    import random
    import numpy as np
    import netCDF4 as nc
    from gridded.depth import ROMS_Depth
    from . import common
    rng = random.Random(case["seed"])
    nx, ny, L = 5, 4, 4
    lon, lat, rect = common.block(rng, nx, ny)
    clon, clat = np.meshgrid(np.arange(nx + 1) - .5, np.arange(ny + 1) - .5)
    ds = nc.Dataset("inmem_c05.nc", "w", diskless=True, persist=False)
    try:
        for d, v in dict(xi_psi=nx, eta_psi=ny, xi_rho=nx + 1, eta_rho=ny + 1, s_w=L, s_rho=L - 1, time=2).items():
            ds.createDimension(d, v)

        def var(name, dims, val, **at):
            v = ds.createVariable(name, "f8", dims)
            v[:] = val
            for a, b in at.items():
                setattr(v, a, b)
        var("lon_psi", ("eta_psi", "xi_psi"), lon)
        var("lat_psi", ("eta_psi", "xi_psi"), lat)
        var("lon_rho", ("eta_rho", "xi_rho"), clon)
        var("lat_rho", ("eta_rho", "xi_rho"), clat)
        H = np.array([[rng.uniform(10, 90) for _ in range(nx + 1)] for _ in range(ny + 1)])
        Z = np.array([[[rng.uniform(-1, 1) for _ in range(nx + 1)] for _ in range(ny + 1)] for _ in range(2)])
        var("h", ("eta_rho", "xi_rho"), H)
        if case["zeta"]:
            var("zeta", ("time", "eta_rho", "xi_rho"), Z)
            ds["zeta"].time = "time"
        else:
            Z = Z * 0
        var("time", ("time",), [0, 3600.0], units="seconds since 2000-01-01 00:00:00")
        s, cs = _stretch(L, 2.0)
        var("s_w", ("s_w",), s)
        var("Cs_w", ("s_w",), cs)
        var("s_rho", ("s_rho",), (s[1:] + s[:-1]) / 2)
        var("Cs_r", ("s_rho",), (cs[1:] + cs[:-1]) / 2)
        v = ds.createVariable("hc", "f8", ())
        v[...] = 7.0
        D = ROMS_Depth.from_netCDF(dataset=ds)
        av = lambda a: (a[..., :-1, :-1] + a[..., 1:, :-1] + a[..., :-1, 1:] + a[..., 1:, 1:]) / 4
        Hn, Zn = av(H), av(Z)
        if D.num_levels != L or D.num_layers != L - 1 or D.surface_index != L - 1 or D.bottom_index != 0:
            return "level counts or boundary indices wrong"
        # at (just inside) interior nodes the node value itself is used
        ks = [(j, i) for j in range(ny - 1) for i in range(nx - 1)]
        pts = np.array([[lon[j, i] + 1e-9, lat[j, i] + 1e-9, 0] for j, i in ks])
        for tm, w in ((0, 0.0), (900, .25), (3600, 1.0)):
            prof = D.get_depth_profile(pts, dt.datetime(2000, 1, 1) + dt.timedelta(seconds=tm))
            hh = np.array([Hn[k] for k in ks])
            z = np.array([Zn[(0,) + k] * (1 - w) + Zn[(1,) + k] * w for k in ks])
            e = expected("roms", 2, s, cs, 7.0, hh, z)
            if prof.shape != e.shape or np.abs(prof - e).max() > 1e-5:
                return f"profiles from file differ by {np.abs(prof - e).max()} at time {tm}"
    finally:
        ds.close()
    return None


def bounded(B):
    from . import common
    rng = B.rng
    for c in range(B.n(260, 2500)):
        kind = rng.choice(["roms", "fvcom"])
        L = rng.choice([2, 3, 5, 9])
        hc = rng.choice([0.0, 5.0, 20.0])
        case = dict(seed=rng.getrandbits(32), kind=kind, n=rng.choice([1, 2, 5, 12]), L=L, hc=hc, vt=rng.choice([1, 2]),
                    h=(rng.uniform(40, 90), rng.uniform(-3, 3), rng.uniform(-3, 3)),
                    zeta=[(rng.uniform(-2, 2), rng.uniform(-.2, .2), rng.uniform(-.2, .2)) for _ in range(3)],
                    ma=rng.random() < .5, rot=rng.choice([0, .4, 2.0]), off=rng.random() < .5, flat=rng.random() < .2,
                    stretch=rng.choice([0, 1.0, 4.0]), gen=rng.choice([0, .2, .3]), frac=rng.choice([0, 1, .3, .6, .9]),
                    shape=rng.choice(["lev", "lay", "none"]), twice=rng.random() < .3, warm=rng.choice(common.WARM))
        if rng.random() < .3:       # free surface beyond the water depth; dry bathymetry (only FVCOM does not divide by it)
            case["zeta"] = [tuple(60 * v for v in z) for z in case["zeta"]]
            if kind == "fvcom":
                case["h"] = (rng.uniform(-6, 9), rng.uniform(-1, 1), rng.uniform(-1, 1))
        B.case("profiles", oracle, case, nontrivial=case["n"] > 1)
    for c in range(B.n(6, 60)):
        B.case("roms-file", oracle_nc, dict(seed=rng.getrandbits(32), zeta=c % 3 > 0))


# ------------------------------------------------------------------------------------------------ contracts
class _At:
    """contract of Variable.at at fixed time: one value per point, (n, 1), a function of that point's position only, masked
    off the grid"""

    def __init__(self, name, masked=True, positive=False):
        R = z3.RealSort()
        self.F, self.masked, self.positive, self.calls = z3.Function(name, R, R, R), masked, positive, []
        self.O = z3.Function("OFF", R, R, z3.BoolSort())

    def at(self, points, time, units=None, extrapolate=False, lons=None, lats=None, unmask=False, **k):
        from pyvc.arr import SMa, new
        from pyvc.core import Sym, ctx
        self.calls.append(time)
        rd = points.copy().reader()
        n = points.sshape[0]

        def val(i):
            v = self.F(rd((i[0], 0)).e, rd((i[0], 1)).e)
            if self.positive:
                ctx().fact(v > 0)
            return Sym("f", v)
        d = new((n, 1), "f", val)
        if not self.masked or unmask:
            return d
        return SMa(d, new((n, 1), "b", lambda i: Sym("b", self.O(rd((i[0], 0)).e, rd((i[0], 1)).e))))


def _setup(cx, D, masked=True):
    from pyvc.arr import sym_array
    from pyvc.verify import dim
    n, n0 = dim("n", 1), dim("n0", 1)
    P, P0 = sym_array("P", (n, 3), "f"), sym_array("P0", (n0, 3), "f")
    D.bathymetry, D.zeta = _At("H", masked, True), _At("ZETA", masked)
    cx.ghost.update(n=n, P=P.reader(), D=D)
    return P, P0


def _point(cx, g, k):
    """water depth, free surface, off-grid flag of point k"""
    x, y = g["P"]((k, 0)).e, g["P"]((k, 1)).e
    D = g["D"]
    h = D.bathymetry.F(x, y)
    cx.fact(h > 0)
    return h, D.zeta.F(x, y), D.zeta.O(x, y)


def _level_array(name, m, lo, hi):
    """strictly increasing from lo to hi exactly (levels) or strictly inside (layers)"""
    from pyvc.arr import ascending, sym_array

    def ends(raw, i):
        (x,) = i
        r = raw(i).e
        if lo is None:
            return z3.And(r > -1, r < 0)
        return z3.And(z3.Implies(x == 0, r == -1), z3.Implies(x == m - 1, r == 0), r >= -1, r <= 0)
    return sym_array(name, (m,), "f", axioms=[ascending(), (1, ends)])


def _roms(V, vt, lay):
    from pyvc.core import And, Not, Sym, zi
    from pyvc.verify import dim, implies, real
    V.functions = ["S_Depth.get_depth_profile", "ROMS_Depth.get_s_coordinate", "ROMS_Depth.num_levels",
                   "ROMS_Depth.num_layers"]
    V.assumes = ["Variable.at of bathymetry and free surface: one value per point, shape (n,1), masked off the grid (C06/C07)",
                 "bathymetry positive; s and Cs strictly increasing from -1 to 0 on levels; hc >= 0"]
    Dm = V.mod("gridded.depth")
    for how in (("lay", "lay again") if lay else ("lev", "none", "lev again")):
        def run(cx):
            m = dim("m", 2)
            D = Dm.ROMS_Depth.__new__(Dm.ROMS_Depth)
            P, P0 = _setup(cx, D)
            D.s_w, D.Cs_w = _level_array("s_w", m, -1, 0), _level_array("Cs_w", m, -1, 0)
            D.s_rho, D.Cs_r = _level_array("s_rho", m - 1, None, None), _level_array("Cs_r", m - 1, None, None)
            hc = real("hc")
            cx.fact(hc.e >= 0)
            D.hc, D.vtransform = hc, vt
            cx.ghost.update(m=m, hc=hc.e, s=(D.s_rho if lay else D.s_w).reader(), C=(D.Cs_r if lay else D.Cs_w).reader())
            shape = {"lev": (Sym("i", m),), "lay": (Sym("i", m - 1),), "none": None}[how[:4].strip()]
            if how.endswith("again"):
                # an earlier profile, of any other points at another time: it has no influence
                D.get_depth_profile(P0, "T0", data_shape=shape)
            return D.get_depth_profile(P, "T", data_shape=shape)

        def post(V, p):
            cx, g = p.ctx, p.ctx.ghost
            tag = f"vtransform {vt}, {how}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r = p.value
            n, m = g["n"], g["m"]
            M = m - 1 if lay else m
            V.prove(f"{tag}: one row per point, one column per {'layer' if lay else 'level'}",
                    And(len(r.sshape) == 2, zi(r.sshape[0]) == n, zi(r.sshape[1]) == M))
            k = cx.fresh_index(n, "k").e
            j = cx.fresh_index(M, "j").e
            h, z, off = _point(cx, g, k)
            s, C, hc = g["s"]((j,)).e, g["C"]((j,)).e, g["hc"]
            x = r.at(k, j)
            V.prove(f"{tag}: masked exactly off the grid", r.mat(k, j) == off)
            on = Not(off)
            V.prove(f"{tag}: no NaN on the grid", implies(on, Not(x.nan) if x.nan is not None else True))
            if vt == 2:
                V.prove(f"{tag}: transform", implies(on, (hc + h) * x.e == -(z + h) * (hc * s + h * C)))
            else:
                V.prove(f"{tag}: transform", implies(on, h * x.e == -(h + z) * (hc * s + (h - hc) * C)))
            if not lay:
                V.prove(f"{tag}: surface level at depth 0", implies(And(on, j == m - 1), x.e == 0))
                V.prove(f"{tag}: bottom level at the water depth", implies(And(on, j == 0), x.e == h + z))
            # strictly decreasing depth with the level index, for a wet column
            j2 = cx.fresh_index(M, "j2").e
            x2 = r.at(k, j2)
            s2, C2 = g["s"]((j2,)).e, g["C"]((j2,)).e
            cx.saturate()
            wet = And(on, h + z > 0, j < j2, hc <= h if vt == 1 else True)
            # lemma: the transform itself is monotone, then the profile via the proved transform equations
            q, q2 = (hc * s + (h - hc) * C, hc * s2 + (h - hc) * C2) if vt == 1 else (hc * s + h * C, hc * s2 + h * C2)
            if V.prove(f"{tag}: stretching monotone", implies(wet, And(s < s2, C < C2, q < q2))):
                cx.fact(implies(wet, q < q2))
            d = h if vt == 1 else hc + h
            if V.prove(f"{tag}: columns comparable", implies(wet, And(d > 0, d * x.e == -(h + z) * q,
                                                                      d * x2.e == -(h + z) * q2))):
                # abstract the products: a > 0, b > 0, q < q2, b*x = -a*q, b*x2 = -a*q2  =>  x > x2
                a_, b_, x_, y_, q_, r_ = z3.Reals("a_ b_ x_ y_ q_ r_")
                V.prove("lemma: scaling by positive factors preserves order", z3.Implies(
                    z3.And(a_ > 0, b_ > 0, q_ < r_, b_ * x_ == -a_ * q_, b_ * y_ == -a_ * r_), x_ > y_))
                V.lemmas = getattr(V, "lemmas", 0) + 1
            V.cover(f"{tag}: wet column, two levels", wet)
            V.cover(f"{tag}: off grid", off)
            b, zt = g["D"].bathymetry, g["D"].zeta
            V.prove(f"{tag}: free surface and bathymetry at the caller's time",
                    And(len(b.calls) > 0, len(zt.calls) > 0, b.calls[-1] == "T", zt.calls[-1] == "T"))
        V.verify(run, post)


def _mk(vt, lay):
    def contract(V):
        _roms(V, vt, lay)
    contract.__name__ = f"contract_roms_v{vt}_{'layers' if lay else 'levels'}"
    contract.__doc__ = (f"ROMS depth profile (vtransform {vt}, {'layers' if lay else 'levels'}): the published transform "
                        "per point and level, 0 at the surface, h+zeta at the bottom, strictly monotone, masked off the "
                        "grid; any number of points and levels, any stretching")
    return contract


def contract_fvcom(V):
    """FVCOM depth profile: -(zeta+h)*sigma with sigma interpolated barycentrically from the nodes of the point's own
    face; 0 at the surface, h+zeta at the bottom, strictly monotone; levels or layers chosen by the data shape"""
    from pyvc.arr import SMa, new, sym_array
    from pyvc.core import And, Not, Sym, zi
    from pyvc.verify import dim, implies
    V.functions = ["S_Depth.get_depth_profile", "FVCOM_Depth.get_s_coordinate", "FVCOM_Depth.num_levels",
                   "FVCOM_Depth.num_layers"]
    V.assumes = ["UGrid.interpolate_var_to_points: barycentric weights of the three nodes of one face (C08)"]
    Dm = V.mod("gridded.depth")
    for how in ("lev", "lay", "none", "lev again"):
        lay = how == "lay"

        def run(cx):
            m, N = dim("m", 2), dim("N", 3)

            def col(raw, i, j):
                (a, x), (b, y) = i, j
                return z3.Implies(z3.And(a < b, x == y), raw((a, x)).e > raw((b, y)).e)

            def ends(raw, i):
                a, x = i
                r = raw(i).e
                return z3.And(z3.Implies(a == 0, r == 0), z3.Implies(a == m - 1, r == -1))
            D = Dm.FVCOM_Depth.__new__(Dm.FVCOM_Depth)
            D.siglev = sym_array("siglev", (m, N), "f", axioms=[(2, col), (1, ends)])
            D.siglay = sym_array("siglay", (m - 1, N), "f", axioms=[(2, col)])

            P, P0 = _setup(cx, D, False)
            R, I = z3.RealSort(), z3.IntSort()
            NODE, W = z3.Function("NODE", R, R, I, I), z3.Function("W", R, R, I, R)
            seen = []

            def weights(x, y):
                """the three nodes of the face of (x, y) and their weights"""
                ns, ws = [NODE(x, y, z3.IntVal(q)) for q in range(3)], [W(x, y, z3.IntVal(q)) for q in range(3)]
                cx.fact(And(ws[0] + ws[1] + ws[2] == 1, *[w >= 0 for w in ws], *[And(t >= 0, t < N) for t in ns]))
                return ns, ws

            class G:
                def interpolate_var_to_points(self, points, variable, location=None, **k):
                    rv, rp = variable.reader(), points.copy().reader()
                    seen.append(location)

                    def f(i):
                        kk, jj = i
                        ns, ws = weights(rp((kk, 0)).e, rp((kk, 1)).e)
                        t = None
                        for q in range(3):
                            u = Sym("f", ws[q]) * rv((ns[q], jj))
                            t = u if t is None else t + u
                        return t
                    return new((points.sshape[0], variable.sshape[1]), "f", f)
            D.grid = G()
            cx.ghost.update(m=m, weights=weights, seen=seen, S=(D.siglay if lay else D.siglev).reader())
            shape = {"lev": (Sym("i", m),), "lay": (Sym("i", m - 1),), "none": None}[how[:4].strip()]
            if how.endswith("again"):
                # an earlier profile, of any other points at another time: it has no influence
                D.get_depth_profile(P0, "T0", data_shape=shape)
            return D.get_depth_profile(P, "T", data_shape=shape)

        def post(V, p):
            cx, g = p.ctx, p.ctx.ghost
            tag = how
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r = p.value
            n, m = g["n"], g["m"]
            M = m - 1 if lay else m
            V.prove(f"{tag}: one row per point, one column per level or layer",
                    And(len(r.sshape) == 2, zi(r.sshape[0]) == n, zi(r.sshape[1]) == M))
            k, j, j2 = cx.fresh_index(n, "k").e, cx.fresh_index(M, "j").e, cx.fresh_index(M, "j2").e
            h, z, _ = _point(cx, g, k)
            ns, W = g["weights"](g["P"]((k, 0)).e, g["P"]((k, 1)).e)
            sg = [[g["S"]((jj, t)).e for t in ns] for jj in (j, j2)]
            cx.saturate()
            sig = [sum(W[q] * s[q] for q in range(3)) for s in sg]
            x, x2 = r.at(k, j), r.at(k, j2)
            V.prove(f"{tag}: no NaN", Not(x.nan) if x.nan is not None else True)
            V.prove(f"{tag}: depth = -(zeta+h)*sigma at the point", x.e == -(z + h) * sig[0])
            if not lay:
                V.prove(f"{tag}: surface level at depth 0", implies(j == 0, x.e == 0))
                V.prove(f"{tag}: bottom level at the water depth", implies(j == m - 1, x.e == h + z))
            wet = And(h + z > 0, j < j2)
            V.prove(f"{tag}: sigma decreasing at every node", implies(wet, And(*[sg[0][q] > sg[1][q] for q in range(3)])))
            V.prove(f"{tag}: columns comparable", And(x.e == -(z + h) * sig[0], x2.e == -(z + h) * sig[1]))
            w_ = z3.Reals("w0_ w1_ w2_")
            a_ = z3.Reals("a0_ a1_ a2_")
            b_ = z3.Reals("b0_ b1_ b2_")
            d_, x_, y_, sa, sb = z3.Reals("d_ x_ y_ sa_ sb_")
            sums = lambda c: w_[0] * c[0] + w_[1] * c[1] + w_[2] * c[2]
            V.prove("lemma: a convex combination of larger values is larger", z3.Implies(
                z3.And(*[w >= 0 for w in w_], w_[0] + w_[1] + w_[2] == 1, *[a > b for a, b in zip(a_, b_)]),
                sums(a_) > sums(b_)))
            V.prove("lemma: scaling by a negative factor reverses order", z3.Implies(
                z3.And(d_ > 0, sa > sb, x_ == -d_ * sa, y_ == -d_ * sb), x_ < y_))
            V.cover(f"{tag}: wet column, two levels", wet)
            V.prove(f"{tag}: sigma looked up on nodes", And(len(g["seen"]) > 0, *[loc == "node" for loc in g["seen"]]))
            b, zt = g["D"].bathymetry, g["D"].zeta
            V.prove(f"{tag}: free surface and bathymetry at the caller's time",
                    And(len(b.calls) > 0, len(zt.calls) > 0, b.calls[-1] == "T", zt.calls[-1] == "T"))
        V.verify(run, post)


CONTRACTS = [_mk(1, False), _mk(1, True), _mk(2, False), _mk(2, True), contract_fvcom]
