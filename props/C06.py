"""C06: vertical interpolation of a variable, each point on its own."""
import z3

from pyvc.verify import run_case

ID = "C06"
BOUNDED_FUNCTIONS = ["Variable.at with real L_Depth / ROMS_Depth / FVCOM_Depth, real grids, level and layer data"]


# ---------------------------------------------------------------- unit oracle: real Variable code, table-driven collaborators
class _Grid:
    """horizontal interpolation given as a table: point k is found by its longitude"""

    def __init__(self, table, off, column, ma):
        self.table, self.off, self.column, self.ma = table, off, column, ma

    def infer_location(self, d):
        return "node"

    def interpolate_var_to_points(self, points, variable, location=None, slices=None, **kw):
        import numpy as np
        ks = np.asarray(points)[:, 0].astype(int)
        s = [q for q in slices]
        lev = int(s[-1]) if len(s) else 0
        if not -self.table.shape[0] <= lev < self.table.shape[0]:
            raise IndexError("level out of range")
        v = self.table[lev][ks]
        m = self.off[ks]
        if self.column:
            v, m = v.reshape(-1, 1), m.reshape(-1, 1)
        return np.ma.MaskedArray(v.copy(), mask=m.copy()) if self.ma else v.copy()


class _Depth:
    def __init__(self, idx, al, nl, surface_index):
        self.idx, self.al, self.num_levels, self.num_layers = idx, al, nl, nl - 1
        self.surface_index, self.bottom_index = surface_index, 0 if surface_index else nl - 1

    def interpolation_alphas(self, points, time, data_shape, **kw):
        ks = points[:, 0].astype(int)
        return self.idx[ks], self.al[ks]


def oracle_unit(case):
    import numpy as np
    from gridded.variable import Variable
    from .common import earlier
    n, nl, layers = case["n"], case["nl"], case["layers"]
    m = nl - 1 if layers else nl
    table = np.array(case["F"], dtype=float).reshape(m, n)
    off = np.array(case["off"], dtype=bool) if case["ma"] else np.zeros(n, dtype=bool)
    im = np.array(case["im"], dtype=bool)
    idx, al = np.array(case["idx"]), np.array(case["al"], dtype=float)
    if case.get("plain") and not im.any():
        di, da = idx, al
    else:
        di, da = np.ma.MaskedArray(idx, mask=im), np.ma.MaskedArray(al, mask=im)
    v = Variable(name="x", data=np.zeros((m, 3, 3)), grid=_Grid(table, off, case["column"], case["ma"]),
                 depth=_Depth(di, da, nl, case["surf"]), time=None)
    v.dimension_ordering = ["depth", "lon", "lat"]
    pts = np.column_stack([np.arange(n), np.arange(n), np.zeros(n)]).astype(float)
    for q in earlier(case.get("warm"), pts):
        v._depth_interp(q, None, False)
    r = v._depth_interp(pts, None, False)
    if np.ma.getdata(r).reshape(-1).shape != (n,):
        return f"{n} points but result shape {r.shape}"
    r = np.ma.asarray(r).reshape(-1)
    rm = np.ma.getmaskarray(r)
    for k in range(n):
        want = im[k] or off[k]
        if rm[k] != want:
            return f"point {k}: masked={rm[k]} expected {want} (depth masked {im[k]}, off grid {off[k]})"
        if want:
            continue
        i, a = int(idx[k]), float(al[k])
        if layers:
            e = table[min(max(i, 0), m - 1)][k]
        elif i == -1:
            e = table[0][k]
        elif i == m - 1:
            e = table[m - 1][k]
        else:
            e = table[i][k] * (1 - a) + table[i + 1][k] * a
        if not abs(r.data[k] - e) <= 1e-9 * max(1, abs(e)):
            return f"point {k}: level index {i} weight {a} column {table[:, k].tolist()} gives {r.data[k]}, expected {e}"
    return None


# ---------------------------------------------------------------- full stack
def oracle(case):
    """Variable.at on real grids and depths, against the analytic value (affine horizontally per level and time)"""
    import datetime as dt
    import random
    import numpy as np
    from gridded.depth import FVCOM_Depth, L_Depth, ROMS_Depth
    from gridded.grids import Grid_S, Grid_U
    from gridded.time import Time
    from gridded.variable import Variable
    from . import common
    rng = random.Random(case["seed"])
    n, L, dk, gk = case["n"], case["L"], case["depth"], case["grid"]
    t0 = dt.datetime(2001, 2, 3)
    if gk == "S":
        lon, lat, (A, o, gx, gy) = common.block(rng, 5, 4, rot=case["rot"])
        uv = np.array([[rng.uniform(.02, 3.98), rng.uniform(.02, 2.98)] for _ in range(n)])
        XY = uv @ A.T + o
        loc = case["loc"]
        kw = {}
        if loc == "center":
            cl, ca = [(q[1:, 1:] + q[1:, :-1] + q[:-1, 1:] + q[:-1, :-1]) / 4 for q in (lon, lat)]
            kw = dict(center_lon=cl, center_lat=ca)
        g = Grid_S(node_lon=lon, node_lat=lat, **kw)
        X, Y = (lon, lat) if loc == "node" else (cl, ca)
    else:
        nodes, faces, rect = common.tri_mesh(rng, 4, 4, rot=case["rot"])
        g = Grid_U(nodes=nodes, faces=faces)
        XY = common.inside(rng, rect, n)
        X, Y, loc = nodes[:, 0], nodes[:, 1], "node"
    lay = case["layers"]
    m = L - 1 if lay else L
    nt = 3 if case["time"] else 1
    co = [[(rng.uniform(-5, 5), rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(m)] for _ in range(nt)]
    field = lambda c, x, y: c[0] + c[1] * x + c[2] * y
    data = np.array([[field(c, X, Y) for c in row] for row in co])
    T = Time([t0, t0 + dt.timedelta(hours=2), t0 + dt.timedelta(hours=5)]) if case["time"] else None
    if not case["time"]:
        data = data[0]
    hh = 60.0
    if dk == "L":
        lv = np.array([0.0] + sorted(rng.uniform(.5, hh) for _ in range(L - 1)))
        if case["desc"]:
            lv = lv[::-1].copy()
        D = L_Depth(terms=dict(depth_levels=lv))
    else:
        s = np.linspace(-1, 0, L)
        h = Variable(name="h", data=np.full(lon.shape if gk == "S" else len(nodes), hh), grid=g, time=None)
        if dk == "roms":
            D = ROMS_Depth(grid=g, bathymetry=h, zeta=Variable.constant(0.0), terms=dict(
                s_w=s, s_rho=(s[1:] + s[:-1]) / 2, Cs_w=s, Cs_r=(s[1:] + s[:-1]) / 2, hc=5.0))
            lv = -s * hh
        else:
            sl = s[::-1][:, None] * np.ones(len(nodes))
            D = FVCOM_Depth(grid=g, bathymetry=h, zeta=Variable.constant(0.0), terms=dict(
                siglev=sl, siglay=(sl[1:] + sl[:-1]) / 2))
            lv = -s[::-1] * hh
    wrap = np.ma.array if case["ma"] else np.array
    order = None
    if case["time"] and case["dfirst"]:
        data = np.swapaxes(data, 0, 1)
        order = ["depth", "time"] + (["lon", "lat"] if gk == "S" else ["ele"])
    sbc, bbc = case["sbc"], case["bbc"]
    v = Variable(name="x", data=wrap(data), grid=g, depth=D, time=None if order else T,
                 **({} if case["percall"] else dict(surface_boundary_condition=sbc, bottom_boundary_condition=bbc)))
    if order:
        v._time = T
        v.dimension_ordering = order
    elif not case["time"]:
        pass
    z = np.array([rng.choice([rng.uniform(.1, lv.max() * .999)] * 4 + [-3.0, lv.max() + 10, float(rng.choice(list(lv)))])
                  for _ in range(n)])
    off = np.zeros(n, dtype=bool)
    if case["off"]:
        for k in range(n):
            if rng.random() < .25:
                off[k] = True
                XY[k] += 700
    sec = int(case["frac"] * 5 * 3600) if case["time"] else 0
    tm = t0 + dt.timedelta(seconds=sec)
    pts = np.column_stack([XY, z])
    p0, d0 = pts.copy(), np.array(v.data)
    if case["perm"]:
        pm = list(range(n))
        rng.shuffle(pm)
    kw = dict(surface_boundary_condition=sbc, bottom_boundary_condition=bbc) if case["percall"] else {}
    for q in common.earlier(case["warm"], pts):
        v.at(q, tm, **kw)
    r = v.at(pts, tm, **kw)
    if not np.array_equal(p0, pts) or not np.array_equal(d0, np.array(v.data)):
        return "query modified its inputs"
    if r.shape != (n, 1):
        return f"result shape {r.shape}"
    rm = np.ma.getmaskarray(r)[:, 0]
    rd = np.ma.getdata(r)[:, 0]
    up = lv[0] < lv[-1]
    for k in range(n):
        x, y = XY[k]
        if loc == "center":
            c_, r_ = int(uv[k][0]), int(uv[k][1])
            x, y = cl[r_, c_], ca[r_, c_]
        zz = z[k]
        lo, hi = lv.min(), lv.max()
        if abs(zz - lo) < 1e-9 or abs(zz - hi) < 1e-9:
            continue      # ends of the axis: decided by C03/C04
        above, below = zz < lo, zz > hi
        want = (off[k] and gk == "S") or (above and sbc == "mask") or (below and bbc == "mask")
        d = f"point {k} at {pts[k].tolist()} levels {lv.tolist()} off={off[k]} sbc={sbc} bbc={bbc}"
        if off[k] and gk == "U":
            if not rm[k] and rd[k] != 0:
                return f"{d}: off the grid but value {rd[k]}"
            continue
        if rm[k] != want:
            return f"{d}: masked={rm[k]} expected {want}"
        if want:
            continue
        if case["time"]:
            i0, a = (0, sec / 7200) if sec <= 7200 else (1, (sec - 7200) / 10800)
        else:
            i0, a = 0, 0.0
        zc = min(max(zz, lo), hi)
        o_ = lv if up else lv[::-1]
        j = min(max(int(np.searchsorted(o_, zc, side="right")) - 1, 0), L - 2)
        w = (zc - o_[j]) / (o_[j + 1] - o_[j])

        def at_level(ti):
            f = lambda q: field(co[ti][q], x, y)
            if lay:
                if abs(zc - o_).min() < 1e-9 and lo < zc < hi:
                    return None
                return f(j if up else L - 2 - j)
            a0, a1 = (j, j + 1) if up else (L - 1 - j, L - 2 - j)
            return f(a0) * (1 - w) + f(a1) * w
        e0 = at_level(i0)
        if e0 is None:
            continue
        e = e0 if not case["time"] else e0 * (1 - a) + at_level(i0 + 1) * a
        if not abs(rd[k] - e) <= 1e-6 * max(1, abs(e)):
            return f"{d}: value {rd[k]}, expected {e}"
    if n > 1 and case["perm"]:
        v2 = Variable(name="x", data=wrap(data), grid=g, depth=D, time=None if order else T,
                      surface_boundary_condition=sbc, bottom_boundary_condition=bbc)
        if order:
            v2._time = T
            v2.dimension_ordering = order
        q = v2.at(pts[pm], tm)
        qm, qd = np.ma.getmaskarray(q)[:, 0], np.ma.getdata(q)[:, 0]
        for a, k in enumerate(pm):
            if qm[a] != rm[k] or (not qm[a] and abs(qd[a] - rd[k]) > 1e-9 * max(1, abs(rd[k]))):
                return f"point {k} asked in another order gives {q[a]} instead of {r[k]}"
    return None


def bounded(B):
    from . import common
    rng = B.rng
    for c in range(B.n(700, 6000)):
        n, nl = rng.choice([1, 2, 3, 6, 9]), rng.choice([2, 3, 3, 5])
        lay = rng.random() < .35
        m = nl - 1 if lay else nl
        idx = [rng.randint(-1, nl - 1) for _ in range(n)]
        if rng.random() < .2:
            idx = [rng.randint(-1, nl - 1)] * n
        al = [1.0 if i == -1 else 0.0 if i == nl - 1 else rng.choice([0.0, .25, .5, .9]) for i in idx]
        B.case("unit", oracle_unit, dict(
            n=n, nl=nl, layers=lay, idx=idx, al=al, im=[rng.random() < .25 for _ in range(n)] if rng.random() < .6 else [False] * n,
            warm=rng.choice(common.WARM), plain=rng.random() < .5, column=rng.random() < .4, ma=rng.random() < .5, off=[rng.random() < .25 for _ in range(n)],
            surf=rng.choice([0, nl - 1]), F=[[rng.uniform(-9, 9) for _ in range(n)] for _ in range(m)]), nontrivial=n > 1)
    for c in range(B.n(260, 2500)):
        dk = rng.choice(["L", "L", "roms", "fvcom"])
        gk = "S" if dk == "roms" else "U" if dk == "fvcom" else rng.choice("SU")
        B.case("full", oracle, dict(
            seed=rng.getrandbits(32), n=rng.choice([1, 2, 5, 9, 40]), L=rng.choice([2, 3, 5, 8]), depth=dk, grid=gk,
            rot=rng.choice([0, 0.7, 2.5]), loc=rng.choice(["node", "center"]), layers=rng.random() < .35,
            time=rng.random() < .6, dfirst=rng.random() < .25, desc=rng.random() < .5, ma=rng.random() < .5,
            sbc=rng.choice(["mask", "extrapolate"]), bbc=rng.choice(["mask", "extrapolate"]), percall=rng.random() < .5,
            off=rng.random() < .4, warm=rng.choice(common.WARM), frac=rng.choice([0, 1, .1, .4, .77]), perm=rng.random() < .4), nontrivial=True)


# ------------------------------------------------------------------------------------------------ contracts
def _contract(V, layers, column, masked):
    from pyvc.arr import SMa, new, sym_array
    from pyvc.core import And, Not, Or, Sym, ctx, zi
    from pyvc.verify import dim, implies
    V.functions = ["Variable._depth_interp", "Variable._xy_interp"]
    V.assumes = ["Depth.interpolation_alphas: index -1..M-1 and weight per point, masked together (C03/C04)",
                 "Grid.interpolate_var_to_points: value of a point depends on the level slice and that point only "
                 "(C08/C09/C10)"]
    Vm = V.mod("gridded.variable")

    def run(cx):
        n, nl = dim("n", 1), dim("nl", 2)
        m = nl - 1 if layers else nl

        def rng_(raw, i):
            return z3.And(raw(i).e >= -1, raw(i).e <= nl - 1)
        ri = sym_array("idx", (n,), "i", axioms=[(1, rng_)])
        idx0 = ri.reader()

        def wts(raw, i):
            k = idx0(i).e
            r = raw(i).e
            return z3.And(r >= 0, r <= 1, z3.Implies(k == -1, r == 1), z3.Implies(k == nl - 1, r == 0))
        al = sym_array("al", (n,), "f", axioms=[(1, wts)])
        im = sym_array("im", (n,), "b")
        P = sym_array("P", (n, 3), "f")
        F = z3.Function("F", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
        O = z3.Function("O", z3.RealSort(), z3.RealSort(), z3.BoolSort())

        class D:
            num_levels, num_layers = Sym("i", nl), Sym("i", nl - 1)
            surface_index, bottom_index = 0, Sym("i", nl - 1)

            def interpolation_alphas(self, points, time, data_shape, **kw):
                if masked:
                    return SMa(ri.copy(), im.copy()), SMa(al.copy(), im.copy())
                return ri.copy(), al.copy()

        class G:
            def interpolate_var_to_points(self, points, variable, location=None, slices=None, **kw):
                lev = slices[-1] if isinstance(slices, tuple) else slices
                lev = lev if isinstance(lev, Sym) else Sym("i", zi(lev))
                if not bool(Sym("b", z3.And(lev.e >= -zi(m), lev.e < zi(m)))):
                    raise IndexError("level out of range")
                l = z3.If(lev.e < 0, lev.e + m, lev.e)
                rp = points.reader()
                N = points.sshape[0]
                shp = (N, 1) if column else (N,)
                v = new(shp, "f", lambda i: Sym("f", F(l, rp((i[0], 0)).e, rp((i[0], 1)).e)))
                o = new(shp, "b", lambda i: Sym("b", O(rp((i[0], 0)).e, rp((i[0], 1)).e)))
                return SMa(v, o) if masked else v

        class Data:
            shape = (Sym("i", zi(m)), 3, 3)
        v = Vm.Variable.__new__(Vm.Variable)
        v._order = ["depth", "lon", "lat"]
        v.grid, v.depth, v._location, v._time, v._data = G(), D(), "node", None, Data()
        v.surface_boundary_condition, v.bottom_boundary_condition = "extrapolate", "mask"
        cx.ghost.update(n=n, nl=nl, m=m, ri=ri, al=al, im=im, P=P, F=F, O=O)
        return v._depth_interp(P, None, False)

    def replay(M, cx):
        g = cx.ghost
        n, nl = M.val(g["n"]), M.val(g["nl"])
        m = nl - 1 if layers else nl
        if n * nl > 2000:
            raise ValueError("model too large")
        P = M.array(g["P"])
        Fv = [[M.val(g["F"](z3.IntVal(l), *[g["P"].reader()((z3.IntVal(k), z3.IntVal(c))).e for c in (0, 1)]))
               for k in range(n)] for l in range(m)]
        off = [M.val(g["O"](*[g["P"].reader()((z3.IntVal(k), z3.IntVal(c))).e for c in (0, 1)])) for k in range(n)]
        idx = M.array(g["ri"]).tolist()
        al = M.array(g["al"]).tolist()
        for k in range(n):
            idx[k] = min(max(idx[k], -1), nl - 1)
            al[k] = 1.0 if idx[k] == -1 else 0.0 if idx[k] == nl - 1 else min(max(al[k], 0.0), 1.0)
        case = dict(n=n, nl=nl, layers=layers, idx=idx, al=al, im=M.array(g["im"]).tolist() if masked else [False] * n,
                    plain=not masked, column=column, ma=masked, off=off, surf=0, F=Fv)
        return run_case(oracle_unit, case)

    def post(V, p):
        cx, g = p.ctx, p.ctx.ghost
        if p.outcome == "raise":
            V.prove("no exception", False)
            return
        r = p.value
        n, nl, m = g["n"], g["nl"], g["m"]
        k = cx.fresh_index(n, "k").e
        V.prove("one value per point", And(len(r.sshape) == 1, zi(r.sshape[0]) == n))
        i, a = g["ri"].reader()((k,)).e, g["al"].reader()((k,)).e
        im = g["im"].reader()((k,)).e if masked else False
        rp = g["P"].reader()
        x, y = rp((k, 0)).e, rp((k, 1)).e
        off = g["O"](x, y) if masked else False
        rm = r.mat(k)
        V.prove("masked exactly when the depth is masked or the point is off the grid", rm == Or(im, off))
        v = r.at(k)
        ok = Not(rm)
        V.prove("no NaN", implies(ok, Not(v.nan) if v.nan is not None else True))
        F = g["F"]
        if layers:
            l = z3.If(i < 0, 0, z3.If(i > m - 1, m - 1, i))
            V.prove("value of the layer that contains the point", implies(ok, v.e == F(l, x, y)))
        else:
            V.prove("linear between the two levels of the point",
                    implies(And(ok, i >= 0, i < m - 1), v.e == F(i, x, y) + (F(i + 1, x, y) - F(i, x, y)) * a))
            V.prove("held at the first level", implies(And(ok, i == -1), v.e == F(z3.IntVal(0), x, y)))
            V.prove("held at the last level", implies(And(ok, i == m - 1), v.e == F(m - 1, x, y)))
        V.cover("inside", And(ok, i >= 0, i < m - 1) if not layers else ok)
        V.cover("below", And(ok, i == nl - 1))
        V.cover("above", And(ok, i == -1))
        if masked:
            V.cover("masked", im)
    V.verify(run, post, replay)


def _mk(layers, column, masked):
    def contract(V):
        _contract(V, layers, column, masked)
    contract.__name__ = "contract_depth_interp_" + ("layers" if layers else "levels") + ("_column" if column else "") + (
        "_masked" if masked else "_plain")
    contract.__doc__ = ("Variable._depth_interp: for any number of points, levels and any index/weight pattern each point gets the "
                        "value interpolated between its own two levels (or of its own layer), masked exactly when its depth or "
                        "position is masked")
    return contract


CONTRACTS = [_mk(l, c, m) for l in (False, True) for c in (False, True) for m in (False, True)]
