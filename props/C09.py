"""C09: logical coordinates and interpolation on curvilinear grids."""
import z3

from pyvc.verify import run_case

ID = "C09"
BOUNDED_FUNCTIONS = ["SGrid.interpolate_var_to_points with the real cell tree", "SGrid.locate_faces", "Variable.at on Grid_S",
                     "edge interpolation with a center mask"]

_EXTRA = {None: 0, "none": 0, "low": 1, "high": 1, "both": 2}
_OFF = {None: 0, "none": 0, "low": 1, "high": 0, "both": 1}


def _bilinear(q, l, m):
    """q: values at (row,col), (row+1,col), (row+1,col+1), (row,col+1)"""
    return q[0] * (1 - l) * (1 - m) + q[1] * (1 - l) * m + q[2] * l * m + q[3] * l * (1 - m)


def oracle_cell(case):
    """SGrid.x_to_l on any convex cells: inverse of the bilinear map"""
    import numpy as np
    from gridded.pysgrid.sgrid import SGrid
    cells, L, M = [np.array(case[k], float) for k in ("cells", "l", "m")]
    lon = np.array([[0, 1], [0, 1.]])
    co = []
    P = []
    for q, l, m in zip(cells, L, M):
        g = SGrid(node_lon=np.array([[q[0][0], q[3][0]], [q[1][0], q[2][0]]]), node_lat=np.array([[q[0][1], q[3][1]], [q[1][1], q[2][1]]]))
        g._compute_transform_coeffs()
        co.append((g._l_coeffs[0, 0], g._m_coeffs[0, 0]))
        P.append(_bilinear(q, l, m))
    P = np.array(P)
    a, b = np.array([np.asarray(c[0]) for c in co]), np.array([np.asarray(c[1]) for c in co])
    l, m = SGrid.x_to_l(P[:, 0], P[:, 1], a, b)
    for k in range(len(P)):
        if not (abs(l[k] - L[k]) < 1e-5 and abs(m[k] - M[k]) < 1e-5):
            return (f"point {P[k].tolist()} of cell {cells[k].tolist()}: logical coordinates ({l[k]}, {m[k]}), "
                    f"expected ({L[k]}, {M[k]})")
    return None


def oracle_interpolant(case):
    """compute_interpolant against the documented meaning of each mask behaviour"""
    import numpy as np
    from gridded.pysgrid.sgrid import SGrid
    v, a = np.array(case["v"], float), np.array(case["a"], float)
    vm = np.array(case["vm"], bool).reshape(v.shape)
    mode = case["mode"]
    g = SGrid(masked_interpolant_behavior=mode) if case["attr"] else SGrid()
    arg = np.ma.MaskedArray(v, mask=vm) if case["ma"] else v
    am = np.array(case["am"], bool)
    alp = np.ma.MaskedArray(a, mask=np.broadcast_to(am[:, None], a.shape).copy()) if case["alma"] else a
    v0, m0 = v.copy(), vm.copy()
    kw = {} if case["attr"] or (mode == "zero" and case["default"]) else dict(mask_behavior=mode)
    r = g.compute_interpolant(arg, alp, check_alphas=False, **kw)
    if r.shape != (len(v),):
        return f"{len(v)} points, result shape {r.shape}"
    if not (np.array_equal(v, v0) and (not case["ma"] or np.array_equal(np.ma.getmaskarray(arg), m0))):
        return "compute_interpolant changed its arguments"
    rm = np.ma.getmaskarray(r)
    for k in range(len(v)):
        mk = vm[k] if case["ma"] else np.zeros(v.shape[1], bool)
        if case["alma"] and am[k]:
            if not rm[k]:
                return f"row {k}: weights masked, result is not"
            continue
        if mode == "mask":
            if rm[k] != mk.any():
                return f"row {k}: mask {rm[k]}, values masked {mk.tolist()}"
            if rm[k]:
                continue
            e = v[k] @ a[k]
        elif mode == "zero":
            e = np.where(mk, 0, v[k]) @ a[k]
        else:
            if mk.all():
                continue
            e = np.where(mk, -v[k][::-1], v[k]) @ a[k]
        if rm[k] or not abs(np.ma.getdata(r)[k] - e) < 1e-9 * (1 + np.abs(v[k]).max()):
            return f"{mode}: row {k} values {v[k].tolist()} masked {mk.tolist()} weights {a[k].tolist()}: {r[k]}, expected {e}"
    return None


def oracle(case):
    """SGrid.interpolate_var_to_points end to end: points built from a cell and logical coordinates"""
    import random
    import warnings
    import numpy as np
    from gridded.grids import Grid_S
    from gridded.pysgrid.sgrid import SGrid
    from gridded.variable import Variable
    from . import common
    rng = random.Random(case["seed"])
    ny, nx, n = case["ny"], case["nx"], case["n"]
    lon, lat, rect = common.quads(rng, nx, ny, case["jitter"], case["rot"], case["shear"], case["scale"], case["offset"], case["flip"])
    lon0, lat0 = lon.copy(), lat.copy()
    cpad = case["cpad"]
    gkw = {}
    if case["cpadvia"] == "arg" and cpad is not None:
        gkw["face_padding"] = cpad
    elif cpad is not None:
        # inferred from the shape of the center coordinates
        d = {"low": 0, "both": 1, "none": -1}
        if any(q not in d for q in cpad):
            gkw["face_padding"] = cpad
        else:
            gkw["center_lon"] = np.zeros((ny + d[cpad[0]], nx + d[cpad[1]]))
            gkw["center_lat"] = np.zeros((ny + d[cpad[0]], nx + d[cpad[1]]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = (Grid_S if case["cls"] else SGrid)(node_lon=lon, node_lat=lat, **gkw)
        loc = case["loc"]
        name = case["alias"][loc]
        pad = case["pad"]
        if pad is None:
            c = cpad if cpad is not None else (None, None)
            pad_ = {"node": (None, None), "center": c, "edge1": (c[0], None), "edge2": (None, c[1])}[loc]
        else:
            pad_ = pad
        by, bx = {"node": (0, 0), "center": (-1, -1), "edge1": (-1, 0), "edge2": (0, -1)}[loc]
        sh = (ny + by + _EXTRA[pad_[0]], nx + bx + _EXTRA[pad_[1]])
        L = tuple(case["lead"])
        data = np.array([rng.uniform(-50, 50) for _ in range(int(np.prod(L + sh)))]).reshape(L + sh)
        if case["dtype"] != "float64":
            data = np.round(data).astype(case["dtype"])
        mask = np.array([rng.random() < case["pmask"] for _ in range(data.size)]).reshape(data.shape)
        arg = np.ma.MaskedArray(data, mask=mask, fill_value=-999) if case["ma"] else data
        if not case["ma"]:
            mask[...] = False
        d0, m0 = data.copy(), mask.copy()
        sl = tuple(rng.randrange(q) for q in L)
        flat, fm = d0[sl].astype(float), m0[sl]
        off = np.array([rng.random() < case["poff"] for _ in range(n)])
        R = np.array([rng.randrange(ny - 1) for _ in range(n)])
        C = np.array([rng.randrange(nx - 1) for _ in range(n)])
        if case["corner"]:
            R[0], C[0] = rng.choice([0, ny - 2]), rng.choice([0, nx - 2])
        LL = np.array([rng.uniform(.02, .98) for _ in range(n)])
        MM = np.array([rng.uniform(.02, .98) for _ in range(n)])
        P = np.empty((n, 2))
        for k in range(n):
            q = [(R[k], C[k]), (R[k] + 1, C[k]), (R[k] + 1, C[k] + 1), (R[k], C[k] + 1)]
            P[k] = [_bilinear([z[i] for i in q], LL[k], MM[k]) for z in (lon0, lat0)]
        if off.any():
            P[off] = common.outside(rng, rect, int(off.sum()))
        P0 = P.copy()
        kw = {}
        if L:
            kw["slices"] = list(sl) if case["listsl"] else sl
        if pad is not None:
            kw["padding"] = pad
        if case["unmask"]:
            kw.update(unmask=True, fill_value=case["fill"])
        if case["given"] and not off.all():
            kw["indices"] = g.locate_faces(P)
            if case["given"] > 1:
                kw["alphas"] = g.geo_to_logical(P, indices=kw["indices"]) - kw["indices"]
            given = {k: kw[k].copy() for k in ("indices", "alphas") if k in kw}
        if not case["given"]:
            for q in common.earlier(case["warm"], P):
                g.interpolate_var_to_points(q, arg, location=name, **kw)
            if rng.random() < .4:     # other data on the same grid, same points: same place, then another place
                o = d0.astype(float) * 2 + 1
                o.flat[0], o.flat[-1] = d0.flat[0], d0.flat[-1]
                o = np.ma.MaskedArray(o, mask=~m0) if rng.random() < .5 else o
                g.interpolate_var_to_points(P.copy(), o, location=name, **{k: v for k, v in kw.items() if k in ("slices", "padding")})
                if rng.random() < .5:
                    g.interpolate_var_to_points(P.copy(), np.ones((ny, nx)), location="node")
        for rep in range(2 if case["twice"] else 1):
            r = g.interpolate_var_to_points(P, arg, location=name, **kw)
            if not (np.array_equal(P, P0) and np.array_equal(lon, lon0) and np.array_equal(lat, lat0)):
                return "the query changed its points or the grid"
            if not (np.array_equal(data, d0) and np.array_equal(np.ma.getmaskarray(arg), m0)):
                return "the query changed the data"
            if case["given"] and not off.all():
                for q, z in given.items():
                    if not (np.array_equal(np.ma.getdata(z), np.ma.getdata(kw[q]))
                            and np.array_equal(np.ma.getmaskarray(z), np.ma.getmaskarray(kw[q]))):
                        return f"the query changed the given {q}"
            if r.shape not in ((n,), (n, 1)):
                return f"{n} points but result shape {r.shape}"
            if case["unmask"] and isinstance(r, np.ma.MaskedArray):
                return "unmask=True but the result is a masked array"
            val, rm = np.ma.getdata(r).reshape(-1), np.ma.getmaskarray(r).reshape(-1)
            for k in range(n):
                where = f"point {k} {P[k].tolist()} (cell {R[k]},{C[k]}; l={LL[k]}, m={MM[k]}) on {loc}"
                i, j = R[k] + _OFF[pad_[0]], C[k] + _OFF[pad_[1]]
                l, m = LL[k], MM[k]
                if off[k]:
                    nodes, W = [], []
                elif loc == "node":
                    nodes = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
                    W = [(1 - l) * (1 - m), m * (1 - l), l * m, l * (1 - m)]
                elif loc == "center":
                    nodes, W = [(i, j)], [1.]
                elif loc == "edge1":
                    nodes, W = [(i, j), (i, j + 1)], [1 - l, l]
                else:
                    nodes, W = [(i, j), (i + 1, j)], [1 - m, m]
                none = all(fm[q] for q in nodes)
                if off[k] or (none and loc in ("node", "center")):
                    if case["unmask"]:
                        if val[k] != case["fill"]:
                            return f"{where}: off the grid or all masked, gets {val[k]} instead of the fill value"
                    elif not rm[k]:
                        return f"{where}: off the grid or all masked, but gets {val[k]}"
                    continue
                if none:
                    continue
                e = sum(w * (0 if fm[q] else flat[q]) for w, q in zip(W, nodes))
                if rm[k] or not abs(val[k] - e) <= 1e-6 * max(1, np.abs(flat).max()):
                    return f"{where}: {r[k]}, expected {e}"
        if not L and not case["unmask"] and pad is None and not case["given"] and case["var"]:
            G = g if case["cls"] else Grid_S(node_lon=lon0, node_lat=lat0, **gkw)
            rv = Variable(name="q", data=arg, grid=G, location=name).at(P, None)
            a, b = np.ma.masked_invalid(np.ma.asarray(rv)).reshape(-1), np.ma.asarray(r).reshape(-1)
            if a.shape != b.shape or not np.allclose(a.filled(12345.), b.filled(12345.), atol=1e-6):
                return f"Variable.at gives {a}, the grid {b}"
    return None


def oracle_masked_edge(case):
    """edges between a land and a water cell count as masked (zero)"""
    import netCDF4
    import numpy as np
    from gridded.pysgrid.sgrid import SGrid
    ny, nx = case["ny"], case["nx"]
    lon, lat = np.meshgrid(np.arange(nx) * 1., np.arange(ny) * 1.)
    land = np.array(case["land"], bool).reshape(ny - 1, nx - 1)
    cm = np.zeros((ny + 1, nx + 1), int)
    cm[1:-1, 1:-1] = 1 - land
    cm[0], cm[-1], cm[:, 0], cm[:, -1] = cm[1], cm[-2], cm[:, 1], cm[:, -2]
    if not case["pad"]:
        cm = 1 - land.astype(int)
    with netCDF4.Dataset("mask.nc", "w", diskless=True) as ds:
        ds.createDimension("y", cm.shape[0])
        ds.createDimension("x", cm.shape[1])
        var = ds.createVariable("mask", "i4", ("y", "x"))
        var.flag_values, var.flag_meanings = np.array([0, 1], "i4"), "land water"
        var[:] = cm
        g = SGrid(node_lon=lon, node_lat=lat, center_mask=var, face_padding=("both", "both") if case["pad"] else ("none", "none"))
        loc = case["loc"]
        u = np.array(case["u"], float).reshape((ny + 1, nx) if loc == "edge1" else (ny, nx + 1))
        water = np.argwhere(~land)
        if len(water) == 0:
            return None
        off = np.array(case["off"])[:len(water)]
        P = np.array([[c + o[0], r + o[1]] for (r, c), o in zip(water, off)])
        r_ = g.interpolate_var_to_points(P, u, location=loc, padding=("both", None) if loc == "edge1" else (None, "both"))
        for k, ((r, c), o) in enumerate(zip(water, off)):
            rm = np.ma.getmaskarray(r_)[k]

            def dry(i, j):
                return 0 <= i < ny - 1 and 0 <= j < nx - 1 and land[i, j]
            if loc == "edge1":
                v = [0 if dry(r, c - 1) else u[r + 1, c], 0 if dry(r, c + 1) else u[r + 1, c + 1]]
                w = o[0]
            else:
                v = [0 if dry(r - 1, c) else u[r, c + 1], 0 if dry(r + 1, c) else u[r + 1, c + 1]]
                w = o[1]
            e = (1 - w) * v[0] + w * v[1]
            if rm or not abs(r_[k] - e) < 1e-6 * 60:
                return f"{loc}, cell {r},{c} at {o.tolist()}, land {land.tolist()}: {r_[k]}, expected {e}"
    return None


def oracle_tree(case):
    """every point of the grid is located, in the cell that contains it"""
    import random
    from gridded.pysgrid.sgrid import SGrid
    from . import common
    rng = random.Random(case["seed"])
    nx, ny = rng.randint(3, 12), rng.randint(3, 12)
    lon, lat, rect = common.quads(rng, nx, ny, .2, rng.uniform(-3, 3), rng.choice([0, .5]), 20, (-120, 45))
    P = common.inside(rng, rect, 400)
    r = SGrid(node_lon=lon, node_lat=lat).locate_faces(P).filled(-1)
    for k, (i, j) in enumerate(r.tolist()):
        if i < 0:
            return f"grid {case['seed']}: point {P[k].tolist()} inside the grid is not located"
        import numpy as np
        q = np.array([[lon[t], lat[t]] for t in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))])
        if not common.in_convex(q, P[k], 1e-6):
            return f"grid {case['seed']}: point {P[k].tolist()} located in cell {i},{j}: {q.tolist()}"
    return None


def bounded(B):
    from . import common
    rng = B.rng
    for seed in [67, 372, 432, 473, 586, 1596] + [rng.getrandbits(20) for _ in range(B.n(10, 200))]:
        B.case("tree", oracle_tree, dict(seed=seed))
    jit = [[0, 0], [1, 0], [1, 1], [0, 1]]
    for c in range(B.n(1500, 10000)):
        cells, ls, ms = [], [], []
        for k in range(rng.choice([1, 2, 5])):
            j = rng.choice([0, 0, .1, .2])
            trap = [rng.choice([.1, .4, 1, 2.5]), rng.choice([0, .5, -1])] if rng.random() < .5 else [1, 0]
            trap2 = [rng.choice([.1, .4, 1, 2.5]), rng.choice([0, .5, -1])] if rng.random() < .5 else [1, 0]
            a = rng.uniform(-4, 4)
            cs, sn = (__import__("math").cos(a), __import__("math").sin(a)) if rng.random() < .7 else rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
            f = rng.choice([1, -1])
            sc, sh = rng.choice([1, .01, 30]), rng.choice([0, 0, .5])
            ox, oy = rng.choice([(0, 0), (-120, 40), (3, -2)])
            q = []
            for row, col in jit:
                x, y = col + rng.uniform(-j, j), row + rng.uniform(-j, j)
                if row:
                    x = x * trap[0] + trap[1]
                if col:
                    y = y * trap2[0] + trap2[1]
                x, y = x + sh * y, f * y
                q.append([ox + sc * (cs * x - sn * y), oy + sc * (sn * x + cs * y)])
            cr = [(q[(t + 1) % 4][0] - q[t][0]) * (q[(t + 2) % 4][1] - q[(t + 1) % 4][1])
                  - (q[(t + 1) % 4][1] - q[t][1]) * (q[(t + 2) % 4][0] - q[(t + 1) % 4][0]) for t in range(4)]
            if min(abs(t) for t in cr) < .02 * max(abs(t) for t in cr) or not (min(cr) > 0 or max(cr) < 0):
                continue
            cells.append(q)
            ls.append(rng.choice([0, 1, .5, rng.random()]))
            ms.append(rng.choice([0, 1, .5, rng.random()]))
        if cells:
            B.case("cell", oracle_cell, dict(cells=cells, l=ls, m=ms), nontrivial=len(cells) > 1)
    for c in range(B.n(300, 3000)):
        mode = rng.choice(["zero", "zero", "mask", "mirror"])
        n, w = rng.randint(1, 5), 2 if mode == "mirror" else rng.choice([2, 4])
        pm = rng.choice([0, .3, .8])
        B.case("interpolant", oracle_interpolant, dict(
            mode=mode, v=[[rng.uniform(-9, 9) for _ in range(w)] for _ in range(n)],
            a=[[rng.uniform(0, 1) for _ in range(w)] for _ in range(n)], vm=[[rng.random() < pm for _ in range(w)] for _ in range(n)],
            am=[rng.random() < .3 for _ in range(n)], ma=mode == "mirror" or rng.random() < .8, alma=rng.random() < .5,
            attr=rng.random() < .3, default=rng.random() < .5), nontrivial=pm > 0)
    pads = [None, "none", "low", "high", "both"]
    for c in range(B.n(900, 7000)):
        loc = rng.choice(["node", "node", "center", "edge1", "edge2"])
        pad = rng.choice([None, (rng.choice(pads), rng.choice(pads))])
        cpad = rng.choice([None, None, ("both", "both"), ("low", "low"), ("none", "none"), ("high", "low"), ("both", "none"), ("low", "both")])
        B.case("full", oracle, dict(
            seed=rng.getrandbits(32), ny=rng.randint(2, 6), nx=rng.randint(2, 6), jitter=rng.choice([0, .1, .2]),
            rot=rng.choice([0, .4, 1.5707963267948966, 2.5, -3]), shear=rng.choice([0, .5]), scale=rng.choice([1, .05, 20]),
            offset=rng.choice([(0., 0.), (-120., 45.)]), flip=rng.random() < .4, cpad=cpad, cpadvia=rng.choice(["arg", "shape"]),
            loc=loc, pad=pad, lead=rng.choice([(), (), (2,), (3, 2)]), dtype=rng.choice(["float64", "float64", "float32", "int32"]),
            pmask=rng.choice([0, .3, .9]), ma=rng.random() < .6, n=rng.choice([1, 1, 2, 3, 8, 40]), poff=rng.choice([0, 0, .4, 1]),
            corner=rng.random() < .5, listsl=rng.random() < .5, unmask=rng.random() < .3, fill=rng.choice([-7.0, 999.0]),
            given=rng.choice([0, 0, 0, 1, 2]), twice=rng.random() < .4, warm=rng.choice(common.WARM), cls=rng.random() < .5, var=rng.random() < .5,
            alias=dict(node="node", center=rng.choice(["center", "face"]), edge1="edge1", edge2="edge2")))
    for c in range(B.n(150, 1200)):
        ny, nx = rng.randint(2, 5), rng.randint(2, 5)
        m = (ny - 1) * (nx - 1)
        loc = rng.choice(["edge1", "edge2"])
        land = [rng.random() < .4 for _ in range(m)]
        land[rng.randrange(m)] = True
        B.case("masked edges", oracle_masked_edge, dict(
            ny=ny, nx=nx, land=land, loc=loc, pad=rng.random() < .5, u=[rng.uniform(-50, 50) for _ in range((ny + 1) * nx if loc == "edge1" else ny * (nx + 1))],
            off=[[rng.uniform(.02, .98), rng.uniform(.02, .98)] for _ in range(m)]), nontrivial=any(land) and not all(land))

def contract_x_to_l(V):
    """SGrid.x_to_l for any number of points and any non-degenerate convex cells (either orientation): the unique logical
    coordinates in the unit square of a point of the cell -- the inverse of the cell's bilinear map"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, Sym
    from pyvc.ring import Rewriter
    from pyvc.verify import dim
    V.functions = ["SGrid.x_to_l"]
    V.assumes = ["infinite intermediate results (division by zero) are identified with NaN in SGrid.x_to_l"]
    cls = V.mod("gridded.pysgrid.sgrid").SGrid

    def run(cx):
        n = dim("n")
        arrs = [sym_array("x", (n,), "f"), sym_array("y", (n,), "f"), sym_array("a", (n, 4), "f"), sym_array("b", (n, 4), "f")]
        cx.ghost.update(n=n, arrs=arrs)
        return cls.x_to_l(*arrs)

    def post(V, p):
        cx, g = p.ctx, p.ctx.ghost
        if p.outcome == "raise":
            V.prove("no exception", False)
            return
        k = cx.fresh_index(g["n"], "k").e
        x, y, A, B = g["arrs"]
        xe, ye = x.reader()((k,)).e, y.reader()((k,)).e
        a = [A.reader()((k, z3.IntVal(q))).e for q in range(4)]
        b = [B.reader()((k, z3.IntVal(q))).e for q in range(4)]
        l, m, M, L = z3.Reals("l* m* M2 L2")
        R = p.value
        res = [r.at(k) for r in R]
        cx.saturate()
        sub = [(xe, a[0] + a[1] * l + a[2] * m + a[3] * l * m), (ye, b[0] + b[1] * l + b[2] * m + b[3] * l * m)]

        def jac(l, m):
            return (a[1] + a[3] * m) * (b[2] + b[3] * l) - (a[2] + a[3] * l) * (b[1] + b[3] * m)
        J = jac(l, m)
        aa = a[3] * b[2] - a[2] * b[3]
        bb = a[3] * b[0] - a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + xe * b[3] - ye * a[3]
        cc = a[1] * b[0] - a[0] * b[1] + xe * b[1] - ye * a[1]
        bb, cc = [z3.substitute(t, *sub) for t in (bb, cc)]
        V.prove_eq("lemma: the row coordinate solves the quadratic", aa * m * m + bb * m + cc, z3.RealVal(0), z3.BoolVal(True))
        V.prove_eq("lemma: derivative of the quadratic = -Jacobian", 2 * aa * m + bb, J, z3.BoolVal(True))
        V.prove_eq("lemma: discriminant", bb * bb - 4 * aa * cc, J * J, z3.BoolVal(True))
        corners = [(0, 0), (0, 1), (1, 0), (1, 1)]
        inside = And(l >= 0, l <= 1, m >= 0, m <= 1)
        for sJ in (1, -1):
            convex = And(*[jac(z3.RealVal(i), z3.RealVal(j)) * sJ > 0 for i, j in corners])
            V.prove_lin(f"lemma: orientation {sJ}: Jacobian keeps its sign in the cell", z3.Implies(And(inside, convex), J * sJ > 0))
        for sJ in (1, -1):
            for sb in (1, -1):
                for ux in (True, False):
                    dx, dy = a[1] + a[3] * m, b[1] + b[3] * m
                    absv = lambda t: z3.If(t >= 0, t, -t)
                    cux = absv(dx) >= absv(dy)
                    den = dx if ux else dy
                    q2 = bb + sb * sJ * J               # -2 q of the code
                    hyp = And(inside, J * sJ > 0, bb >= 0 if sb > 0 else bb < 0, cux if ux else Not(cux))
                    tag = f"J{'>' if sJ > 0 else '<'}0, b{'>=' if sb > 0 else '<'}0, {'x' if ux else 'y'}"
                    V.prove_lin(f"{tag}: q is not zero", z3.Implies(And(J * sJ > 0, bb >= 0 if sb > 0 else bb < 0), q2 != 0))
                    V.prove_lin(f"{tag}: l is defined", z3.Implies(And(J * sJ > 0, cux if ux else Not(cux)), den != 0))
                    common = dict(subst=sub, roots=[(J, sJ)])
                    signs = [(bb, .5 if sb > 0 else -1), (J, sJ), (J * J, 1)]
                    if sb * sJ > 0:
                        W = Rewriter(cx, hyp, nonzero=[q2, den], signs=signs,
                                     targets=[(m, m), (l, l)], **common)
                        V.prove_rw(f"{tag}: logical coordinates of the point", W, hyp, res, (l, m))
                        continue
                    # the code's other root is the point's; the second one lies outside the cell
                    q2 = bb - J
                    V.prove_eq(f"{tag}: q = aa m", q2, -2 * aa * m, z3.BoolVal(True))
                    F2 = aa * M * M + bb * M + cc
                    V.prove_lin(f"{tag}: aa and m are not zero", z3.Implies(aa * m != 0, And(aa != 0, m != 0)))
                    # M aa m = cc
                    V.prove_eq(f"{tag}: the other root", F2, z3.RealVal(0), z3.BoolVal(True), [aa * m],
                               [(M, cc / (aa * m))])
                    for ux2 in (True, False):
                        dx2, dy2 = a[1] + a[3] * M, b[1] + b[3] * M
                        cux2 = absv(dx2) >= absv(dy2)
                        num, den2 = (sub[0][1] - a[0] - a[2] * M, dx2) if ux2 else (sub[1][1] - b[0] - b[2] * M, dy2)
                        t2 = f"{tag}, other root by {'x' if ux2 else 'y'}"
                        # Jacobian there, times its denominator
                        J2 = jac(L, M)
                        V.prove_eq(f"{t2}: opposite Jacobian at the other root", J2, -J, z3.BoolVal(True), [aa * m, z3.substitute(den2, (M, cc / (aa * m)))],
                                   [(L, num / den2), (M, cc / (aa * m))])
                        out2 = Not(And(L >= 0, L <= 1, M >= 0, M <= 1))
                        u, v = z3.Reals("J* J2")
                        V.prove_lin(f"{t2}: it lies outside the cell",
                                    z3.Implies(And(u * sJ > 0, z3.Implies(Not(out2), v * sJ > 0), v == -u), out2))
                        for df in (True, False):
                            h2 = And(hyp, cux2 if ux2 else Not(cux2), den2 != 0 if df else den2 == 0)
                            W = Rewriter(cx, h2, nonzero=[bb - J, aa, m, aa * m, den] + ([den2] if df else []), signs=signs,
                                         targets=[(m, m), (l, l), (cc / (aa * m), M)] + ([(num / den2, L)] if df else []),
                                         **common)
                            V.prove_rw(f"{t2}, {'finite' if df else 'infinite'}: logical coordinates of the point", W, h2,
                                       res, (l, m), [out2] if df else [])
    V.verify(run, post, None)


def _grid(V, cx, center=False):
    from pyvc.arr import sym_array
    from pyvc.verify import dim
    ny, nx = dim("Ny", 2), dim("Nx", 2)
    lon, lat = sym_array("lon", (ny, nx), "f"), sym_array("lat", (ny, nx), "f")
    cx.ghost.update(ny=ny, nx=nx, lon=lon, lat=lat)
    return V.mod("gridded.pysgrid.sgrid").SGrid(node_lon=lon, node_lat=lat)


def contract_coeffs(V):
    """SGrid._compute_transform_coeffs, any grid size: in every cell the two bilinear maps take the corners of the unit
    square to the four nodes of that cell (row along m, column along l)"""
    from pyvc.core import And, zi
    V.functions = ["SGrid._compute_transform_coeffs", "SGrid.get_variable_by_index"]

    def run(cx):
        g = _grid(V, cx)
        g._compute_transform_coeffs()
        return g

    def post(V, p):
        cx, gh = p.ctx, p.ctx.ghost
        if p.outcome == "raise":
            V.prove("no exception", False)
            return
        g = p.value
        for nm, co, node in (("x", g._l_coeffs, gh["lon"]), ("y", g._m_coeffs, gh["lat"])):
            V.prove(f"{nm}: one set of coefficients per cell", And(len(co.sshape) == 3, zi(co.sshape[0]) == gh["ny"] - 1,
                                                               zi(co.sshape[1]) == gh["nx"] - 1, zi(co.sshape[2]) == 4))
            r, c = cx.fresh_index(gh["ny"] - 1, "r").e, cx.fresh_index(gh["nx"] - 1, "c").e
            a = [co.at(r, c, q) for q in range(4)]
            rd = node.reader()
            for i in (0, 1):
                for j in (0, 1):
                    t = a[0].e + (a[1].e if j else 0) + (a[2].e if i else 0) + (a[3].e if i and j else 0)
                    V.prove(f"{nm}: corner {i},{j} maps to node (row+{i}, column+{j})", t == rd((r + i, c + j)).e)
            V.prove(f"{nm}: defined", And(*[z3.Not(x.nan) for x in a if x.nan is not None]))
    V.verify(run, post, None)



_PADS = {None: (0, 0), "none": (0, 0), "low": (1, 1), "high": (0, 1), "both": (1, 2)}       # offset, extra cells


def _interp_setup(V, cx, loc, pad, lead, masked):
    """grid with given coefficients, cell lookup and x_to_l by contract, a variable on `loc` padded as `pad`"""
    from pyvc.arr import SMa, new, sym_array
    from pyvc.core import And, Not, Sym, lift, zi
    from pyvc.verify import dim
    g = _grid(V, cx)
    gh = cx.ghost
    n = dim("n")
    P = sym_array("P", (n, 2), "f")
    I = z3.IntSort()
    Rr = z3.RealSort()
    row, col = z3.Function("ROW", Rr, Rr, I), z3.Function("COL", Rr, Rr, I)
    LF, MF = [z3.Function(nm, *([Rr] * 10), Rr) for nm in ("LF", "MF")]
    ny, nx = gh["ny"], gh["nx"]
    lc, mc = sym_array("lco", (ny - 1, nx - 1, 4), "f"), sym_array("mco", (ny - 1, nx - 1, 4), "f")
    g._l_coeffs, g._m_coeffs = lc, mc
    gh.update(n=n, P=P, row=row, col=col, LF=LF, MF=MF, lc=lc, mc=mc)

    def cell(x, y):
        r, c = row(x, y), col(x, y)
        return r, c, z3.Or(And(r == -1, c == -1), And(r >= 0, r < ny - 1, c >= 0, c < nx - 1))

    def locate_faces(points, *a, **k):
        gh["located"] = points
        rd = points.reader()

        def fn(i):
            x, y = rd((i[0], 0)).e, rd((i[0], 1)).e
            r, c, ok = cell(x, y)
            cx.fact(ok)
            q = i[1]
            return Sym("i", (r if q == 0 else c) if isinstance(q, int) else z3.If(zi(q) == 0, r, c))
        d = new((points.sshape[0], 2), "i", fn)
        rd2 = d.reader()
        return SMa(d.copy(), new(d.sshape, "b", lambda i: Sym("b", rd2(i).e < 0)))

    def x_to_l(x, y, a, b):
        rx, ry, ra, rb = [t.reader() for t in (x, y, a, b)]

        def mkf(F):
            def fn(i):
                return Sym("f", F(rx(i).e, ry(i).e, *[ra((i[0], q)).e for q in range(4)], *[rb((i[0], q)).e for q in range(4)]))
            return new(x.sshape, "f", fn)
        return mkf(LF), mkf(MF)
    g.locate_faces = locate_faces
    g.x_to_l = x_to_l
    dy, dx = {"node": (0, 0), "center": (-1, -1), "edge1": (-1, 0), "edge2": (0, -1)}[loc]
    (oy, ey), (ox, ex) = [_PADS[q] for q in pad]
    sh = (ny + dy + ey, nx + dx + ex)
    if lead:
        T = dim("T", 1)
        t = cx.fresh_index(T, "t").e
        sh = (T,) + sh
        gh.update(t=t)
    v = sym_array("v", sh, "f")
    if masked:
        v = SMa(v, sym_array("v_mask", sh, "b"))
    gh.update(v=v, off=(oy, ox))
    return g


def _at(cx, k):
    from pyvc.arr import SMa
    gh = cx.ghost
    rd = gh["P"].reader()
    x, y = rd((k, 0)).e, rd((k, 1)).e
    r, c = gh["row"](x, y), gh["col"](x, y)
    a = [gh["lc"].reader()((r, c, z3.IntVal(q))).e for q in range(4)]
    b = [gh["mc"].reader()((r, c, z3.IntVal(q))).e for q in range(4)]
    l, m = gh["LF"](x, y, *a, *b), gh["MF"](x, y, *a, *b)

    def val(dr, dc):
        """value of the variable at the padded index of the cell (+offset) and whether it is masked"""
        i = (r + gh["off"][0] + dr, c + gh["off"][1] + dc)
        i = (gh["t"],) + i if "t" in gh else i
        v = gh["v"]
        d = v.data if isinstance(v, SMa) else v
        mk = v._mask.reader()(i).e if getattr(v, "_mask", None) is not None else z3.BoolVal(False)
        return d.reader()(i).e, mk
    return r, c, l, m, val


def contract_node(V):
    """interpolate_var_to_points, data on nodes: bilinear blend of the four nodes of the cell that contains the point with
    the point's logical coordinates, masked nodes counting as zero; masked off the grid and where all four are masked"""
    _interp(V, "node", [((None, None), "none"), (("none", "low"), "t"), (("both", "high"), "none"),
                       ((None, None), "unmask"), ((None, None), "given"), ((None, None), "default")])


def contract_center(V):
    """interpolate_var_to_points, data on cell centres: the value of the cell that contains the point, masked where that
    value is masked and off the grid"""
    _interp(V, "center", [((None, None), "none"), (("both", "both"), "t"), (("low", "high"), "none"), ((None, None), "unmask")])


def contract_edge(V):
    """interpolate_var_to_points, data on edges: linear from edge to edge across the cell in the direction of that edge
    set, masked edges counting as zero (the default), masked off the grid"""
    _interp(V, "edge1", [((None, None), "none"), (("both", None), "t")])
    _interp(V, "edge2", [((None, None), "t"), ((None, "both"), "none")])


def contract_masked_edge(V):
    """the same with a center mask: an edge between a land and a water cell counts as masked"""
    _interp(V, "edge1", [(("both", None), "cm-both"), ((None, None), "cm-none")])
    _interp(V, "edge2", [((None, "low"), "cm-low"), ((None, None), "cm-both")])


def contract_compute_interpolant(V):
    """compute_interpolant for any number of points: the weighted sum with masked values counting as zero ('zero', the
    default), as the negative of the other value ('mirror'), or masking the point ('mask'); masked weights mask the point;
    the arguments are left alone"""
    from pyvc.arr import SMa, sym_array
    from pyvc.core import And, Not, zi
    from pyvc.verify import dim, implies
    V.functions = ["SGrid.compute_interpolant", "SGrid.mirror_mask_values"]
    for mode, via in (("zero", "arg"), ("zero", "default"), ("mask", "arg"), ("mask", "attr"), ("mirror", "arg"), ("zero", "4")):
        for masked in (True, False):
            for ma in (True, False):
                if mode == "mirror" and not masked:
                    continue
                w = 4 if via == "4" else 2

                def run(cx):
                    n = dim("n")
                    d, a = sym_array("v", (n, w), "f"), sym_array("al", (n, w), "f")
                    cx.ghost.update(n=n, d=d, a=a)
                    v = SMa(d.copy(), sym_array("vm", (n, w), "b")) if masked else d.copy()
                    al = SMa(a.copy(), sym_array("am", (n, w), "b")) if ma else a.copy()
                    cx.ghost.update(v=v, al=al)
                    cls = V.mod("gridded.pysgrid.sgrid").SGrid
                    g = cls(masked_interpolant_behavior="mask") if via == "attr" else cls()
                    kw = dict(mask_behavior=mode) if via in ("arg", "4") else {}
                    return g.compute_interpolant(v, al, check_alphas=False, **kw)

                def post(V, p):
                    cx, gh = p.ctx, p.ctx.ghost
                    tag = f"{mode}/{via},masked={masked},masked weights={ma}"
                    if p.outcome == "raise":
                        V.prove(f"{tag}: no exception", False)
                        return
                    R = p.value
                    V.prove(f"{tag}: one value per point", And(R.ndim == 1, zi(R.sshape[0]) == gh["n"]))
                    k = cx.fresh_index(gh["n"], "k").e
                    e = (R.data if isinstance(R, SMa) else R).at(k)
                    mk = R._mask.at(k).e if isinstance(R, SMa) and R._mask is not None else z3.BoolVal(False)
                    qs = [(k, z3.IntVal(q)) for q in range(w)]
                    F = z3.BoolVal(False)
                    dv, av = [gh["d"].reader()(q).e for q in qs], [gh["a"].reader()(q).e for q in qs]
                    vm = [cx.inputs["vm"][1].reader()(q).e if masked else F for q in qs]
                    am = [cx.inputs["am"][1].reader()(q).e if ma else F for q in qs]
                    cx.saturate()
                    anyv, alla, anya = z3.Or(*vm), And(*am), z3.Or(*am)
                    # a masked weight marks a point off the grid: both (all) weights of a point are masked together
                    reg = z3.Or(Not(anya), alla)
                    if mode == "mask":
                        V.prove(f"{tag}: masked iff a value is or the weights are", implies(reg, mk == z3.Or(anyv, alla)))
                        want = sum(x * y for x, y in zip(dv, av))
                    else:
                        V.prove(f"{tag}: masked iff the weights are", implies(reg, mk == alla) if mode == "zero" else
                                implies(And(reg, Not(And(*vm))), mk == alla))
                        if mode == "zero":
                            want = sum(z3.If(m, 0, x * y) for m, x, y in zip(vm, dv, av))
                        else:
                            want = z3.If(vm[0], -dv[1], dv[0]) * av[0] + z3.If(vm[1], -dv[0], dv[1]) * av[1]
                    hyp = And(reg, Not(mk), Not(alla)) if mode != "mirror" else And(reg, Not(mk), Not(alla), Not(And(*vm)))
                    V.prove_false(f"{tag}: no NaN", e.nan, hyp)
                    V.prove_eq(f"{tag}: value", e, want, hyp)
                    for q in qs:
                        V.prove(f"{tag}: arguments unchanged", And(
                            (gh["v"].data if masked else gh["v"]).at(*q).e == gh["d"].at(*q).e,
                            (gh["al"].data if ma else gh["al"]).at(*q).e == gh["a"].at(*q).e,
                            gh["v"]._mask.at(*q).e == cx.inputs["vm"][1].at(*q).e if masked else True))
                    V.cover(f"{tag}: reachable", hyp)
                V.verify(run, post, None)


def _interp(V, loc, variants):
    from pyvc.arr import SMa
    from pyvc.core import And, Not, zi
    from pyvc.verify import implies
    V.functions = ["SGrid.interpolate_var_to_points", "SGrid.geo_to_logical", "SGrid.get_variable_by_index",
                   "SGrid.get_variable_at_index", "SGrid.apply_padding_to_idxs"]
    V.assumes = ["SGrid.locate_faces by contract (contract of C11)", "SGrid.x_to_l by contract (contract_x_to_l)"]
    for pad, lead in variants:
        for masked in (False, True):
            def run(cx):
                g = _interp_setup(V, cx, loc, pad, lead == "t", masked)
                gh = cx.ghost
                kw = {}
                if lead.startswith("cm-"):
                    from pyvc.arr import sym_array
                    o, e = _PADS[lead[3:]]
                    gh["cmsh"] = (gh["ny"] - 1 + e, gh["nx"] - 1 + e)
                    gh["cm"] = g.center_mask = sym_array("cm", gh["cmsh"], "b")
                    g.face_padding = (lead[3:],) * 2
                if lead == "t":
                    from pyvc.core import Sym
                    kw["slices"] = (Sym("i", gh["t"]),)
                if lead == "unmask":
                    fv = cx.fresh("fill", "f")
                    gh["fill"] = fv.e
                    kw.update(unmask=True, fill_value=fv)
                if lead == "given":
                    from pyvc.arr import sym_array
                    gh["alphas"] = sym_array("alphas", (gh["n"], 2), "f")
                    kw.update(indices=g.locate_faces(gh["P"]), alphas=gh["alphas"])
                if lead != "default":
                    kw.update(location=loc, padding=pad)
                elif masked:
                    kw.update(location=loc)
                return g.interpolate_var_to_points(gh["P"], gh["v"], **kw)

            def post(V, p):
                cx, gh = p.ctx, p.ctx.ghost
                tag = f"{loc},pad={pad},lead={lead},masked={masked}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                R = p.value
                V.prove(f"{tag}: one value per point", zi(R.sshape[0]) == gh["n"])
                k = cx.fresh_index(gh["n"], "k").e
                r, c, l, m, val = _at(cx, k)
                i = (k,) if R.ndim == 1 else (k, 0)
                e = (R.data if isinstance(R, SMa) else R).at(*i)
                mk = R._mask.at(*i).e if getattr(R, "_mask", None) is not None else z3.BoolVal(False)
                cx.saturate()
                if lead == "given":
                    l, m = [gh["alphas"].reader()((k, z3.IntVal(q))).e for q in (0, 1)]
                if lead == "unmask":
                    V.prove(f"{tag}: plain result", Not(isinstance(R, SMa)))
                    none = And(*[val(*q)[1] for q in ([(0, 0), (0, 1), (1, 0), (1, 1)] if loc == "node" else [(0, 0)])])
                    V.prove(f"{tag}: fill value off the grid and where everything is masked",
                            implies(z3.Or(r == -1, none), e.e == gh["fill"]))
                    mk = z3.Or(r == -1, none)
                V.prove(f"{tag}: masked off the grid", implies(r == -1, mk))
                if loc == "node":
                    W = {(0, 0): (1 - l) * (1 - m), (1, 0): m * (1 - l), (1, 1): l * m, (0, 1): l * (1 - m)}
                    vs = {q: val(*q) for q in W}
                    V.prove(f"{tag}: masked iff all nodes are", implies(r >= 0, mk == And(*[v[1] for v in vs.values()])))
                    want = sum(z3.If(vs[q][1], 0, W[q] * vs[q][0]) for q in W)
                elif loc != "center":
                    v1, v2 = val(0, 0), val(0, 1) if loc == "edge1" else val(1, 0)
                    w = l if loc == "edge1" else m
                    if "cm" in gh:
                        o = _PADS[lead[3:]][0]
                        sh = gh["cmsh"]
                        crd = gh["cm"].reader()

                        def dry(dr, dc):
                            q = [z3.If(t < 0, 0, z3.If(t >= s, s - 1, t)) for t, s in ((r + o + dr, sh[0]), (c + o + dc, sh[1]))]
                            return crd(tuple(q)).e
                        st = (0, 1) if loc == "edge1" else (1, 0)
                        v1 = (v1[0], z3.Or(v1[1], dry(0, 0) != dry(-st[0], -st[1])))
                        v2 = (v2[0], z3.Or(v2[1], dry(0, 0) != dry(*st)))
                    V.prove(f"{tag}: not masked on the grid", implies(r >= 0, Not(mk)))
                    want = z3.If(v1[1], 0, (1 - w) * v1[0]) + z3.If(v2[1], 0, w * v2[0])
                else:
                    v = val(0, 0)
                    V.prove(f"{tag}: masked iff the value is", implies(r >= 0, mk == v[1]))
                    want = v[0]
                hyp = And(r >= 0, Not(mk))
                V.prove_false(f"{tag}: no NaN", e.nan, hyp)
                V.prove_eq(f"{tag}: value", e, want, hyp)
                V.cover(f"{tag}: on the grid", r >= 0)
                V.cover(f"{tag}: off the grid", r == -1)
            V.verify(run, post, None)


CONTRACTS = [contract_x_to_l, contract_coeffs, contract_node, contract_center, contract_edge, contract_masked_edge,
             contract_compute_interpolant]
