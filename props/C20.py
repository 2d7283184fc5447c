"""C20: vectors on structured grids: averages at cell centers, rotation, speed, direction of the grid."""
import itertools

import numpy as np
import z3

from . import C15

ID = "C20"
BOUNDED_FUNCTIONS = ["SGridVariable.center_slicing / center_axis, avg_to_cell_center, rotate_vectors, vector_sum, SGrid.angles on real files and arrays"]
PAD = C15.PAD


def topology(conf, ren=lambda x: x):
    """attributes of the topology variable: edges with dimensions of their own, or those of faces and nodes"""
    py, px, p1, p2 = conf["pad"]
    r = ren
    a = dict(cf_role="grid_topology", topology_dimension=2, node_dimensions=f"{r('in')} {r('jn')}",
             face_dimensions=f"{r('ic')}: {r('in')} (padding: {px}) {r('jc')}: {r('jn')} (padding: {py})",
             node_coordinates="lon_n lat_n", face_coordinates="lon_c lat_c")
    if conf["own"]:
        a["edge1_dimensions"] = f"{r('i1')}: {r('in')} {r('j1')}: {r('jn')} (padding: {p1})"
        a["edge2_dimensions"] = f"{r('i2')}: {r('in')} (padding: {p2}) {r('j2')}: {r('jn')}"
    else:
        a["edge1_dimensions"] = f"{r('in')} {r('jc')}: {r('jn')} (padding: {p1})"
        a["edge2_dimensions"] = f"{r('ic')}: {r('in')} (padding: {p2}) {r('jn')}"
    if conf["vertical"]:
        a["vertical_dimensions"] = f"{r('z')}: {r('w')} (padding: none)"
    return a


def edge_dims(conf, k):
    if conf["own"]:
        return (f"j{k}", f"i{k}")
    return ("jc", "in") if k == 1 else ("jn", "ic")


def confs():
    kinds = list(PAD)
    for own in (False, True):
        for i, (a, b) in enumerate(itertools.product(kinds, kinds)):
            # edges that share the dimension of the faces have its padding
            pad = (kinds[(i + 1) % 4], kinds[(i + i // 4) % 4], a, b) if own else (a, b, a, b)
            yield dict(own=own, pad=pad, lead=(0, 1, 2)[i % 3], vertical=i % 3 == 2, order=i % 2, location=i % 4 > 1)


# ------------------------------------------------------------------------------------------------ bounded companion
def oracle_edges(case):
    """data on the edges of a file, trimmed and averaged as the grid says: the mean of the two edges of each cell"""
    import gc
    import os
    import shutil
    import tempfile
    import warnings
    import netCDF4
    from gridded.pysgrid.processing_2d import avg_to_cell_center, rotate_vectors, vector_sum
    from gridded.pysgrid.sgrid import load_grid
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(case["seed"])
    ny, nx = case["size"]           # nodes
    py, px, p1, p2 = case["pad"]
    size = dict(jn=ny, jc=ny - 1 + PAD[py], j1=ny - 1 + PAD[p1], j2=ny, ic=nx - 1 + PAD[px], i1=nx, i2=nx - 1 + PAD[p2], t=2, z=3, w=4)
    size["in"] = nx
    ren = case["dims"]
    r = lambda x: ren.get(x, x)
    lead = ("t", "z")[:case["lead"]]
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "a.nc")
        lon, lat = C15_coords(rng, size["jc"], size["ic"], case["where"])
        full = {}
        with netCDF4.Dataset(p, "w") as nc:
            for k in sorted(size):
                if k in ("jn", "in", "jc", "ic", "t", "z", "w") or case["own"]:
                    nc.createDimension(r(k), size[k])
            for n, dims in (("lon_n", ("jn", "in")), ("lat_n", ("jn", "in")), ("lon_c", ("jc", "ic")), ("lat_c", ("jc", "ic"))):
                v = nc.createVariable(n, "f8", tuple(map(r, dims)))
                v[:] = {"lon_c": lon, "lat_c": lat}.get(n, rng.uniform(-9, 9, [size[x] for x in dims]))
            for name in (("u", "v"), ("v", "u"))[case["order"]]:
                dims = lead + edge_dims(case, 1 if name == "u" else 2)
                v = nc.createVariable(name, "f8", tuple(map(r, dims)), fill_value=-999.)
                sh = [size[x] for x in dims]
                full[name] = np.ma.MaskedArray(np.round(rng.uniform(-9, 9, sh), 3), rng.random(sh) < (.15 if case["masked"] else 0))
                v[:] = full[name]
                v.grid = "grid"
                if case["location"]:
                    v.location = "edge1" if name == "u" else "edge2"
            t = nc.createVariable("grid", "i4", ())
            for k, x in topology(case, r).items():
                setattr(t, k, x)
        g = load_grid(p)
        rec = (1, 2)[:case["lead"]]
        got = {}
        for name, pad, k in (("u", p1 if case["own"] else py, 1), ("v", p2 if case["own"] else px, 2)):
            var = getattr(g, name)
            data = var[var.center_slicing][rec]
            keep = np.ma.copy(data)
            got[name] = c = avg_to_cell_center(data, var.center_axis)
            if var.location != f"edge{k}":
                return f"{case}: {name} is at {var.location}"
            if c.shape != (ny - 1, nx - 1):
                return f"{case}: averages of {name} have shape {c.shape} for {ny - 1} x {nx - 1} cells"
            s = 1 if pad in ("low", "both") else 0
            f = full[name][rec]
            for i in range(ny - 1):
                for j in range(nx - 1):
                    a, b = (f[i + s, j], f[i + s, j + 1]) if k == 1 else (f[i, j + s], f[i + 1, j + s])
                    m = a is np.ma.masked or b is np.ma.masked
                    if np.ma.getmaskarray(c)[i, j] != m:
                        return f"{case}: {name} of cell {i, j} is {'' if not m else 'not '}masked"
                    if not m and abs(c[i, j] - (a + b) / 2) > 1e-12:
                        return f"{case}: {name} of cell {i, j} is {c[i, j]} between {a} and {b}"
            if not np.array_equal(np.ma.getmaskarray(keep), np.ma.getmaskarray(data)) or not np.ma.allequal(keep, data):
                return f"{case}: the data were changed by averaging"
        ang = rng.uniform(-7, 7, (ny - 1, nx - 1))
        u, v = got["u"], got["v"]
        keep = [np.ma.copy(x) for x in (u, v, ang)]
        e, n = rotate_vectors(u, v, ang)
        sp = vector_sum(u, v)
        for x, y in zip(keep, (u, v, ang)):
            if not np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)) or not np.ma.allequal(x, y):
                return f"{case}: arguments changed"
        for i in range(ny - 1):
            for j in range(nx - 1):
                m = np.ma.getmaskarray(u)[i, j] or np.ma.getmaskarray(v)[i, j]
                for x in (e, n, sp):
                    if np.ma.getmaskarray(x)[i, j] != m:
                        return f"{case}: mask of cell {i, j}"
                if not m:
                    w = complex(u[i, j], v[i, j])
                    z = w * np.exp(1j * ang[i, j])
                    if abs(complex(e[i, j], n[i, j]) - z) > 1e-9:
                        return f"{case}: {w} rotated by {ang[i, j]} is {e[i, j], n[i, j]}"
                    if abs(sp[i, j] - abs(w)) > 1e-9:
                        return f"{case}: sum of {w} is {sp[i, j]}"
        msg = check_angles(g.angles, lon, lat) if size["ic"] > 1 else None
        if msg:
            return f"{case}: {msg}"
        del g, var, data
        gc.collect()
    finally:
        shutil.rmtree(d)
    return None


def C15_coords(rng, ny, nx, where):
    """a curvilinear block of centers at a place, rotated"""
    lon0, lat0, rot, scale = where
    x, y = np.meshgrid(np.arange(nx) * scale, np.arange(ny) * scale)
    x, y = x + rng.uniform(-.2, .2, x.shape) * scale, y + rng.uniform(-.2, .2, x.shape) * scale
    return lon0 + x * np.cos(rot) - y * np.sin(rot), lat0 + x * np.sin(rot) + y * np.cos(rot)


def check_angles(ang, lon, lat):
    """the direction, counter-clockwise from east, in which the great circle to the next center of the row starts"""
    ang = np.asarray(ang[:])
    if ang.shape != lon.shape:
        return f"angles of shape {ang.shape}"
    if not np.array_equal(ang[:, -1], ang[:, -2]):
        return "angles of the last column"
    for i in range(lon.shape[0]):
        for j in range(lon.shape[1] - 1):
            (a, b), (c, d) = np.radians([lon[i, j], lat[i, j]]), np.radians([lon[i, j + 1], lat[i, j + 1]])
            q = np.array([np.cos(d) * np.cos(c), np.cos(d) * np.sin(c), np.sin(d)])
            east = np.array([-np.sin(a), np.cos(a), 0])
            north = np.array([-np.sin(b) * np.cos(a), -np.sin(b) * np.sin(a), np.cos(b)])
            w = np.array([q @ east, q @ north])
            w /= np.hypot(*w)
            if abs(np.cos(ang[i, j]) - w[0]) > 1e-6 or abs(np.sin(ang[i, j]) - w[1]) > 1e-6:
                return f"angle {ang[i, j]} of cell {i, j}, from {lon[i, j], lat[i, j]} to {lon[i, j + 1], lat[i, j + 1]}"
    return None


def oracle_arrays(case):
    """averages, pairs, sums of arrays of other kinds, each called twice"""
    from gridded.pysgrid.processing_2d import avg_to_cell_center, rotate_vectors, vector_sum
    from gridded.pysgrid.utils import calculate_angle_from_true_east, calculate_bearing, pair_arrays
    rng = np.random.default_rng(case["seed"])
    sh = tuple(case["shape"])
    mk = {"f8": lambda: rng.uniform(-9, 9, sh), "f4": lambda: rng.uniform(-9, 9, sh).astype("f4"), "i4": lambda: rng.integers(-90, 90, sh).astype("i4")}[case["dtype"]]
    a, b = mk(), mk()
    tol = 1e-4 if case["dtype"] == "f4" else 1e-9
    A, B = a.astype(float), b.astype(float)
    for again in (False, True):
        for ax in (0, 1):
            w = (A[1:] + A[:-1]) / 2 if ax == 0 else (A[:, 1:] + A[:, :-1]) / 2
            g = avg_to_cell_center(a, ax)
            if g.shape != w.shape or np.abs(g - w).max(initial=0) > tol:
                return f"{case}: average along {ax} of {a.tolist()} is {g.tolist()}"
        g = pair_arrays(a, b)
        if g.shape != sh + (2,) or not np.array_equal(g[..., 0], A) or not np.array_equal(g[..., 1], B):
            return f"{case}: pairs {g.tolist()}"
        c = A / 3
        g = pair_arrays(a, c)
        if not np.array_equal(g[..., 0], A) or not np.array_equal(g[..., 1], c):
            return f"{case}: pairs {g.tolist()} with other numbers"
        g = vector_sum(a, b)
        if g.shape != sh or np.ma.getmaskarray(g).any() or np.abs(g - np.hypot(A, B)).max() > tol * 100:
            return f"{case}: sums {g.tolist()}"
        e, n = rotate_vectors(a, b, B)
        z = (A + 1j * B) * np.exp(1j * B)
        if np.abs(e - z.real).max() > tol * 100 or np.abs(n - z.imag).max() > tol * 100:
            return f"{case}: rotated {e.tolist(), n.tolist()}"
        if not np.array_equal(a, A) or not np.array_equal(b, B):
            return f"{case}: arguments changed"
    lon, lat = C15_coords(rng, *sh, case["where"])
    if sh[1] > 1:
        P = np.stack([lon, lat], -1)
        keep = P.copy()
        be = calculate_bearing(P[:, :-1], P[:, 1:])
        an = calculate_angle_from_true_east(P[:, :-1], P[:, 1:])
        if (be < 0).any() or (be > 360).any() or np.abs(np.exp(1j * an[:, :-1]) - np.exp(1j * np.radians(90 - be))).max() > 1e-9:
            return f"{case}: bearings {be.tolist()}"
        if not np.array_equal(P, keep):
            return f"{case}: points changed"
        return check_angles(an, lon, lat)
    return None


def bounded(B):
    rng = B.rng
    kinds = list(PAD)

    def where():
        return (rng.choice([-170, -70, 0, 100, 179.5]), rng.choice([-40, 0, 30, 75]), rng.choice([0, .5, 1.6, 3, 4.5]), rng.choice([.01, .5, 2]))
    for c in range(B.n(120, 1500)):
        own = rng.random() < .5
        py, px, a, b = (rng.choice(kinds) for _ in range(4))
        ren = {} if rng.random() < .5 else {"jn": "eta_psi", "in": "xi_psi", "jc": "eta_rho", "ic": "xi_rho", "j1": "eta_u", "i1": "xi_u", "j2": "eta_v", "i2": "xi_v"}
        B.case("edges", oracle_edges, dict(seed=rng.getrandbits(30), own=own, pad=(py, px, a, b) if own else (py, px, py, px), lead=rng.randint(0, 2),
                                           vertical=rng.random() < .4, order=rng.randint(0, 1), location=rng.random() < .5, size=rng.choice([(3, 4), (2, 2), (4, 3), (3, 3), (5, 2)]),
                                           dims=ren, masked=rng.random() < .5, where=where()))
    for c in range(B.n(120, 1200)):
        B.case("arrays", oracle_arrays, dict(seed=rng.getrandbits(30), shape=rng.choice([(1, 1), (2, 3), (3, 2), (4, 4), (1, 5), (5, 1), (3, 3)]), dtype=rng.choice(["f8", "f4", "i4"]), where=where()))


# ------------------------------------------------------------------------------------------------ contracts
def contract_edges(V):
    """the trimming and the axis that a grid names for a variable on its edges, given to avg_to_cell_center: the mean of the two edges of each cell"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, Or, zi
    from pyvc.ncfile import build
    from pyvc.verify import dim, implies
    V.functions = ["SGrid.load_grid", "SGridVariable.create_variable", "determine_variable_slicing", "infer_avg_axes", "infer_variable_location", "does_intersection_exist",
                   "avg_to_cell_center", "parse_padding", "SGrid.all_padding / get_all_face_padding / get_all_edge_padding"]
    V.assumes = ["netCDF4: a variable holds what was written to it (pyvc/ncfile.py)"]
    for conf in confs():
        for masked in (False, True):
            def run(cx):
                S, P2 = V.mod("gridded.pysgrid.sgrid"), V.mod("gridded.pysgrid.processing_2d")
                Dataset, _ = build(V.mod("gridded.utilities").nc4)
                S.Dataset = Dataset
                py, px, p1, p2 = conf["pad"]
                n = {"jn": dim("JN", 2), "in": dim("IN", 2), "t": dim("T", 1), "z": dim("Z", 1)}
                n.update(jc=n["jn"] + (PAD[py] - 1), ic=n["in"] + (PAD[px] - 1), w=n["z"] + 1)
                if conf["own"]:
                    n.update(j1=n["jn"] + (PAD[p1] - 1), i1=n["in"] + 0, j2=n["jn"] + 0, i2=n["in"] + (PAD[p2] - 1))
                ds = Dataset()
                for k, s in n.items():
                    ds.createDimension(k, s)
                for nm, dims in (("lon_n", ("jn", "in")), ("lat_n", ("jn", "in")), ("lon_c", ("jc", "ic")), ("lat_c", ("jc", "ic")), ("angle", ("jc", "ic"))):
                    ds.createVariable(nm, np.float64, dims)[:] = sym_array(nm, tuple(n[x] for x in dims), "f")
                lead = ("t", "z")[:conf["lead"]]
                val, msk = {}, {}
                for nm in (("u", "v"), ("v", "u"))[conf["order"]]:
                    dims = lead + edge_dims(conf, 1 if nm == "u" else 2)
                    v = ds.createVariable(nm, np.float64, dims)
                    sh = tuple(n[x] for x in dims)
                    val[nm] = sym_array(nm, sh, "f")
                    msk[nm] = sym_array(nm + "_m", sh, "b") if masked else None
                    v[:] = val[nm]
                    v.grid = "grid"
                    if conf["location"]:
                        v.location = "edge1" if nm == "u" else "edge2"
                t = ds.createVariable("grid", np.int32, ())
                for k, x in topology(conf).items():
                    setattr(t, k, x)
                g = S.SGrid.load_grid(ds)
                rec = tuple(cx.fresh_index(n[x], "r") for x in lead)
                cx.ghost.update(n=n, val=val, msk=msk, rec=rec, g=g)
                out, arg = {}, {}
                for nm in "uv":
                    var = getattr(g, nm)
                    from pyvc.arr import SMa
                    a = SMa(val[nm], msk[nm]) if masked else val[nm]
                    a = a[var.center_slicing]
                    arg[nm] = a = a[rec] if rec else a
                    out[nm] = P2.avg_to_cell_center(a, var.center_axis)
                return out

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                tag = f"edges {'of their own' if conf['own'] else 'shared'}, padding {'/'.join(conf['pad'])}, {conf['lead']} leading dimensions{', masked' if masked else ''}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                n, py, px = q["n"], conf["pad"][0], conf["pad"][1]
                p1, p2 = conf["pad"][2:] if conf["own"] else (py, px)
                i, j = cx.fresh_index(n["jn"] - 1, "i").e, cx.fresh_index(n["in"] - 1, "j").e
                rec = tuple(zi(x) for x in q["rec"])
                for nm, pad in (("u", p1), ("v", p2)):
                    r = p.value[nm]
                    V.prove(f"{tag}: location of {nm}", getattr(q["g"], nm).location == ("edge1" if nm == "u" else "edge2"))
                    V.prove(f"{tag}: one value of {nm} for each cell", And(len(r.sshape) == 2, zi(r.sshape[0]) == zi(n["jn"]) - 1, zi(r.sshape[1]) == zi(n["in"]) - 1))
                    s = 1 if pad in ("low", "both") else 0
                    ab = [(i + s, j), (i + s, j + 1)] if nm == "u" else [(i, j + s), (i + 1, j + s)]
                    F, M = q["val"][nm], q["msk"][nm]
                    m = Or(*[M.F(*rec, *x) for x in ab]) if masked else z3.BoolVal(False)
                    V.prove(f"{tag}: {nm} masked exactly if one of the edges is", (r.mat(i, j) if hasattr(r, "mat") else z3.BoolVal(False)) == m)
                    V.prove(f"{tag}: {nm} is the mean of the edges of the cell", implies(Not(m), r.at(i, j).e * 2 == F.F(*rec, *ab[0]) + F.F(*rec, *ab[1])))
                    V.prove(f"{tag}: data of {nm} unchanged", F.at(*rec, *ab[0]).e == F.F(*rec, *ab[0]))
                V.cover(f"{tag}: value", Not(m))
            V.verify(run, post, None)


def contract_vectors(V):
    """vector_sum, rotate_vectors, avg_to_cell_center, pair_arrays: element by element, masks included, arguments unchanged"""
    from pyvc.arr import SMa, sym_array
    from pyvc.core import And, Not, Or, zi
    from pyvc.verify import dim, implies
    V.functions = ["vector_sum", "rotate_vectors", "avg_to_cell_center", "pair_arrays"]
    V.assumes = ["sin, cos: functions with sin^2 + cos^2 = 1", "precondition: no NaN"]
    for kx, ky, kind in itertools.product(("plain", "masked"), ("plain", "masked"), ("f", "i")):
        def run(cx):
            P2, U = V.mod("gridded.pysgrid.processing_2d"), V.mod("gridded.pysgrid.utils")
            ny, nx = dim("ny", 1), dim("nx", 1)
            x, y, a = sym_array("x", (ny, nx), kind), sym_array("y", (ny, nx), kind), sym_array("a", (ny, nx), "f")
            mx = sym_array("mx", (ny, nx), "b") if kx == "masked" else None
            my = sym_array("my", (ny, nx), "b") if ky == "masked" else None
            X, Y = SMa(x, mx) if mx is not None else x, SMa(y, my) if my is not None else y
            cx.ghost.update(x=x, y=y, a=a, mx=mx, my=my, sh=(ny, nx), X=X, Y=Y)
            out = [P2.vector_sum(X, Y), *P2.rotate_vectors(X, Y, a), P2.avg_to_cell_center(X, 0), P2.avg_to_cell_center(X, 1)]
            return out + ([U.pair_arrays(x, y), U.pair_arrays(x, a)] if kx == ky == "plain" else [None, None])

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"{kx} and {ky}, {'numbers' if kind == 'f' else 'integers'}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            from pyvc.core import Sym, scalar_un, toreal
            ny, nx = (zi(d) for d in q["sh"])
            i, j = cx.fresh_index(q["sh"][0], "i").e, cx.fresh_index(q["sh"][1], "j").e
            sm, e, n, a0, a1, pr, pa = p.value
            F = z3.BoolVal(False)
            mat = lambda r, *ix: r.mat(*ix) if hasattr(r, "mat") else F
            MX = lambda *ix: q["mx"].F(*ix) if q["mx"] is not None else F
            MY = lambda *ix: q["my"].F(*ix) if q["my"] is not None else F
            X, Y = (lambda *ix: toreal(q["x"].at(*ix))), (lambda *ix: toreal(q["y"].at(*ix)))
            xv, yv = X(i, j), Y(i, j)
            c, s = (scalar_un(f, q["a"].at(i, j)).e for f in ("cos", "sin"))
            m = Or(MX(i, j), MY(i, j))
            for nm, r in (("sum", sm), ("x component", e), ("y component", n)):
                V.prove(f"{tag}: shape of the {nm}", And(len(r.sshape) == 2, zi(r.sshape[0]) == ny, zi(r.sshape[1]) == nx))
                V.prove(f"{tag}: {nm} masked where a part is", mat(r, i, j) == m)
            V.prove(f"{tag}: sum", implies(Not(m), And(toreal(sm.at(i, j)) >= 0, toreal(sm.at(i, j)) * toreal(sm.at(i, j)) == xv * xv + yv * yv)))
            V.prove(f"{tag}: x component", implies(Not(m), toreal(e.at(i, j)) == xv * c - yv * s))
            V.prove(f"{tag}: y component", implies(Not(m), toreal(n.at(i, j)) == xv * s + yv * c))
            for ax, r in ((0, a0), (1, a1)):
                di, dj = (1, 0) if ax == 0 else (0, 1)
                V.prove(f"{tag}: shape of averages along {ax}", And(len(r.sshape) == 2, zi(r.sshape[0]) == ny - di, zi(r.sshape[1]) == nx - dj))
                k, l = cx.fresh_index(q["sh"][0] - di, "k").e, cx.fresh_index(q["sh"][1] - dj, "l").e
                mm = Or(MX(k, l), MX(k + di, l + dj))
                V.prove(f"{tag}: averages along {ax} masked where a part is", mat(r, k, l) == mm)
                V.prove(f"{tag}: averages along {ax}", implies(Not(mm), toreal(r.at(k, l)) * 2 == X(k, l) + X(k + di, l + dj)))
            if pr is not None:
                V.prove(f"{tag}: pairs", And(len(pr.sshape) == 3, zi(pr.sshape[0]) == ny, zi(pr.sshape[1]) == nx, zi(pr.sshape[2]) == 2,
                                             toreal(pr.at(i, j, 0)) == xv, toreal(pr.at(i, j, 1)) == yv))
                V.prove(f"{tag}: pairs with numbers", And(toreal(pa.at(i, j, 0)) == xv, toreal(pa.at(i, j, 1)) == toreal(q["a"].at(i, j))))
            for nm in "xya":
                V.prove(f"{tag}: {nm} unchanged", q[nm].at(i, j).e == q[nm].F(i, j))
            for nm in ("mx", "my"):
                if q[nm] is not None:
                    V.prove(f"{tag}: mask {nm} unchanged", q[nm].at(i, j).e == q[nm].F(i, j))
            V.cover(f"{tag}: value", Not(m))
        V.verify(run, post, None)


def contract_rotation(V):
    """lemma over the contract of rotate_vectors: a rotation by any angle keeps the length, and rotating back gives the vector"""
    from pyvc.core import And
    x, y, c, s = z3.Reals("x y c s")

    def run(cx):
        return None

    def post(V, p):
        u, v = x * c - y * s, x * s + y * c
        V.prove("lemma: a rotation keeps the length", z3.Implies(c * c + s * s == 1, u * u + v * v == x * x + y * y))
        V.prove("lemma: rotating back", z3.Implies(c * c + s * s == 1, And(u * c + v * s == x, -u * s + v * c == y)))
    V.verify(run, post, None)


def contract_angles(V):
    """SGrid.angles of a file without angles: the direction to the next center of the row, the last column repeated"""
    from pyvc.core import And, Or, scalar_op, scalar_un, lift, toreal, zi
    V.functions = ["SGrid.load_grid", "SGridAttributes.get_angles / get_cell_center_lat_lon", "pair_arrays", "calculate_bearing", "calculate_angle_from_true_east"]
    V.assumes = ["sin, cos, arctan2: functions of their arguments", "netCDF4: a variable holds what was written to it (pyvc/ncfile.py)", "precondition: at least two columns of centers"]
    base = dict(pad=("low", "both", "none", "high"), coords=C15.PLACES, masks=(), angle=False, names=C15.lonlat, late=False, long=False)
    for conf in (base, dict(base, coords=("node", "center"), late=True), dict(base, names=C15.attr, masks=("center",))):
        def run(cx):
            S, G, Dataset, ds = C15._build(V, cx, conf)
            cx.add_pc(zi(cx.ghost["n"]["ic"]) >= 2)
            g = S.SGrid.load_grid(ds)
            return g.angles, g

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"coordinates of {'/'.join(conf['coords'])}{', named as the attributes' if conf['names'] is C15.attr else ''}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            A, g = p.value
            n, vals = q["n"], q["vals"]
            lon, lat = vals["center_lon"], vals["center_lat"]
            V.prove(f"{tag}: an angle for each center", And(len(A.sshape) == 2, zi(A.sshape[0]) == zi(n["jc"]), zi(A.sshape[1]) == zi(n["ic"])))
            i, j = cx.fresh_index(n["jc"], "i").e, cx.fresh_index(n["ic"] - 1, "j").e
            V.cover(f"{tag}: reached")
            w = lift(float(np.pi))
            op = lambda o, a, b: scalar_op(o, a, b)
            rad = lambda a: op("div", op("mul", a, w), lift(180))
            l1, l2, b1, b2 = rad(lon.at(i, j)), rad(lon.at(i, j + 1)), rad(lat.at(i, j)), rad(lat.at(i, j + 1))
            sin, cos = (lambda a: scalar_un("sin", a)), (lambda a: scalar_un("cos", a))
            dl = op("sub", l2, l1)
            x1 = op("mul", sin(dl), cos(b2))
            x2 = op("sub", op("mul", cos(b1), sin(b2)), op("mul", op("mul", sin(b1), cos(b2)), cos(dl)))
            east, T = toreal(op("arctan2", x2, x1)), toreal(op("arctan2", x1, x2))
            a, pi = toreal(A.at(i, j)), w.e
            V.prove(f"{tag}: direction to the next center", Or(z3.IsInt((90 - a * 180 / pi - T * 180 / pi) / 360), z3.IsInt((a - east) / (2 * pi))))
            V.prove(f"{tag}: last column", toreal(A.at(i, zi(n["ic"]) - 1)) == toreal(A.at(i, zi(n["ic"]) - 2)))
            for nm, x in (("longitudes", lon), ("latitudes", lat)):
                V.prove(f"{tag}: {nm} unchanged", x.at(i, j).e == x.F(i, j))
        V.verify(run, post, None)


CONTRACTS = [contract_edges, contract_vectors, contract_rotation, contract_angles]
