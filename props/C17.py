"""C17: data belong to the part of the grid that they fit; paddings trim and shift consistently."""
import itertools

import numpy as np
import z3

ID = "C17"
BOUNDED_FUNCTIONS = ["Dataset._variables_from_netCDF on files of each kind of grid", "infer_location on real grids"]
KINDS = ("none", "low", "high", "both")
LO, HI = dict(none=0, low=1, high=0, both=1), dict(none=0, low=0, high=1, both=1)


# ------------------------------------------------------------------------------------------------ bounded companion
def oracle_file(case):
    """variables of a file: exactly those that lie on the grid, with their location"""
    import gc
    import os
    import shutil
    import tempfile
    import warnings
    import netCDF4
    from gridded import Dataset
    warnings.simplefilter("ignore")
    kind, n, m, nt = case["kind"], case["n"], case["m"], case["nt"]
    d = tempfile.mkdtemp()
    want = {}
    try:
        p = os.path.join(d, "a.nc")
        with netCDF4.Dataset(p, "w") as nc:
            dims = dict(y=n, x=m, t=nt, other=case["other"])
            if kind == "S":
                dims.update(yc=n + 1, xc=m + 1)
            if kind == "U":
                dims = dict(node=n * m, face=2 * (n - 1) * (m - 1), three=3, t=nt, other=case["other"])
            for k, v in dims.items():
                nc.createDimension(k, v)

            def var(name, dd, value=0.0, dt="f8", **attrs):
                v = nc.createVariable(name, dt, dd)
                v[:] = value
                v.setncatts(attrs)
            tv = np.arange(nt) * 1.0
            y, x = np.arange(n) * 1.0, np.arange(m) * 2.0
            if kind == "R":
                var("lat", ("y",), y, standard_name="latitude", units="degrees_north")
                var("lon", ("x",), x, standard_name="longitude", units="degrees_east")
                places = {"node": ("y", "x")}
            elif kind == "S":
                X, Y = np.meshgrid(x, y)
                var("lat_psi", ("y", "x"), Y)
                var("lon_psi", ("y", "x"), X)
                Xc, Yc = np.meshgrid(np.arange(m + 1) * 2.0 - 1, np.arange(n + 1) - .5)
                var("lat_rho", ("yc", "xc"), Yc)
                var("lon_rho", ("yc", "xc"), Xc)
                places = {"node": ("y", "x"), "center": ("yc", "xc"), "edge1": ("yc", "x"), "edge2": ("y", "xc")}
                for nm, pl in (("u", "edge1"), ("v", "edge2")):
                    if nm in case["edges"]:
                        Xe, Ye = np.meshgrid(x if pl == "edge1" else np.arange(m + 1) * 2.0 - 1, y if pl == "edge2" else np.arange(n + 1) - .5)
                        var(f"lat_{nm}", places[pl], Ye)
                        var(f"lon_{nm}", places[pl], Xe)
                    else:
                        places.pop(pl)
            else:
                from . import common
                import random
                nodes, faces, _ = common.tri_mesh(random.Random(case["seed"]), m, n)
                var("mesh", (), 0, "i4", cf_role="mesh_topology", topology_dimension=np.int32(2), node_coordinates="nlon nlat", face_node_connectivity="fnc")
                var("nlon", ("node",), nodes[:, 0], standard_name="longitude", units="degrees_east")
                var("nlat", ("node",), nodes[:, 1], standard_name="latitude", units="degrees_north")
                var("fnc", ("face", "three"), faces, "i4", start_index=np.int32(0))
                places = {"node": ("node",), "face": ("face",)}
            var("time", ("t",), tv, units="hours since 2001-01-01 00:00", standard_name="time")
            if case["crs"]:
                var("crs", (), 0, "i4")
            if case["lonely"]:
                var("station", ("other",), 1.0)
                var("table", ("t", "other"), 1.0)
            for k, dd in places.items():
                for tdep in case["tdep"]:
                    nm = f"data_{k}_{tdep}"
                    at = {}
                    if case["attr"]:
                        at["location"] = k
                    var(nm, (("t",) if tdep else ()) + dd, 2.0, **at)
                    if tdep:
                        want[nm] = k
                    else:
                        want[nm] = k
        g = Dataset(p)
        if type(g.grid).__name__ != f"Grid_{kind}":
            return f"{case}: loaded as {type(g.grid).__name__}"
        got = {k: v.location for k, v in g.variables.items() if k.startswith("data") or k in ("crs", "station", "table", "time")}
        del g
        gc.collect()
        if got != want:
            return f"{case}: variables {got} instead of {want}"
    finally:
        shutil.rmtree(d)
    return None


def oracle_infer(case):
    from gridded.grids import Grid_R, Grid_S, Grid_U
    shape = tuple(case["shape"])
    data = np.zeros(shape)
    if case["kind"] == "U":
        nn, nf, nb = case["sizes"]
        g = Grid_U(nodes=np.zeros((nn, 2)), faces=np.zeros((nf, 3), int) if nf else None, boundaries=np.zeros((nb, 2), int) if nb else None)
        d = shape[-1] if shape else None
        want = "node" if d == nn else "face" if nf and d == nf else "boundary" if nb and d == nb else None
    elif case["kind"] == "R":
        ny, nx = case["sizes"]
        g = Grid_R(node_lon=np.arange(nx) * 1.0, node_lat=np.arange(ny) * 1.0)
        d = shape[-2:]
        want = None if len(d) < 2 else "node" if d == (ny, nx) else "center" if d in ((ny - 1, nx - 1), (ny + 1, nx + 1)) else None
    else:
        (ny, nx), cs = case["sizes"], case["coords"]
        kw = {}
        for k, s in cs.items():
            kw[f"{k}_lon"], kw[f"{k}_lat"] = np.zeros(s), np.zeros(s)
        g = Grid_S(node_lon=np.zeros((ny, nx)), node_lat=np.zeros((ny, nx)), **kw)
        want = None
        if len(shape) >= 2:
            for k, s in [("node", (ny, nx))] + [(k, cs[k]) for k in ("center", "edge1", "edge2") if k in cs]:
                if want is None and shape[-2:] == tuple(s):
                    want = k
    got = g.infer_location(data)
    return None if got == want else f"data of shape {shape} on {case} are located at {got} instead of {want}"


def oracle_padding(case):
    """trimming selects the cells, and so does shifting their indices; faces without paddings: told by the shape"""
    from gridded.grids import Grid_S
    ny, nx = case["size"]
    pad = case["pad"]
    g = Grid_S(node_lon=np.zeros((ny + 1, nx + 1)), node_lat=np.zeros((ny + 1, nx + 1)))
    a = np.arange((ny + LO[pad[0]] + HI[pad[0]]) * (nx + LO[pad[1]] + HI[pad[1]])).reshape(ny + LO[pad[0]] + HI[pad[0]], -1)
    t = a[g.get_padding_slices(pad)]
    if t.shape != (ny, nx):
        return f"{case}: trimmed to {t.shape}"
    idx = np.array([[j, i] for j in range(ny) for i in range(nx)])
    s = g.apply_padding_to_idxs(idx.copy(), pad)
    if not np.array_equal(a[s[:, 0], s[:, 1]], t.ravel()):
        return f"{case}: indices are shifted to {s.tolist()}"
    return None


def oracle_told(case):
    """paddings that are not given follow the shapes of the faces as they are now"""
    from gridded.grids import Grid_S
    ny, nx = case["size"]
    z = lambda d: np.zeros((ny + d[0], nx + d[1]))
    g = Grid_S(node_lon=z((0, 0)), node_lat=z((0, 0)))
    told = {-1: "none", 0: "low", 1: "both"}
    for d in case["faces"]:
        g.center_lon, g.center_lat = z(d), z(d)
        f = tuple(told[x] for x in d)
        for k, want in (("center", f), ("edge1", (f[0], None)), ("edge2", (None, f[1])), ("node", (None, None))):
            got = tuple(g.get_padding_by_location(k))
            if got != want:
                return f"{case}: paddings of {k} are {got} instead of {want}"
    return None


def oracle_refused(case):
    """data and times that do not fit are refused and change nothing"""
    import datetime
    from gridded.grids import Grid_R, Grid_S, Grid_U
    from gridded.time import Time
    from gridded.variable import Variable
    (y, x), nt, nt2, off, what = case["size"], case["nt"], case["nt2"], case["off"], case["what"]
    z = np.zeros((y, x))
    g = {"R": lambda: Grid_R(node_lon=np.arange(x) * 1.0, node_lat=np.arange(y) * 1.0), "S": lambda: Grid_S(node_lon=z, node_lat=z),
         "U": lambda: Grid_U(nodes=np.zeros((x, 2)), faces=np.zeros((x + 9, 3), int))}[case["kind"]]()
    place = lambda o: (x + o,) if case["kind"] == "U" else (y, x + o)
    T = lambda n: Time([datetime.datetime(2000, 1, 1) + datetime.timedelta(hours=h) for h in range(n)])
    v = Variable(name="a", data=np.ones((nt,) + place(0)), grid=g, time=T(nt) if what == "data" else None, location=case["location"])
    old, oldt = v.data, v.time
    v._result_memo["something"] = 1
    new = np.zeros((nt2,) + place(off))
    try:
        if what == "data":
            v.data = new
        else:
            v.time = T(nt2)
    except ValueError:
        if (nt2 == nt or what == "time" and nt2 == 1) and (what != "data" or off == 0):
            return f"{case}: refused"
        if v.data is not old or v.data.shape != old.shape:
            return f"{case}: refused, but the data are replaced"
        if what != "data" and v.time is not oldt:
            return f"{case}: refused, but the times are replaced"
        return None
    if nt2 != nt and not (what == "time" and nt2 == 1):     # one time stands for all records
        return f"{case}: accepted"
    if v._result_memo:
        return f"{case}: remembered results are kept"
    if what == "data" and v.data is not new:
        return f"{case}: the data are not replaced"
    return None


def bounded(B):
    rng = B.rng
    for c in range(B.n(60, 600)):
        B.case("told", oracle_told, dict(size=[rng.randint(2, 5), rng.randint(2, 5)], faces=[[rng.choice([-1, 0, 1]), rng.choice([-1, 0, 1])] for i in range(rng.randint(1, 3))]))
    for c in range(B.n(120, 1000)):
        nt = rng.randint(2, 4)
        B.case("refused", oracle_refused, dict(kind=rng.choice("RSU"), size=[rng.randint(2, 5), rng.randint(2, 5)], nt=nt, nt2=rng.choice([nt, nt, nt - 1, nt + 1]), off=rng.choice([0, 0, 3]),
                                               what=rng.choice(["data", "time"]), location=rng.choice([None, "node"])))
    for c in range(B.n(120, 1500)):
        kind = rng.choice("RSU")
        n, m = rng.choice([(3, 4), (4, 4), (2, 3), (5, 3)] if kind != "U" else [(3, 5), (4, 4), (2, 3), (5, 3)])     # other numbers of faces than nodes
        B.case("file", oracle_file, dict(kind=kind, n=n, m=m, nt=rng.choice([2, 4, 4, 5] if kind != "U" else [2, 3, 5, 17]), other=rng.choice([7, 11, 31]), crs=rng.random() < .5,
                                         lonely=rng.random() < .5, attr=rng.random() < .3, tdep=rng.choice([[0], [1], [0, 1]]), edges=rng.choice(["", "u", "uv", "v"]),
                                         seed=rng.getrandbits(20)))
    for c in range(B.n(500, 5000)):
        kind = rng.choice("USR")
        if kind == "U":
            sizes = [rng.randint(3, 8), rng.choice([0, 1, 3, 6, 8]), rng.choice([0, 0, 4, 7])]
            case = dict(sizes=sizes, shape=[rng.choice(sizes + [5])] if rng.random() < .4 else [3, rng.choice(sizes + [5])] if rng.random() < .9 else [])
        else:
            sz = (rng.randint(2, 5), rng.choice([2, 3, 4, 5]))
            near = [sz[0] + rng.choice([-1, 0, 1]), sz[1] + rng.choice([-1, 0, 1])]
            case = dict(sizes=sz, shape=rng.choice([near, near, [3] + near, [2, 3] + near, near[:1], []]))
            if kind == "S":
                case["coords"] = {k: (sz[0] + rng.choice([-1, 0, 1]) * (k != "edge2"), sz[1] + rng.choice([-1, 0, 1]) * (k != "edge1"))
                                  for k in ("center", "edge1", "edge2") if rng.random() < .7}
        B.case("infer", oracle_infer, dict(case, kind=kind))
    for pad in itertools.product(KINDS + (None,), repeat=2):
        LO[None] = HI[None] = 0
        for size in ((1, 1), (2, 3), (4, 1)):
            B.case("padding", oracle_padding, dict(pad=pad, size=size))


# ------------------------------------------------------------------------------------------------ contracts
class Data:
    """something with a shape"""
    def __init__(self, shape):
        from pyvc.core import Sym
        self.shape = tuple(s if isinstance(s, int) else Sym("i", s) for s in shape)

    def __len__(self):
        return 1

    def slen(self):
        return self.shape[0]


def contract_infer_u(V):
    """Grid_U.infer_location: nodes, else faces, else boundaries, whichever has as many elements as the last dimension of the data; None if none has"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    from pyvc.verify import dim
    V.functions = ["UGrid.infer_location"]
    G = V.mod("gridded.grids")
    for faces, bnd in itertools.product((False, True), repeat=2):
        for lead in (None, 0, 1, 2):
            def run(cx):
                g = G.Grid_U.__new__(G.Grid_U)
                n, f, b, d = dim("n", 1), dim("f", 1), dim("b", 1), dim("d", 1)
                g._nodes = sym_array("nodes", (n, 2), "f")
                g._faces = sym_array("faces", (f, 3), "i") if faces else None
                g._boundaries = sym_array("bnd", (b, 2), "i") if bnd else None
                cx.ghost.update(n=n, f=f, b=b, d=d)
                return g.infer_location(Data(() if lead is None else (dim("t", 1), dim("z", 1))[:lead] + (d,)))

            def post(V, p):
                q = p.ctx.ghost
                tag = f"faces {faces}, boundaries {bnd}, {'no' if lead is None else lead + 1} dimensions"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r, n, f, b, d = p.value, *(zi(q[k]) for k in "nfbd")
                if lead is None:
                    V.prove(f"{tag}: nowhere", r is None)
                    return
                fits = {"node": d == n, "face": And(faces, d != n, d == f), "boundary": And(bnd, d != n, z3.Not(And(faces, d == f)), d == b),
                        None: And(d != n, z3.Not(And(faces, d == f)), z3.Not(And(bnd, d == b)))}
                V.prove(f"{tag}: location", And(r in fits, fits.get(r, False)))
                V.cover(f"{tag}: {r}")
            V.verify(run, post)


def contract_infer_s(V):
    """SGrid.infer_location: the first of nodes, faces, first and second edges whose coordinates have the shape of the data; None if none has"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, zi
    from pyvc.verify import dim
    V.functions = ["SGrid.infer_location"]
    G = V.mod("gridded.grids")
    names = ("node", "center", "edge1", "edge2")
    for have in itertools.chain.from_iterable(itertools.combinations(names[1:], r) for r in range(4)):
        for nd in (0, 1, 2, 3, 4):
            def run(cx):
                g = G.Grid_S.__new__(G.Grid_S)
                sh = {}
                for k in names:
                    sh[k] = (dim(f"{k}y", 1), dim(f"{k}x", 1)) if k == "node" or k in have else None
                    setattr(g, f"{k}_lon", sym_array(f"{k}_lon", sh[k], "f") if sh[k] else None)
                    setattr(g, f"{k}_lat", sym_array(f"{k}_lat", sh[k], "f") if sh[k] else None)
                d = (dim("t", 1), dim("z", 1), dim("dy", 1), dim("dx", 1))[4 - nd:]
                cx.ghost.update(sh=sh, d=d)
                return g.infer_location(Data(d))

            def post(V, p):
                q = p.ctx.ghost
                tag = f"{'/'.join(have) or 'nodes only'}, {nd} dimensions"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r, d = p.value, q["d"]
                if nd < 2:
                    V.prove(f"{tag}: nowhere", r is None)
                    return
                fit = {k: And(s is not None, *([zi(a) == zi(b) for a, b in zip(s, d[-2:])] if s else [])) for k, s in q["sh"].items()}
                want, before = {}, []
                for k in names:
                    want[k] = And(fit[k], *[Not(b) for b in before])
                    before.append(fit[k])
                want[None] = And(*[Not(b) for b in before])
                V.prove(f"{tag}: location", And(r in want, want.get(r, False)))
                V.cover(f"{tag}: {r}")
            V.verify(run, post)


def contract_infer_r(V):
    """Grid_R.infer_location: the location attribute; else nodes if the data have one value for each latitude and longitude, centers if one less
    or more for both; else None"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Or, zi
    from pyvc.verify import dim
    V.functions = ["Grid_R.infer_location"]
    G = V.mod("gridded.grids")
    for nd in (0, 1, 2, 3, 4):
        for attr in (False, True):
            def run(cx):
                g = G.Grid_R.__new__(G.Grid_R)
                y, x = dim("y", 2), dim("x", 2)
                g.node_lon, g.node_lat = sym_array("lon", (x,), "f"), sym_array("lat", (y,), "f")
                d = (dim("t", 1), dim("z", 1), dim("dy", 1), dim("dx", 1))[4 - nd:]
                cx.ghost.update(d=d, y=y, x=x)
                v = Data(d)
                if attr:
                    v.location = "somewhere"
                return g.infer_location(v)

            def post(V, p):
                q = p.ctx.ghost
                tag = f"{nd} dimensions{', location attribute' if attr else ''}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r = p.value
                if attr:
                    V.prove(f"{tag}: the attribute", r == "somewhere")
                    return
                if nd < 2:
                    V.prove(f"{tag}: nowhere", r is None)
                    return
                dy, dx = zi(q["d"][-2]) - zi(q["y"]), zi(q["d"][-1]) - zi(q["x"])
                node, center = And(dy == 0, dx == 0), And(dy == dx, Or(dy == 1, dy == -1))
                want = {"node": node, "center": center, None: z3.Not(Or(node, center))}
                V.prove(f"{tag}: location", And(r in want, want.get(r, False)))
                V.cover(f"{tag}: {r}")
            V.verify(run, post)


def contract_padding(V):
    """paddings: told by the coordinates' shapes if not given; edges use those of the faces if they have none; trimming and index shifting select the same elements,
    and as many as there are cells"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    from pyvc.verify import dim
    V.functions = ["SGrid.face_padding / center_padding / edge1_padding / edge2_padding / node_padding", "SGrid.get_padding_by_location", "SGrid.get_padding_slices",
                   "SGrid.apply_padding_to_idxs"]
    import warnings
    warnings.simplefilter("ignore")
    G, S = V.mod("gridded.grids"), V.mod("gridded.pysgrid.sgrid")
    for py, px in itertools.product(KINDS + (None,), repeat=2):
        def run(cx):
            g = G.Grid_S.__new__(G.Grid_S)
            cells = dim("ny", 1), dim("nx", 1)
            ext = [(LO[k] + HI[k]) if k else 0 for k in (py, px)]
            a = sym_array("a", tuple(zi(c) + e for c, e in zip(cells, ext)), "f")
            idx = sym_array("idx", (dim("n", 1), 2), "i")
            cx.ghost.update(a=a, idx=idx, cells=cells)
            return a[g.get_padding_slices((py, px))], g.apply_padding_to_idxs(idx.copy(), (py, px))

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"padding {py}/{px}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            t, s = p.value
            V.prove(f"{tag}: as many as there are cells", And(*[zi(x) == zi(c) for x, c in zip(t.sshape, q["cells"])]))
            n = cx.fresh_index(q["idx"].sshape[0], "n").e
            j, i = q["idx"].at(n, 0).e, q["idx"].at(n, 1).e
            for c, k in enumerate((py, px)):
                V.prove(f"{tag}: shift along axis {c}", s.at(n, c).e == q["idx"].at(n, c).e + (LO[k] if k else 0))
            y, x = cx.fresh_index(q["cells"][0], "y").e, cx.fresh_index(q["cells"][1], "x").e
            V.prove(f"{tag}: the same elements", t.at(y, x).e == q["a"].at(y + (LO[py] if py else 0), x + (LO[px] if px else 0)).e)
            V.cover(f"{tag}: reached")
        V.verify(run, post)
    told = {-1: "none", 0: "low", 1: "both"}
    for dy, dx, given, asked in itertools.product((-1, 0, 1), (-1, 0, 1), ("no", "tuple", "info", "edges", "nothing"), (False, True)):
        def run(cx):
            g = G.Grid_S.__new__(G.Grid_S)
            y, x = dim("y", 2), dim("x", 2)
            P = lambda k: V.mod("gridded.pysgrid.utils").GridPadding("grid", "a", "b", k)
            g.node_lon = sym_array("node_lon", (y, x), "f")
            g.center_lon = None
            g.node_padding = g.face_padding = g.edge1_padding = g.edge2_padding = None
            if asked:       # the paddings were asked for while the faces had another shape
                g.center_lon = sym_array("old_lon", (zi(y) - dx, zi(x) - dy), "f")
                for k in ("node", "center", "edge1", "edge2"):
                    g.get_padding_by_location(k)
                g.center_lon = None
            g.center_lon = None if given == "nothing" else sym_array("center_lon", (zi(y) + dy, zi(x) + dx), "f")
            if given in ("tuple", "info"):
                g.face_padding = ("high", "none") if given == "tuple" else [P("both"), P("high")]
            if given in ("edges", "info"):
                g.edge1_padding = ("low", None) if given == "edges" else [P("none")]
                g.edge2_padding = (None, "high") if given == "edges" else [P("both")]
            return {k: tuple(g.get_padding_by_location(k)) for ks in ALIAS.values() for k in ks}

        def post(V, p):
            tag = f"faces larger by {dy}, {dx}; paddings given: {given}{', asked before' if asked else ''}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            f = ("high", "none") if given == "tuple" else ("both", "high") if given == "info" else (None, None) if given == "nothing" else (told[dy], told[dx])
            e1 = {"edges": ("low", None), "info": ("none", None)}.get(given, (f[0], None))
            e2 = {"edges": (None, "high"), "info": (None, "both")}.get(given, (None, f[1]))
            for place, want in (("node", (None, None)), ("center", f), ("edge1", e1), ("edge2", e2)):
                V.prove(f"{tag}: {place}", all(p.value[k] == want for k in ALIAS[place]))
            V.cover(f"{tag}: reached")
        V.verify(run, post)


ALIAS = {"node": ("node", "nodes", "psi", "vertex", "vertices", "point", "points"), "center": ("center", "centers", "face", "faces", "cell", "cells"),
         "edge1": ("edge1", "u"), "edge2": ("edge2", "v")}


def contract_variable(V):
    """Variable: a given location stays, else it is inferred from the grid; data that fit nowhere, or whose first dimension is not that of the time axis,
    are refused and change nothing"""
    from pyvc.arr import ascending, sym_array
    from pyvc.core import And, Not, zi
    from pyvc.verify import dim
    V.functions = ["Variable.__init__", "Variable.data", "Variable.location", "Variable.time", "UGrid.infer_location"]
    Vm, Tm, G = V.mod("gridded.variable"), V.mod("gridded.time"), V.mod("gridded.grids")
    for loc in (None, "node", "face", "elsewhere"):
        for how, nd in (("init", 2), ("init", 1), ("init", 3), ("init time", 2), ("replace", 2), ("replace time", 2)):
            def run(cx):
                g = G.Grid_U.__new__(G.Grid_U)
                n, f, N, M = dim("n", 1), dim("f", 1), dim("N", 2), dim("M", 2)
                g._nodes, g._faces = sym_array("nodes", (n, 2), "f"), sym_array("faces", (f, 3), "i")
                g._boundaries = None
                data = sym_array("data", {1: (), 2: (N,), 3: (N, dim("K", 1))}[nd] + (dim("d", 1),), "f")
                T = Tm.Time.__new__(Tm.Time)
                T._data, T._tz_offset = sym_array("t", (M,), "t", axioms=[ascending()]), None
                q = cx.ghost
                q.update(n=zi(n), f=zi(f), N=zi(N), M=zi(M), d=zi(data.sshape[-1]), data=data)
                if how == "init":
                    return Vm.Variable(name="x", data=data, grid=g, location=loc)
                if how == "init time":
                    return Vm.Variable(name="x", data=data, grid=g, location=loc, time=T)
                old = sym_array("old", (N if how == "replace time" else M, n), "f")
                v = q["v"] = Vm.Variable(name="x", data=old, grid=g, location="node" if loc == "elsewhere" else loc, time=T if how == "replace" else None)
                q["old"], q["memo"] = old, v._result_memo
                v._result_memo["something"] = 1
                if loc == "elsewhere":
                    v.location = loc
                if how == "replace":
                    v.data = data
                else:
                    v.time = T
                return v

            def post(V, p):
                q = p.ctx.ghost
                n, f, N, M, d = (q[k] for k in "nfNMd")
                tag = f"{how}, location {loc}, {nd} dimensions"
                if loc == "elsewhere":
                    V.prove(f"{tag}: no such location", p.outcome == "raise" and isinstance(p.value, ValueError))
                    return
                located = z3.BoolVal(loc is not None or how.startswith("replace"))
                okd = And(z3.Or(located, d == n, d == f)) if how != "replace time" else z3.BoolVal(True)
                okt = z3.BoolVal(True) if how == "init" else N == M
                if p.outcome == "raise":
                    V.prove(f"{tag}: refused with ValueError", isinstance(p.value, ValueError))
                    V.prove(f"{tag}: refused only if the data do not fit", Not(And(okd, okt)))
                    if "v" in q:
                        V.prove(f"{tag}: nothing changed", q["v"].data is q["old"])
                    V.cover(f"{tag}: refused")
                    return
                v = p.value
                V.prove(f"{tag}: refused if the data do not fit", And(okd, okt))
                if loc or how.startswith("replace"):
                    V.prove(f"{tag}: location stays", v.location == (loc or "node"))
                else:
                    V.prove(f"{tag}: location inferred", z3.If(d == n, z3.BoolVal(v.location == "node"), And(v.location == "face", d == f)))
                V.prove(f"{tag}: the data", v.data is (q["old"] if how == "replace time" else q["data"]))
                V.prove(f"{tag}: no results are kept", len(v._result_memo) == 0)
                V.cover(f"{tag}: accepted")
            V.verify(run, post, want_return=loc != "elsewhere")


CONTRACTS = [contract_infer_u, contract_infer_s, contract_infer_r, contract_padding, contract_variable]
