"""C11: cell lookup on structured grids with land masks."""
import z3

from pyvc.verify import run_case

ID = "C11"
BOUNDED_FUNCTIONS = ["SGrid.locate_faces with the real cell tree, masks from netCDF variables",
                     "SGrid.build_celltree on real arrays"]

_LO = {"none": 0, None: 0, "high": 0, "low": 1, "both": 1}
_HI = {"none": 0, None: 0, "high": 1, "low": 0, "both": 1}


def _nc_mask(ds, name, land, style, rng):
    """a netCDF mask variable that means `land` (True = land), in one of the accepted encodings"""
    import numpy as np
    for k, d in enumerate(land.shape):
        ds.createDimension(f"{name}{k}", d)
    kind = "f8" if style == "float" else "i4"
    v = ds.createVariable(name, kind, (f"{name}0", f"{name}1"))
    water, lnd = [0, 1] if style == "swapped" else [1, 0]
    if style == "swapped":
        v.flag_values = np.array([0, 1], "i4")
        v.flag_meanings = "water land"
    elif style == "flags":
        v.flag_values = np.array([0, 1], "i4")
        v.flag_meanings = rng.choice(["land water", "LAND Water", "Land sea_water", "land, lake_water"])
    elif style == "float":
        v.flag_values = np.array([0., 1.])
        v.flag_meanings = "land water"
    elif style == "string":
        v.flag_values = "0 1"
        v.flag_meanings = "land water"
    elif style == "three":
        v.flag_values = np.array([0, 1, 2], "i4")
        v.flag_meanings = "land water lake"
    elif style == "option":
        v.option_0 = "land"
        v.option_1 = "water"
    val = np.where(land, lnd, water)
    if style == "three":
        val = np.where(land, 0, np.array([[rng.choice([1, 2]) for _ in range(land.shape[1])] for _ in range(land.shape[0])]))
    v[:] = val
    return v


def oracle_locate(case):
    import random
    import numpy as np
    from gridded.grids import Grid_S
    from gridded.pysgrid.sgrid import SGrid
    from . import common
    rng = random.Random(case["seed"])
    nx, ny = case["nx"], case["ny"]
    lon, lat, rect = common.quads(rng, nx, ny, jitter=case["jit"], rot=case["rot"], flip=case["flip"], scale=case["scale"])
    cell = np.zeros((ny - 1, nx - 1), bool)        # expected: True = not searched
    kw = {}
    ds = None
    rand = lambda sh, p: np.array([[rng.random() < p for _ in range(sh[1])] for _ in range(sh[0])], dtype=bool)
    corners = lambda m: m[:-1, :-1] | m[:-1, 1:] | m[1:, 1:] | m[1:, :-1]
    try:
        if case["style"] != "bool":
            import netCDF4 as nc
            ds = nc.Dataset("inmem_c11.nc", "w", diskless=True, persist=False)
        py, px = case["pad"]
        um = case["use_mask"]
        if case["center"]:
            sh = (ny - 1 + _LO[py] + _HI[py], nx - 1 + _LO[px] + _HI[px])
            land = rand(sh, case["pland"])
            inner = land[_LO[py]:sh[0] - _HI[py], _LO[px]:sh[1] - _HI[px]]
            if case["block"]:
                inner[:, : max(1, (nx - 1) // 2)] = True
            if um:
                cell |= inner
            cm = land.copy() if case["style"] == "bool" else _nc_mask(ds, "cm", land, case["style"], rng)
            kw.update(center_mask=cm)
            if case["pad"] != ["none", "none"] or rng.random() < .5:
                kw.update(face_padding=tuple(case["pad"]))
        if case["node"]:
            nm = rand((ny, nx), case["pland"] / 2)
            if um and not case["center"]:
                cell |= corners(nm)
            kw.update(node_mask=nm.copy() if case["style"] == "bool" else _nc_mask(ds, "nm", nm, case["style"], rng))
        lo, la = lon.copy(), lat.copy()
        miss = np.zeros((ny, nx), bool)
        if case["missing"]:
            miss = rand((ny, nx), .08)
            cell |= corners(miss)
            lo, la = np.ma.MaskedArray(lo, mask=miss), np.ma.MaskedArray(la, mask=miss if rng.random() < .7 else False)
            lo.data[miss] = 1e20
            if rng.random() < .5:
                la.data[miss] = -1e20
                la[miss] = np.ma.masked
        elif rng.random() < .2:
            lo, la = np.ma.MaskedArray(lo), np.ma.MaskedArray(la)
        if cell.all():
            return None
        g = (Grid_S if case["cls"] else SGrid)(node_lon=lo, node_lat=la, **kw)
        n = case["n"]
        R = np.array([rng.randrange(ny - 1) for _ in range(n)])
        C = np.array([rng.randrange(nx - 1) for _ in range(n)])
        P = np.empty((n, 2))
        exp = np.column_stack([R, C])
        for k in range(n):
            a, b = rng.uniform(.03, .97), rng.uniform(.03, .97)
            w = [(1 - a) * (1 - b), b * (1 - a), a * b, a * (1 - b)]
            q = [(R[k], C[k]), (R[k] + 1, C[k]), (R[k] + 1, C[k] + 1), (R[k], C[k] + 1)]
            P[k] = [sum(x * z[i] for x, i in zip(w, q)) for z in (lon, lat)]
            if cell[R[k], C[k]]:
                exp[k] = -1
        off = np.array([rng.random() < .15 for _ in range(n)])
        if off.any():
            P[off] = common.outside(rng, rect, int(off.sum()))
            exp[off] = -1
        P0 = P.copy()
        um_kw = {} if um and rng.random() < .5 else dict(use_mask=um)
        if not um and rng.random() < .5:
            g.build_celltree(use_mask=False)
            um_kw = {}
        memo = dict(_memo=True, _copy=rng.random() < .5) if case["memo"] else {}
        for w in common.earlier(case["warm"], P):
            g.locate_faces(w, **um_kw, **memo)
        f = g.index_of if case["alias"] else g.locate_faces
        for rep in range(2 if case["twice"] else 1):
            if case["one"]:
                for k in range(n):
                    r = np.ma.filled(np.asanyarray(f(P[k].copy(), **um_kw)), -1)
                    if r.shape != (2,) or r.tolist() != exp[k].tolist():
                        return f"point {P[k].tolist()}: located in {r.tolist()}, expected {exp[k].tolist()}"
                continue
            r = f(P.tolist() if case["plist"] else P, **um_kw, **memo)
            if r.shape != (n, 2):
                return f"{n} points, result shape {r.shape}"
            m = np.ma.getmaskarray(r)
            for k in range(n):
                out = exp[k][0] < 0
                if m[k].tolist() != [out, out] or (np.ma.getdata(r)[k].tolist() != exp[k].tolist()):
                    return (f"point {P[k].tolist()} of cell {R[k], C[k]} (off grid: {off[k]}): {np.ma.getdata(r)[k].tolist()} mask "
                            f"{m[k].tolist()}, expected {exp[k].tolist()}")
        if not np.array_equal(P, P0):
            return "the query changed its points"
        if not (np.array_equal(np.ma.filled(g.node_lon, 7.), np.ma.filled(lo, 7.)) and
                np.array_equal(np.ma.getdata(lo)[~miss], lon[~miss])):
            return "the query changed the grid"
        # node data are interpolated within the searched cells only
        if not um_kw and um and not case["one"]:
            v = lon * 2 - lat
            v[miss] = 1e20
            v = np.ma.MaskedArray(v, mask=miss) if case["missing"] else v
            r = np.ma.asarray(g.interpolate_var_to_points(P, v, location="node"))
            val, m = r.data.reshape(-1), np.ma.getmaskarray(r).reshape(-1)
            for k in range(n):
                if (exp[k][0] < 0) != m[k]:
                    return f"interpolation at {P[k].tolist()} (cell {exp[k].tolist()}): {r[k]}"
                if not m[k] and abs(val[k] - (2 * P[k, 0] - P[k, 1])) > 1e-6 * case["scale"]:
                    return f"interpolation of a linear field at {P[k].tolist()}: {val[k]}"
    finally:
        if ds is not None:
            ds.close()
    return None


def oracle_mask(case):
    """land masks: water (and lakes) -> False, everything else True, for every accepted encoding"""
    import random
    import numpy as np
    import netCDF4 as nc
    from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
    rng = random.Random(case["seed"])
    sh = tuple(case["shape"])
    land = np.array([[rng.random() < .5 for _ in range(sh[1])] for _ in range(sh[0])], dtype=bool)
    if case["style"] == "bool":
        v = land.copy()
        r = convert_mask_to_numpy_mask(v)
        if not (np.array_equal(r, land) and r.dtype == bool and np.array_equal(v, land)):
            return "plain boolean mask changed"
        if r is v:
            return "the mask itself is returned, not a copy"
    elif case["style"] == "general":
        vals, names = case["vals"], case["names"]
        ds = nc.Dataset("inmem_c11m.nc", "w", diskless=True, persist=False)
        try:
            ds.createDimension("a", sh[0])
            ds.createDimension("b", sh[1])
            v = ds.createVariable("m", case["dtype"], ("a", "b"))
            data = np.array([[rng.choice(vals + case["extra"]) for _ in range(sh[1])] for _ in range(sh[0])])
            v[:] = data
            v.flag_values = np.array(vals, case["dtype"]) if case["fv"] == "array" else " ".join(str(q) for q in vals)
            v.flag_meanings = " ".join(names)
            r = convert_mask_to_numpy_mask(v)
            wet = [q for q, s in zip(vals, names) if "water" in s.lower() or "lake" in s.lower()]
            e = ~np.isin(data, wet)
            if not np.array_equal(r, e):
                return f"mask of {data.tolist()} with {dict(zip(vals, names))}: {r.tolist()}, expected {e.tolist()}"
        finally:
            ds.close()
        return None
    else:
        ds = nc.Dataset("inmem_c11m.nc", "w", diskless=True, persist=False)
        try:
            v = _nc_mask(ds, "m", land, case["style"], rng)
            r = convert_mask_to_numpy_mask(v)
            if not np.array_equal(r, land):
                return f"{case['style']}: {r.tolist()} expected {land.tolist()}"
            sl = np.s_[1:, :-1]
            if not np.array_equal(gen_celltree_mask_from_center_mask(v, sl), land[sl]):
                return "slice of the center mask wrong"
        finally:
            ds.close()
    return None


def bounded(B):
    from . import common
    rng = B.rng
    P = ["none", "low", "high", "both"]
    for c in range(B.n(500, 5000)):
        center, node = rng.random() < .6, rng.random() < .35
        pad = [rng.choice(P), rng.choice(P)] if center and rng.random() < .6 else ["none", "none"]
        case = dict(seed=rng.getrandbits(32), nx=rng.choice([2, 3, 5, 8]), ny=rng.choice([2, 3, 4, 7]), jit=rng.choice([0, .2]),
                    rot=rng.choice([0, .5, 3.]), flip=rng.random() < .3, scale=rng.choice([1., 1e-2, 1e3]), center=center, node=node,
                    pad=pad, style=rng.choice(["bool", "bool", "flags", "swapped", "float", "string", "three", "option"]),
                    pland=rng.choice([0, .2, .5]), block=rng.random() < .2, missing=rng.random() < .2, cls=rng.random() < .5,
                    use_mask=rng.random() < .8, n=rng.choice([1, 2, 6, 15]), warm=rng.choice(common.WARM), memo=rng.random() < .3,
                    twice=rng.random() < .3, one=rng.random() < .15, alias=rng.random() < .2, plist=rng.random() < .3)
        if c % 50 == 7:       # many cells: index arithmetic at scale
            case.update(nx=rng.choice([200, 340]), ny=rng.choice([190, 210]), jit=0, n=40)
        B.case("locate", oracle_locate, case, nontrivial=center or node or case["missing"])
    names = ["land", "water", "Water", "LAKE", "sea_water", "island", "river", "inland_water", "Land"]
    for c in range(B.n(120, 1200)):
        k = rng.choice([2, 2, 3, 4])
        vals = rng.sample(range(-1, 9), k)
        case = dict(seed=rng.getrandbits(32), shape=[rng.choice([1, 2, 5]), rng.choice([2, 4])],
                    style=rng.choice(["bool", "flags", "swapped", "float", "string", "three", "option", "general", "general"]),
                    vals=vals, names=[rng.choice(names) for _ in vals], extra=rng.choice([[], [99]]),
                    fv=rng.choice(["array", "string"]), dtype=rng.choice(["i4", "f8", "i1"]))
        B.case("mask", oracle_mask, case)


# ------------------------------------------------------------------------------------------------ contracts
def _tree(cx):
    """contract of the cell tree: keeps the nodes and faces it is built over; locate: a face index in [0, faces) or -1, a
    function of the point"""
    from pyvc.arr import new
    from pyvc.core import Sym, zi
    R = z3.RealSort()
    L = z3.Function("LOCATE", R, R, z3.IntSort())
    trees = []

    class CellTree:
        def __init__(self, verts, faces, num_buckets=None, cells_per_leaf=None):
            self.v, self.f = verts.copy(), faces.copy()
            self.nf = zi(faces.sshape[0])
            trees.append(self)

        def locate(self, points):
            rp = points.copy().reader()

            def f(i):
                e = L(rp((i[0], 0)).e, rp((i[0], 1)).e)
                cx.fact(z3.And(e >= -1, e < self.nf))
                return Sym("i", e)
            return new((points.sshape[0],), "i", f)
    cx.ghost.update(CellTree=CellTree, trees=trees, L=L)


def _corner_ids(r, c):
    return [(r, c), (r, c + 1), (r + 1, c + 1), (r + 1, c)]


def _build(V, mode):
    """build_celltree: the searched faces are exactly the cells that are not removed by the mask, each with its own four
    corner nodes, and the translation table leads from a face back to its cell; for every grid size and mask"""
    from pyvc.arr import SMa, sym_array
    from pyvc.core import And, Not, Or, Sym, lift, zi
    from pyvc.ring import Norm
    from pyvc.verify import dim, implies
    V.functions = ["SGrid.build_celltree", "SGrid.locate_faces", "gen_celltree_mask_from_center_mask",
                   "convert_mask_to_numpy_mask", "SGrid.get_padding_slices"]
    V.assumes = ["cell_tree2d.CellTree.locate: index of a face of the tree that contains the point, -1 if none; depends on the point only"]
    for one in (False, True):
        def run(cx):
            _tree(cx)
            ny, nx = dim("Ny", 2), dim("Nx", 2)
            lon, lat = sym_array("lon", (ny, nx), "f"), sym_array("lat", (ny, nx), "f")
            cx.ghost.update(ny=ny, nx=nx, lon=lon, lat=lat)
            kw = {}
            if "missing" in mode:
                mk = sym_array("missing", (ny, nx), "b")
                lon, lat = SMa(lon, mk), SMa(lat, mk.copy())
                cx.ghost.update(mk=mk)
            if mode in ("center", "ignored"):
                cx.ghost["cm"] = kw["center_mask"] = sym_array("cm", (ny - 1, nx - 1), "b")
            elif mode == "center padded":
                cx.ghost["cm"] = kw["center_mask"] = sym_array("cm", (ny + 1, nx), "b")
                kw["face_padding"] = ("both", "low")
            elif mode == "node":
                cx.ghost["nm"] = kw["node_mask"] = sym_array("nm", (ny, nx), "b")
            S = V.mod("gridded.pysgrid.sgrid")
            g = S.SGrid(node_lon=lon, node_lat=lat, **kw)
            n = 1 if one else dim("n", 1)
            P = sym_array("P", (n, 2), "f")
            cx.ghost.update(P=P, n=n)
            q = {} if mode != "ignored" else dict(use_mask=False)
            return g.locate_faces(P[0] if one else P, **q)

        def removed(q, r, c):
            if mode == "center":
                return q["cm"].F(r, c)
            if mode == "center padded":
                return q["cm"].F(r + 1, c + 1)
            if mode == "node":
                return Or(*[q["nm"].F(a, b) for a, b in _corner_ids(r, c)])
            if mode == "missing":
                return miss(q, r, c)
            return z3.BoolVal(False)

        def miss(q, r, c):
            return Or(*[q["mk"].F(a, b) for a, b in _corner_ids(r, c)])

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"{mode}{', one point' if one else ''}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            ny, nx = zi(q["ny"]), zi(q["nx"])
            V.prove(f"{tag}: one search tree", len(q["trees"]) == 1)
            T = q["trees"][0]
            k = z3.IntVal(0) if one else cx.fresh_index(q["n"], "k").e
            x, y = q["P"].F(k, z3.IntVal(0)), q["P"].F(k, z3.IntVal(1))
            r = p.value
            if one:
                V.prove(f"{tag}: one pair", And(len(r.sshape) == 1, zi(r.sshape[0]) == 2))
                i, j = r.at(0).e, r.at(1).e
            else:
                V.prove(f"{tag}: a pair per point", And(len(r.sshape) == 2, zi(r.sshape[0]) == zi(q["n"]), zi(r.sshape[1]) == 2))
                i, j = r.at(k, 0).e, r.at(k, 1).e
            for t in (i, i + 1):
                cx.index_term(q["ny"], t)
            for t in (j, j + 1):
                cx.index_term(q["nx"], t)
            f = q["L"](x, y)
            cx.fact(And(f >= -1, f < T.nf))
            V.prove(f"{tag}: not found is -1", implies(f == -1, And(i == -1, j == -1)))
            if not one:
                V.prove(f"{tag}: masked exactly when not found", And(r.mat(k, 0) == (f == -1), r.mat(k, 1) == (f == -1)))
            V.prove(f"{tag}: found is a cell of the grid", implies(f >= 0, And(i >= 0, i < ny - 1, j >= 0, j < nx - 1)))
            V.prove(f"{tag}: found is not a removed cell", implies(f >= 0, Not(removed(q, i, j))))
            V.prove(f"{tag}: tree nodes have two coordinates", And(len(T.v.sshape) == 2, zi(T.v.sshape[1]) == 2))
            V.prove(f"{tag}: tree faces have four corners", And(len(T.f.sshape) == 2, zi(T.f.sshape[1]) == 4))
            for d, (a, b) in enumerate(_corner_ids(i, j)):
                nd = Norm(cx, f >= 0).peel(T.f.at(f, d).e)
                V.prove(f"{tag}: corner {d} exists", implies(f >= 0, And(nd >= 0, nd < zi(T.v.sshape[0]))))
                V.prove(f"{tag}: corner {d} of the found face is that of its cell",
                        implies(f >= 0, And(T.v.at(nd, 0).e == q["lon"].F(a, b), T.v.at(nd, 1).e == q["lat"].F(a, b))))
            # every cell that is not removed is searched
            R, C = cx.fresh_index(q["ny"] - 1, "R").e, cx.fresh_index(q["nx"] - 1, "C").e
            for t in (R, R + 1):
                cx.index_term(q["ny"], t)
            for t in (C, C + 1):
                cx.index_term(q["nx"], t)
            lin = R * (nx - 1) + C
            keep = Not(removed(q, R, C))
            soft = False
            if mode in ("plain", "ignored"):
                face = lin
            else:
                sel = q["masksels"]
                ok = [s for s in sel if len(s.dims) == 1 and cx.provable(zi(s.dims[0]) == (ny - 1) * (nx - 1))
                      and cx.provable(s.fn((lin,)) == keep)]
                soft = not ok       # without a selection of exactly these cells: all of them, if that can be shown
                face = ok[0].rank((lin,)) if ok else lin
            V.prove(f"{tag}: every remaining cell is searched", implies(keep, And(face >= 0, face < T.nf)), soft=soft)
            for d, (a, b) in enumerate(_corner_ids(R, C)):
                nd = Norm(cx, keep).peel(T.f.at(face, d).e)
                V.prove(f"{tag}: searched with its corner {d}",
                        implies(keep, And(T.v.at(nd, 0).e == q["lon"].F(a, b), T.v.at(nd, 1).e == q["lat"].F(a, b))), soft=soft)
            V.prove(f"{tag}: points unchanged", And(q["P"].at(k, 0).e == x, q["P"].at(k, 1).e == y))
            V.cover(f"{tag}: found", And(ny == 3, nx == 3, f == 0))
            V.cover(f"{tag}: not found", And(ny == 3, nx == 3, f == -1))
        V.verify(run, post, None)


def contract_build_plain(V):
    _build(V, "plain")


def contract_build_center(V):
    _build(V, "center")


def contract_build_padded(V):
    _build(V, "center padded")


def contract_build_node(V):
    _build(V, "node")


def contract_build_ignored(V):
    _build(V, "ignored")


def contract_build_missing(V):
    _build(V, "missing")


ENCODINGS = [("land water", [0, 1]), ("water land", [0, 1]), ("Land Sea_Water LAKE", [0, 2, 7]), ("land, water", "0 1"),
             (["island", "lake"], [3, -1]), ("land marsh", [0, 1]), ("water land water2", "5 4 9"), (None, None), ("plain", None)]


def contract_mask(V):
    """land masks of every encoding: False exactly where the value is one that means water or lake"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Or, zi
    from pyvc.verify import dim
    V.functions = ["convert_mask_to_numpy_mask", "gen_celltree_mask_from_center_mask"]
    V.assumes = ["netCDF4.Variable: indexing with [:] gives the data; attributes as written"]
    for fm, fv in ENCODINGS:
        for sliced in (False, True):
            def run(cx):
                U = V.mod("gridded.utilities")
                ny, nx = dim("Ny", 3), dim("Nx", 3)
                d = sym_array("mask", (ny, nx), "b" if fm == "plain" else "i")
                cx.ghost.update(ny=ny, nx=nx, d=d, d0=d.copy())
                v = d
                if fm != "plain":
                    class Var(U.nc4.Variable):
                        shape, dtype, ndim = d.shape, d.dtype, 2

                        def __init__(self):
                            pass

                        def __getitem__(self, k):
                            return d[k].copy()
                    if fm is None:
                        Var.option_0 = "land"
                        Var.option_1 = "water"
                    else:
                        Var.flag_meanings, Var.flag_values = fm, fv
                    v = Var()
                if sliced:
                    return U.gen_celltree_mask_from_center_mask(v, (slice(1, None), slice(None, -1)))
                return U.convert_mask_to_numpy_mask(v)

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                tag = f"{fm} = {fv}{', sliced' if sliced else ''}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                ny, nx, r = zi(q["ny"]) - sliced, zi(q["nx"]) - sliced, p.value
                V.prove(f"{tag}: shape", And(len(r.sshape) == 2, zi(r.sshape[0]) == ny, zi(r.sshape[1]) == nx))
                i, j = cx.fresh_index(ny, "i").e, cx.fresh_index(nx, "j").e
                x = q["d"].F(i + sliced, j)
                if fm == "plain":
                    land = x
                elif fm is None:
                    land = x != 1
                else:
                    names = fm.split() if isinstance(fm, str) else fm
                    vals = [int(a) for a in fv.split()] if isinstance(fv, str) else fv
                    land = And(*[x != a for a, s in zip(vals, names) if "water" in s.lower() or "lake" in s.lower()])
                V.prove(f"{tag}: boolean", r.kind == "b")
                V.prove(f"{tag}: land exactly where the value does not mean water", r.at(i, j).e == land)
                V.prove(f"{tag}: the mask itself is not changed", q["d"].at(i, j).e == q["d0"].at(i, j).e)
                V.cover(f"{tag}: land", land)
                if fm != "land marsh":
                    V.cover(f"{tag}: water", z3.Not(land))
            V.verify(run, post, None)


CONTRACTS = [contract_mask, contract_build_plain, contract_build_center, contract_build_padded, contract_build_node, contract_build_ignored,
             contract_build_missing]
