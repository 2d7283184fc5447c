"""C15: structured grids read from SGRID files and saved to files."""
import itertools

import numpy as np

ID = "C15"
BOUNDED_FUNCTIONS = ["SGrid.load_grid / SGrid.save_as_netcdf / Grid.from_netCDF on real files", "parse_padding over names and layouts"]

PAD = {"none": 0, "low": 1, "high": 1, "both": 2}
PLACES = ("node", "center", "edge1", "edge2")
DIMS = {"node": ("jn", "in"), "center": ("jc", "ic"), "edge1": ("jc", "in"), "edge2": ("jn", "ic")}


def topology(pad, coords, names, sep=" "):
    """attributes of the topology variable; pad: of the faces (two), of the first and of the second edges"""
    py, px, p1, p2 = pad
    a = dict(cf_role="grid_topology", topology_dimension=2, node_dimensions="in jn",
             face_dimensions=f"jc: jn (padding: {py}){sep}ic: in (padding: {px})",
             edge1_dimensions=f"jc: jn (padding: {p1}){sep}in", edge2_dimensions=f"jn{sep}ic: in (padding: {p2})")
    for k, attr in (("node", "node_coordinates"), ("center", "face_coordinates"), ("edge1", "edge1_coordinates"), ("edge2", "edge2_coordinates")):
        if k in coords:
            a[attr] = " ".join(names(k, x) for x in ("lon", "lat"))
    return a


def variables(g, pad, names):
    """location and trimming of the variables of the file: None or what is wrong"""
    trim = {"none": slice(None), "low": slice(1, None), "high": slice(None, -1), "both": slice(1, -1)}
    for k, name in names.items():
        v = getattr(g, name)
        where = {"node": None, "center": "face", "edge1": "edge1", "edge2": "edge2"}[k]
        if where and v.location != where:
            return f"{name} is located at {v.location}"
        lead = (slice(None),) * (len(v.dimensions) - 2)
        cut = lead + (trim[pad[0]] if "jc" in DIMS[k] else slice(None), trim[pad[1]] if "ic" in DIMS[k] else slice(None))
        if tuple(v.center_slicing) != cut:
            return f"{name} is trimmed by {v.center_slicing}"
    return None


def attr(place, ax):
    return f"{place}_{ax}"


# ------------------------------------------------------------------------------------------------ bounded companion
def oracle_file(case):
    """write a file, load it, save it, load that"""
    import gc
    import os
    import random
    import shutil
    import tempfile
    import warnings
    import netCDF4
    from gridded.grids import Grid, Grid_S
    from gridded.pysgrid.sgrid import SGrid, load_grid
    warnings.simplefilter("ignore")
    rng = random.Random(case["seed"])
    nprng = np.random.default_rng(case["seed"])
    pad, coords, masks, names = case["pad"], case["coords"], case["masks"], attr if case["attr"] else lonlat
    ren = case["dims"]
    size = dict(zip(("jn", "in"), case["size"]))
    size["jc"], size["ic"] = size["jn"] - 1 + PAD[pad[0]], size["in"] - 1 + PAD[pad[1]]
    want = {}
    d = tempfile.mkdtemp()

    def dims(k):
        return tuple(ren[x] for x in DIMS[k])

    def check(g, what):
        for k in PLACES:
            for x in ("lon", "lat", "mask"):
                a, w = getattr(g, f"{k}_{x}"), want.get(f"{k}_{x}")
                if a is None or w is None:
                    if (a is None) != (w is None):
                        return f"{what}: {k}_{x} {'lost' if a is None else 'invented'}"
                    continue
                if x != "mask" and not isinstance(a, np.ndarray):
                    return f"{what}: {k}_{x} is a {type(a).__name__}"
                if x == "mask" and (a.flag_meanings != "land water" or list(a.flag_values) != [0, 1]):
                    return f"{what}: meaning of {k}_{x}"
                a = a[:]
                if a.shape != w.shape or np.ma.getmaskarray(a).any() or not np.array_equal(np.asarray(a), w):
                    return f"{what}: {k}_{x} is {a.tolist()} instead of {w.tolist()}"
        if "angles" in want and not np.array_equal(np.asarray(g.angles[:]), want["angles"]):
            return f"{what}: angles"
        if "angles" not in want and "center" not in coords and g.angles is not None:
            return f"{what}: angles invented"
        p = (tuple(g.face_padding), tuple(g.edge1_padding), tuple(g.edge2_padding))
        if p != (pad[:2], (pad[2], None), (None, pad[3])):
            return f"{what}: paddings {p} instead of {pad}"
        return variables(g, pad, data)
    data = {}
    try:
        path = os.path.join(d, "a.nc")
        with netCDF4.Dataset(path, "w") as nc:
            for x in rng.sample(sorted(size), 4):
                nc.createDimension(ren[x], size[x])
            nc.createDimension("t", 2)
            nc.createDimension("z", 2)
            todo = [(names(k, x), k, f"{k}_{x}", "f8") for k in coords for x in ("lon", "lat")]
            todo += [(f"{k}_mask" if case["attr"] else f"mask_{k}", k, f"{k}_mask", "i4") for k in masks]
            if case["angle"]:
                todo.append(("angle", "center", "angles", "f8"))
            rng.shuffle(todo)
            for name, k, tag, dt in todo:
                v = nc.createVariable(name, dt, dims(k))
                sh = [size[x] for x in DIMS[k]]
                want[tag] = nprng.integers(0, 2, sh) if dt == "i4" else nprng.uniform(-90, 90, sh)
                v[:] = want[tag]
                if dt == "i4":
                    v.flag_values, v.flag_meanings = np.array([0, 1], "i4"), "land water"
            for k in PLACES:
                if rng.random() < .7:
                    data[k] = f"data_{k}"
                    v = nc.createVariable(f"data_{k}", "f4", rng.choice([(), ("t",), ("t", "z"), ("z",)]) + dims(k))
                    v.grid, v.location, v.standard_name = "grid", {"center": "face"}.get(k, k), f"sea_{rng.choice('xyz')}_speed"
                    if rng.random() < .5:
                        del v.location
                    v[:] = 1
                    if k in coords:
                        v.coordinates = " ".join(names(k, x) for x in ("lon", "lat"))
            t = nc.createVariable("grid", "i2", ())
            a = topology(pad, coords, names, case["sep"])
            for k, s in a.items():
                if isinstance(s, str) and k.endswith("dimensions"):
                    s = " ".join(ren.get(w.strip(":"), w.strip(":")) + (":" if w.endswith(":") and w != "(padding:" else ":" if w == "(padding:" else "")
                                 for w in s.split(" "))
                setattr(t, k, s)
        g = {"load": lambda: SGrid.load_grid(path), "func": lambda: load_grid(path), "Grid": lambda: Grid.from_netCDF(path),
             "Grid_S": lambda: Grid_S.from_netCDF(path), "open": lambda: Grid.from_netCDF(dataset=netCDF4.Dataset(path))}[case["how"]]()
        msg = check(g, "loaded")
        if msg:
            return f"{case}: {msg}"
        out = os.path.join(d, "b.nc")
        g.save_as_netcdf(out)
        h = SGrid.load_grid(out)
        msg = check(h, "saved and loaded") or check(g, "grid that was saved")
        if msg:
            return f"{case}: {msg}"
        if sorted(h.variables) != sorted(g.variables) or h.dimensions != g.dimensions or h.node_dimensions != g.node_dimensions \
                or any(getattr(h, k) != getattr(g, k) for k in ("face_dimensions", "edge1_dimensions", "edge2_dimensions")):
            return f"{case}: saved with other variables or dimensions"
        del g, h
        gc.collect()
    finally:
        shutil.rmtree(d)
    return None


def bounded(B):
    rng = B.rng
    for c in range(B.n(160, 2000)):
        coords = ["node"] + [k for k in PLACES[1:] if rng.random() < .7]
        long = rng.random() < .4
        ren = dict(zip(("jn", "in", "jc", "ic"), ("MMAX", "NMAX2", "MMAX_center", "N_2c") if long else ("jn", "in", "jc", "ic")))
        B.case("file", oracle_file, dict(
            seed=rng.getrandbits(30), pad=tuple(rng.choice(list(PAD)) for _ in range(4)), coords=coords, masks=[k for k in coords if rng.random() < .5],
            attr=rng.random() < .3, angle=rng.random() < .5, size=rng.choice([(3, 4), (2, 2), (4, 3), (3, 3), (5, 2)]), dims=ren, sep=" ",
            how=rng.choice(["load", "func", "Grid", "Grid_S", "open"])))


# ------------------------------------------------------------------------------------------------ contracts
def _build(V, cx, conf):
    """a symbolic SGRID file of the configuration"""
    from pyvc.arr import sym_array
    from pyvc.ncfile import build
    from pyvc.verify import dim
    S, G = V.mod("gridded.pysgrid.sgrid"), V.mod("gridded.grids")
    Dataset, _ = build(V.mod("gridded.utilities").nc4)
    S.Dataset = Dataset
    n = {d: dim(d.upper() + "_", 1) for d in ("jn", "in", "jc", "ic")}
    ds = Dataset()
    for d, s in n.items():
        ds.createDimension(d, s)
    vals = {}

    def var(name, dims, kind, tag):
        v = ds.createVariable(name, np.float64 if kind == "f" else np.int32, dims)
        vals[tag] = sym_array(tag, tuple(n[d] for d in dims), kind)
        v[:] = vals[tag]
        return v
    names = conf["names"]

    def coordinates():
        for k in PLACES:
            if k in conf["coords"]:
                for ax in ("lat", "lon") if conf["late"] else ("lon", "lat"):
                    var(names(k, ax), DIMS[k], "f", f"{k}_{ax}")

    def masks():
        for k in PLACES:
            if k in conf["masks"]:
                v = var(f"mask_{k}" if not conf["long"] else f"wet_{k}", DIMS[k], "i", f"{k}_mask")
                v.flag_values, v.flag_meanings = (0, 1), "land water"
                if conf["long"]:
                    v.long_name = f"mask of {k}"
    for f in (masks, coordinates) if conf["late"] else (coordinates, masks):
        f()
    if conf["angle"]:
        var("angle", DIMS["center"], "f", "angles")
    ds.createDimension("t", 2)
    ds.createDimension("z", 3)
    for i, k in enumerate(PLACES):            # variables without a location attribute
        v = ds.createVariable(f"data_{k}", np.float64, ((), ("t",), ("t", "z"))[(i + conf.get("nd", 0)) % 3] + DIMS[k])
        v.grid, v.standard_name = "grid", "sea_water_x_velocity"
    t = ds.createVariable("grid", np.int32, ())
    for k, v in topology(conf["pad"], conf["coords"], names).items():
        setattr(t, k, v)
    cx.ghost.update(n=n, vals=vals, ds=ds)
    return S, G, Dataset, ds


def _check(V, cx, tag, g, conf):
    from pyvc.core import And, zi
    q = cx.ghost
    n, vals = q["n"], q["vals"]

    def same(what, got, want, dims):
        if got is None:
            V.prove(f"{tag}: {what} is there", False)
            return
        got = got[:]
        i, j = (cx.fresh_index(n[d], "ij").e for d in dims)
        V.prove(f"{tag}: {what}", And(len(got.sshape) == 2, zi(got.sshape[0]) == zi(n[dims[0]]), zi(got.sshape[1]) == zi(n[dims[1]]),
                                      got.at(i, j).e == want.at(i, j).e))
    for k in PLACES:
        for x in ("lon", "lat", "mask"):
            a = getattr(g, f"{k}_{x}")
            if f"{k}_{x}" in vals:
                same(f"{k} {x}", a, vals[f"{k}_{x}"], DIMS[k])
                if x == "mask":
                    V.prove(f"{tag}: meaning of the {k} mask", a.flag_values == (0, 1) and a.flag_meanings == "land water")
            else:
                V.prove(f"{tag}: no {k} {x}", a is None)
    if conf["angle"]:
        same("angles", g.angles, vals["angles"], DIMS["center"])
    py, px, p1, p2 = conf["pad"]
    V.prove(f"{tag}: padding of the faces", tuple(g.face_padding) == (py, px) and tuple(g.center_padding) == (py, px)
            and tuple(g.get_padding_by_location("center")) == (py, px))
    V.prove(f"{tag}: padding of the edges", tuple(g.edge1_padding) == (p1, None) and tuple(g.edge2_padding) == (None, p2))
    V.prove(f"{tag}: padding of the nodes", not any(g.node_padding))
    bad = variables(g, conf["pad"], {k: f"data_{k}" for k in PLACES})
    V.prove(f"{tag}: locations and padding of variables{': ' + bad if bad else ''}", bad is None)


def lonlat(k, ax):
    return f"{ax}_{k}"


def confs():
    for c in _confs():
        yield c
    for nd in (1, 2):
        yield dict(c, nd=nd)


def _confs():
    base = dict(pad=("low", "both", "none", "high"), coords=PLACES, masks=(), angle=True, names=lonlat, late=False, long=False)
    kinds = list(PAD)
    for i, (py, px) in enumerate(itertools.product(kinds, kinds)):
        yield dict(base, pad=(py, px, kinds[(i + 1) % 4], kinds[(i + i // 4 + 2) % 4]))
    for r in range(4):
        for c in itertools.combinations(("center", "edge1", "edge2"), r):
            yield dict(base, coords=("node",) + c, masks=("node",) + c, long=r == 1, late=r == 2, angle=r == 2 or "center" not in c)
    for r in range(1, 4):
        for c in itertools.combinations(PLACES, r):
            yield dict(base, masks=c, late=r == 1, long=r == 2)
    yield dict(base, names=attr, masks=PLACES)              # named as the attributes of the grid are
    yield dict(base, names=attr, masks=("center",), late=True, angle=False)


def contract_load(V):
    """a file gives exactly the coordinates, masks and paddings that it contains, and saving the grid gives a file that contains them too"""
    V.functions = ["SGrid.load_grid", "SGridAttributes.get_dimensions / get_attr_dimension / get_attr_coordinates / get_node_coordinates / get_masks / get_angles",
                   "parse_padding", "find_grid_topology_var", "SGridVariable.create_variable", "determine_variable_slicing", "infer_avg_axes",
                   "SGrid.save_as_netcdf", "SGrid._save_common_components", "SGrid.face_padding / edge1_padding / edge2_padding"]
    V.assumes = ["netCDF4: a variable holds what was written to it (pyvc/ncfile.py)"]
    for conf in confs():
        for how in ("load", "factory", "saved"):
            if how == "factory" and conf["pad"] != ("low", "both", "none", "high"):
                continue

            def run(cx):
                S, G, Dataset, ds = _build(V, cx, conf)
                if how == "factory":
                    return G.Grid.from_netCDF(dataset=ds)
                g = cx.ghost["first"] = S.SGrid.load_grid(ds)
                if how == "load":
                    return g
                g.save_as_netcdf("out.nc")
                return S.load_grid("out.nc")

            def post(V, p):
                cx = p.ctx
                tag = f"{how}, padding {conf['pad']}, {'/'.join(conf['coords'])}, masks {'/'.join(conf['masks']) or 'none'}" \
                      f"{', names of attributes' if conf['names'] is attr else ''}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                _check(V, cx, tag, p.value, conf)
                if how == "factory":
                    V.prove(f"{tag}: kind of grid", type(p.value).__name__ == "Grid_S")
                if how == "saved":
                    _check(V, cx, tag + ", the grid that was saved", cx.ghost["first"], conf)
                    V.prove(f"{tag}: sizes", [k for k, _ in p.value.dimensions] == list(cx.ghost["n"]) + ["t", "z"])
                V.cover(f"{tag}: reached")
            V.verify(run, post, None)


CONTRACTS = [contract_load]
