"""C22: grids of files that follow no convention: what kind of grid it is and where its parts are."""
import itertools

import numpy as np
import z3

ID = "C22"
BOUNDED_FUNCTIONS = ["Grid.from_netCDF on real files without conventions"]
NODES = [("node_lon", "node_lat"), ("lon", "lat"), ("lon_psi", "lat_psi"), ("longitude", "latitude")]
PARTS = {"center": [("center_lon", "center_lat"), ("lon_rho", "lat_rho"), ("lonc", "latc")], "edge1": [("edge1_lon", "edge1_lat"), ("lon_u", "lat_u")],
         "edge2": [("edge2_lon", "edge2_lat"), ("lon_v", "lat_v")]}
MASKS = {"node": "mask_psi", "center": "mask_rho", "edge1": "mask_u", "edge2": "mask_v"}
FACES = ["faces", "tris", "nv", "ele", "nele"]
WORDS = {"Grid_S": ["sgrid", "pygrid_s", "staggered", "curvilinear", "roms"], "Grid_U": ["ugrid", "pygrid_u", "triangular", "unstructured"],
         "Grid_R": ["rgrid", "regular", "rectangular", "rectilinear"]}


# ------------------------------------------------------------------------------------------------ bounded companion
def oracle_file(case):
    """real files: the kind of grid, its coordinates and masks are those of the variables with the names"""
    import os
    import random
    import shutil
    import tempfile
    import warnings
    import netCDF4
    from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
    warnings.simplefilter("ignore")
    rng = random.Random(case["seed"])
    d = tempfile.mkdtemp()
    kind, ny, nx = case["kind"], case["ny"], case["nx"]
    spell = lambda s: rng.choice([s, s, s.upper(), s.capitalize()])
    rnd = lambda *s: np.round(np.array([rng.uniform(-80, 80) for _ in range(int(np.prod(s)))]).reshape(s), 3)
    try:
        p, other = os.path.join(d, "a.nc"), os.path.join(d, "b.nc")
        shapes = {"node": (ny, nx), "center": (ny + 1, nx + 1), "edge1": (ny + 1, nx), "edge2": (ny, nx + 1)}
        want, top, used = {}, {}, set()
        with netCDF4.Dataset(p, "w") as nc, netCDF4.Dataset(other, "w") as no:
            for f in (nc, no):
                for k, (a, b) in shapes.items():
                    f.createDimension("j" + k, a)
                    f.createDimension("i" + k, b)
                f.createDimension("n", 2 * ny)
                f.createDimension("f", nx + 2)
                f.createDimension("three", 3)
                f.createDimension("two", 2)
            if kind != "U" and not case["topology"]:
                no.createVariable("nv", "i4", ("f", "three"))[:] = 0

            def var(name, dims, a, t="f8"):
                for f in (nc, no):
                    v = f.createVariable(name, t, dims)
                    v[:] = a if f is nc else np.asarray(a) * 0 + 1
                return np.asarray(a)

            def pair(what, names, dims, shapes):
                """one to all of the pairs of names: the first is the one"""
                ks = sorted(rng.sample(range(len(names)), rng.randint(1, len(names)))) if not case["topology"] else [0]
                if ks[0] and not case["topology"] and rng.random() < .4:      # half of a pair
                    var(names[0][0], dims[0], rnd(*shapes[0]))
                for i, k in enumerate(ks):
                    n = names[k] if not case["topology"] else ("own_" + what + "_x", "own_" + what + "_y")
                    n = tuple(spell(s) for s in n)
                    a = [var(s, dm, rnd(*sh)) for s, dm, sh in zip(n, dims, shapes)]
                    if i == 0:
                        want[what + "_lon"], want[what + "_lat"] = a
                        for c, s in zip(("_lon", "_lat"), n):
                            top[what + c] = rng.choice([s, s.lower()])
            if kind == "S":
                parts = ["node"] + [k for k in PARTS if rng.random() < .7]
                for k in parts:
                    pair(k, NODES if k == "node" else PARTS[k], [("j" + k, "i" + k)] * 2, [shapes[k]] * 2)
                for k in parts:
                    if rng.random() < .6:
                        n = spell(MASKS[k] if not case["topology"] else "own_mask_" + k)
                        want[k + "_mask"] = var(n, ("j" + k, "i" + k), np.array([rng.choice([0, 1]) for _ in range(int(np.prod(shapes[k])))]).reshape(shapes[k]), "i4")
                        top[k + "_mask"] = n
            elif kind == "R":
                pair("node", NODES, [("inode",), ("jnode",)], [(nx,), (ny,)])
            else:
                if case["composite"]:
                    n = rng.choice(["nodes", "node"]) if not case["topology"] else "points"
                    a = var(spell(n), ("n", "two"), rnd(2 * ny, 2))
                    want["node_lon"], want["node_lat"] = a[:, 0], a[:, 1]
                    top["nodes"] = n
                else:
                    pair("node", NODES, [("n",)] * 2, [(2 * ny,)] * 2)
                F = np.array([rng.sample(range(2 * ny), 3) for _ in range(nx + 2)])
                F[0, 0] = 2 * ny - 1
                F[0, 1:] = 0, 1
                base, tr = rng.choice([0, 1]), rng.random() < .5 or nx == 1
                want["faces"] = F
                n = rng.choice(FACES) if not case["topology"] else "own_faces"
                var(n, ("three", "f") if tr else ("f", "three"), (F.T if tr else F) + base, "i4")
                top["faces"] = n
            if case["none"]:
                var("depth", ("jnode", "inode"), rnd(ny, nx))
        cls = {"S": Grid_S, "R": Grid_R, "U": Grid_U}[kind]
        kw = {}
        if case["topology"]:
            kw["grid_topology"] = top
            word = rng.choice(WORDS[cls.__name__])
            if kind == "R" or rng.random() < .5:
                if rng.random() < .5:
                    top["grid_type"] = spell(word)
                else:
                    kw["grid_type"] = spell(word)
        elif rng.random() < .4:
            kw["grid_type"] = rng.choice([cls, spell(rng.choice(WORDS[cls.__name__]))])
        how = rng.choice(["file", "dataset", "two"])
        if how == "two":
            kw.update(data_file=other, grid_file=p)
        elif how == "file":
            kw.update(filename=p)
        else:
            kw.update(dataset=netCDF4.Dataset(p))
        g = cls.from_netCDF(**kw) if "grid_type" not in kw and rng.random() < .2 else Grid.from_netCDF(**kw)
        what = f"{kind} by {({k: v for k, v in kw.items() if k.startswith('grid_t')})} from {how}"
        if type(g) is not cls:
            return f"{what}: {type(g)}"
        names = ("faces", "node_lon", "node_lat") if kind == "U" else ("node_lon", "node_lat") if kind == "R" else tuple(a + b for a in shapes for b in ("_lon", "_lat", "_mask"))
        for n in names:
            x = getattr(g, n)
            if n not in want:
                if x is not None:
                    return f"{what}: {n} is {x}, the file has none"
            elif x is None or not np.array_equal(np.asarray(x[:]), want[n]):
                return f"{what}: {n} is {x} instead of {want[n].tolist()}"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bounded(B):
    rng = B.rng
    for _ in range(B.n(250, 3000)):
        B.case("files", oracle_file, dict(seed=rng.getrandbits(40), kind=rng.choice("SSRU"), ny=rng.randint(2, 5), nx=rng.choice([2, 3, 4, 5]), topology=rng.random() < .4,
                                          composite=rng.random() < .3, none=rng.random() < .5))


# ------------------------------------------------------------------------------------------------ contracts
def _put(ds, name, dims, shape, kind="f"):
    from pyvc.arr import sym_array
    a = sym_array(f"val_{name}", shape, kind)
    v = ds.createVariable(name, np.float64 if kind == "f" else np.int32, dims)
    v[:] = a
    return a


def contract_kind(V):
    """the kind of grid follows from what is asked for, else from the description that is given, else from the topology of the file, else from its variables"""
    from pyvc.verify import dim
    from .C14 import _ds
    V.functions = ["Grid._get_grid_type", "Grid._find_topology_var", "Grid_U / Grid_S / Grid_R / GridBase._find_required_grid_attrs"]
    V.assumes = ["precondition: no attribute grid_type of the file other than one of the words for curvilinear and unstructured grids in lower case"]
    G = V.mod("gridded.grids")
    u, r, s = {"lon": 1, "lat": 1, "nv": 2}, {"lon": 1, "lat": 1}, {"lon": 2, "lat": 2}
    confs = []
    for cls, words in WORDS.items():
        for w in words:
            for sp in (w, w.upper(), w.capitalize()):
                confs += [(dict(grid_type=sp), f, None, cls) for f in (u, {})]
                confs.append((dict(grid_topology={"grid_type": sp, "node_lon": "lon"}), u, None, cls))
            if cls != "Grid_R":
                confs.append(({}, r, dict(grid_type=w), cls))
    for w in ("", "grid", "s", "sgrids", "triangle"):
        confs.append((dict(grid_type=w), u, None, ValueError))
    confs += [(dict(grid_topology={"faces": "nv"}), s, None, "Grid_U"), (dict(grid_topology={"faces": "nv", "grid_type": "regular"}), s, None, "Grid_U"),
              (dict(grid_topology={"node_lon": "lon", "node_lat": "lat"}), r, None, "Grid_S"), (dict(grid_type="regular", grid_topology={"faces": "nv"}), u, None, "Grid_R")]
    for n in NODES:
        for up in (False, True):
            c = [k.upper() if up else k for k in n]
            confs += [({}, {k: 1 for k in c}, None, "Grid_R"), ({}, {k: 2 for k in c}, None, "Grid_S"), ({}, {c[0]: 1, c[1]: 2}, None, "Grid_S")]
            for f in FACES:
                confs.append(({}, dict({k: 1 for k in c}, **{f.upper() if up else f: 2}), None, "Grid_U"))
            confs += [({}, {c[0]: 1}, None, ValueError), ({}, {c[1]: 2, "nv": 2}, None, ValueError)]
    confs += [({}, {k: 2, f: 2}, None, "Grid_U") for k in ("node", "nodes") for f in FACES]
    confs += [({}, {}, None, ValueError), ({}, {"nv": 2}, None, ValueError), ({}, {"depth": 2, "lons": 1, "lats": 1}, None, ValueError)]
    for role in ("mesh_topology", "grid_topology"):
        for f in (u, r, s, {}):
            confs += [({}, f, dict(cf_role=role, node_coordinates="x y"), "Grid_U"), ({}, f, dict(cf_role=role, node_coordinates="x y", node_dimensions="a b"), "Grid_S"),
                      ({}, f, dict(cf_role=role, node_dimensions="a b"), "Grid_S")]
    for kw, file, at, want in confs:
        def run(cx):
            Dataset, _ = _ds(V)
            ds = Dataset(**(at if at and "grid_type" in at else {}))
            n, m = dim("n", 1), dim("m", 1)
            cx.fact(m != 3)
            cx.fact(n != 3)
            for k, x in (("n", n), ("m", m), ("two", 2), ("three", 3)):
                ds.createDimension(k, x)
            for k, nd in file.items():
                low = k.lower()
                dims, sh = (("m", "three"), (m, 3)) if low in FACES else (("n", "two"), (n, 2)) if low in ("node", "nodes") else (("n", "m")[:nd], (n, m)[:nd])
                _put(ds, k, dims, sh, "i" if low in FACES else "f")
            if at and "cf_role" in at:
                v = ds.createVariable("top", np.int32, ())
                for k, x in at.items():
                    setattr(v, k, x)
            return G.Grid._get_grid_type(ds, **kw)

        def post(V, p):
            tag = f"{kw}, file with {', '.join(file) or 'nothing'}{' of dimensions ' + str(list(file.values())) if file else ''}{f', {at}' if at else ''}"
            if want is ValueError:
                V.prove(f"{tag}: refused", p.outcome == "raise" and isinstance(p.value, ValueError))
                return
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            V.prove(f"{tag}: {want}", p.value is getattr(G, want))
            V.cover(f"{tag}: reached")
        V.verify(run, post, None, want_return=want is not ValueError)


def contract_parts(V):
    """curvilinear and rectangular grids: coordinates and masks are those of the variables with the first of the names that are in the grid file (whatever
    their case), or that are told; parts that it does not have are missing"""
    from pyvc.core import And, zi
    from pyvc.verify import dim
    from .C14 import _ds
    V.functions = ["Grid.from_netCDF", "Grid_S._find_required_grid_attrs", "Grid_R._find_required_grid_attrs", "GridBase._find_required_grid_attrs",
                   "GridBase.from_netCDF", "GridBase.__init__", "Grid_R.__init__", "SGrid.__init__", "parse_filename_dataset_args"]
    V.assumes = ["netCDF4: a variable holds what was written to it (pyvc/ncfile.py)"]
    G = V.mod("gridded.grids")
    confs = []
    for cls in ("Grid_S", "Grid_R"):
        for k in range(4):
            for how in ("names", "told", "class", "word"):
                names = {"node": NODES[k:] if how != "told" else [("own_x", "Own_Y")]}
                if cls == "Grid_S":
                    for i, (part, ns) in enumerate(PARTS.items()):
                        if k != i:
                            names[part] = ns[min(k, len(ns) - 1):] if how != "told" else [(f"{part}_X", f"{part}_Y")]
                for masks in ((), ("node", "center"), ("edge1", "edge2"), tuple(MASKS)) if cls == "Grid_S" else ((),):
                    for two in (False, True):
                        if two and masks and V.tier == "quick":
                            continue
                        confs.append((cls, names, tuple(m for m in masks if m in names), how, two, k % 2 == 1))
    for cls, names, masks, how, two, upper in confs:
        def run(cx):
            Dataset, _ = _ds(V)
            ds, dg = Dataset(), Dataset()
            ny, nx = dim("ny", 2), dim("nx", 2)
            sh = {"node": (ny, nx), "center": (ny + 1, nx + 1), "edge1": (ny + 1, nx), "edge2": (ny, nx + 1)}
            want, top = {}, {}
            for f in (ds, dg) if two else (dg,):
                for part, ns in names.items():
                    for k, n in enumerate(sh[part]):
                        f.createDimension(f"{part}_{k}", n)
                    for i, pair in enumerate(ns):
                        for c, n in zip(("lon", "lat"), pair):
                            dims, shape = (f"{part}_0", f"{part}_1"), sh[part]
                            if cls == "Grid_R":
                                k = 1 if c == "lon" else 0
                                dims, shape = dims[k:k + 1], shape[k:k + 1]
                            n = n.upper() if upper and how != "told" else n
                            a = _put(f, n, dims, shape)
                            if i == 0 and f is dg:
                                want[f"{part}_{c}"] = a
                                top[f"{part}_{c}"] = n.lower() if upper else n
                    if part in masks:
                        n = MASKS[part] if how != "told" else f"Wet_{part}"
                        a = _put(f, n.upper() if upper else n, (f"{part}_0", f"{part}_1"), sh[part], "i")
                        if f is dg:
                            want[f"{part}_mask"] = a
                            top[f"{part}_mask"] = n
            if two:     # what the data file has does not matter
                ds.createDimension("three", 3)
                _put(ds, "nv", ("node_0", "three"), (sh["node"][0], 3), "i")
            # half of a pair of names that come first
            for part, ns in names.items():
                first = (NODES if part == "node" else PARTS[part])[0]
                if how != "told" and ns[0] != first:
                    k = 1 if cls == "Grid_R" else 2
                    _put(dg, first[len(ns) % 2], (f"{part}_0", f"{part}_1")[:k], sh[part][:k])
            kw = {}
            if how == "told":
                kw["grid_topology"] = top
                if cls == "Grid_R":
                    top["grid_type"] = "Regular"
            elif how == "word":
                kw["grid_type"] = {"Grid_S": "ROMS", "Grid_R": "rectangular"}[cls]
            cx.ghost.update(want=want, top=top)
            kw.update(dict(data_file=ds, grid_file=dg) if two else dict(dataset=dg))
            return (getattr(G, cls) if how == "class" else G.Grid).from_netCDF(**kw)

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"{cls} by {how}: {'/'.join('|'.join(n[0] for n in ns) for ns in names.values())}, masks {'/'.join(masks) or 'none'}{', two files' if two else ''}{', upper case' if upper else ''}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            g, want = p.value, q["want"]
            V.prove(f"{tag}: kind of grid", type(g) is getattr(G, cls))
            for part in ("node", *PARTS) if cls == "Grid_S" else ("node",):
                for c in ("lon", "lat", "mask"):
                    n = f"{part}_{c}"
                    if cls == "Grid_R" and c == "mask":
                        continue
                    x = getattr(g, n)
                    if n not in want:
                        V.prove(f"{tag}: no {n}", x is None)
                        continue
                    if x is None:
                        V.prove(f"{tag}: {n} is there", False)
                        continue
                    x, a = x[:], want[n]
                    V.prove(f"{tag}: shape of {n}", And(len(x.sshape) == len(a.sshape), *[zi(b) == zi(d) for b, d in zip(x.sshape, a.sshape)]))
                    ix = [cx.fresh_index(b, "i").e for b in a.sshape]
                    V.prove(f"{tag}: {n}", x.at(*ix).e == a.F(*ix))
            if how != "told":
                V.prove(f"{tag}: the names are kept", all(g.grid_topology.get(k) == v.lower() for k, v in q["top"].items() if k != "grid_type"))
            V.cover(f"{tag}: reached")
        V.verify(run, post, None)


CONTRACTS = [contract_kind, contract_parts]
