"""C14: meshes written to and read from files."""
import numpy as np
import z3

ID = "C14"
BOUNDED_FUNCTIONS = ["UGrid.save_as_netcdf / UGrid.from_ncfile / Dataset.save / Dataset.from_netCDF on real files (both formats)"]


# ------------------------------------------------------------------------------------------------ bounded companion
def _same(a, b, what):
    if (a is None) != (b is None):
        return f"{what}: {'lost' if a is None else 'invented'}"
    if a is None:
        return None
    a, b = np.ma.filled(np.ma.asarray(a), -77), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        return f"{what}: {a.tolist()} instead of {b.tolist()}"
    return None


ALL = ("nodes", "faces", "edges", "boundaries", "face_face_connectivity", "face_edge_connectivity", "face_coordinates", "edge_coordinates",
       "boundary_coordinates")


def oracle_save(case):
    """save to a file, load it again"""
    import os
    import random
    import shutil
    import tempfile
    import warnings
    import gridded
    import netCDF4
    from gridded.grids import Grid, Grid_U
    from gridded.pyugrid.ugrid import UGrid
    from gridded.variable import Variable
    from . import common
    warnings.simplefilter("ignore")
    rng = random.Random(case["seed"])
    P, F, _ = common.tri_mesh(rng, case["nx"], case["ny"], rot=.4, off=(-70, 40))
    if case["few"]:
        F = F[:case["few"]]
    cls = Grid_U if case["how"] == "dataset" else UGrid
    g = cls(nodes=P, faces=F if case["faces"] else None, **({"mesh_name": case["mesh"]} if case["mesh"] else {}))
    for what in case["build"]:
        if case["faces"]:
            getattr(g, "build_" + what)()
    if not case["faces"] or case["edges"]:
        g.edges = [rng.sample(range(len(P)), 2) for _ in range(case["edges"] or 3)]
        g.face_edge_connectivity = g.edge_coordinates = None
    keep = {k: None if getattr(g, k) is None else np.array(getattr(g, k)) for k in ALL}
    vs = {}
    sizes = dict(node="nodes", face="faces", edge="edges", boundary="boundaries")
    used = set(len(v) for v in keep.values() if v is not None)
    for k in range(case["nv"]):
        w = rng.choice([x for x in sizes if keep[sizes[x]] is not None])
        v = np.array([rng.uniform(-9, 9) for _ in range(len(keep[sizes[w]]))]).astype(rng.choice(["f8", "f4", "i4"]))
        vs[f"var{k}"] = Variable(name=f"var{k}", data=v, grid=g, location=w, attributes={"units": "m s-1", "standard_name": f"v{k}"})
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "mesh.nc")
        if case["clobber"]:
            UGrid(nodes=P[::-1] + 1, faces=F[:1], mesh_name="older").save(path).close()
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            kw = {"format": case["format"]} if case["format"] else {}
            if case["how"] == "dataset":
                gridded.Dataset(grid=g, variables=vs).save(path, **kw)
            elif case["how"] == "as_netcdf":
                g.save_as_netcdf(path, **kw)
                vs = {}
            else:
                g.save(path, variables=vs, **kw).close()
        import gc
        gc.collect()
        with netCDF4.Dataset(path) as nc:
            if (case["format"] == "netcdf3") != nc.data_model.startswith("NETCDF3"):
                return f"format {case['format']} was written as {nc.data_model}"
            for k, v in vs.items():
                x = nc.variables[k]
                msg = _same(x[:], v.data, f"data of {k} on {v.location}")
                if msg:
                    return msg
                if x.location != v.location or x.mesh != g.mesh_name or x.units != "m s-1" or x.standard_name != v.attributes["standard_name"]:
                    return f"attributes of {k}: {x.__dict__}"
        for k in ALL:
            msg = _same(getattr(g, k), keep[k], f"{k} of the saved mesh")
            if msg:
                return msg
        loads = {"from_ncfile": lambda: UGrid.from_ncfile(path), "named": lambda: UGrid.from_ncfile(path, mesh_name=g.mesh_name),
                 "Grid": lambda: Grid.from_netCDF(path), "Dataset": lambda: gridded.Dataset.from_netCDF(path)}
        got = loads[case["load"]]()
        if case["load"] == "Dataset":
            for k, v in vs.items():
                if v.location in ("node", "face"):
                    if k not in got.variables:
                        return f"variable {k} on {v.location} is not in the loaded dataset"
                    msg = _same(got.variables[k].data[:], v.data, f"loaded data of {k}")
                    if msg or got.variables[k].location != v.location:
                        return msg or f"{k} on {v.location} was loaded on {got.variables[k].location}"
            got = got.grid
        if got.mesh_name != g.mesh_name:
            return f"mesh {g.mesh_name} was loaded as {got.mesh_name}"
        for k in ALL:
            msg = _same(getattr(got, k), keep[k], f"loaded {k}")
            if msg:
                return msg
    finally:
        shutil.rmtree(d)
    return None


def oracle_load(case):
    """files of others"""
    import random
    import warnings
    import netCDF4
    from gridded.grids import Grid, Grid_U
    from gridded.pyugrid.ugrid import UGrid
    from . import common
    warnings.simplefilter("ignore")
    rng = random.Random(case["seed"])
    P, F, _ = common.tri_mesh(rng, case["nx"], case["ny"], rot=.4, off=(-70, 40))
    if case["few"]:
        F = F[:case["few"]]
    links = UGrid(nodes=P, faces=F)
    links.build_face_face_connectivity()
    links.build_boundaries()
    L, Bn = links.face_face_connectivity, links.boundaries
    base, order, named = case["base"], case["order"], case["named"]
    ugrid = case["kind"] == "ugrid"
    guess = base is None or not ugrid
    off = case["guess"] if guess else base
    if guess and off and (F.max() != len(P) - 1 or Bn.max() != len(P) - 1):
        return None         # ambiguous: one-based without start_index, last node not used
    if order == "F" and (not named or not ugrid) and len(F) == 3 or len(Bn) == 2 and not named:
        return None         # ambiguous
    if not ugrid and len(F) == 3:
        return None
    ds = netCDF4.Dataset(f"mem{rng.getrandbits(60)}.nc", "w", diskless=True, persist=False)
    try:
        for n, s in (("nn", len(P)), ("nf", len(F)), ("nv", 3), ("nb", len(Bn)), ("two", 2)):
            ds.createDimension(n, s)
        up = (lambda s: s.upper()) if case["upper"] else (lambda s: s)

        def var(n, dims, data, dt, **a):
            v = ds.createVariable(n, dt, dims)
            v[:] = data
            v.setncatts(a)
            return v
        st = {} if base is None else {"start_index": np.int32(base)}
        bst, boff = (dict(st), off) if case["bbase"] == "same" else ({"start_index": np.int32(case["bbase"])}, case["bbase"])
        if bst and case["bbase"] != "same" and rng.random() < .5 and (boff == 0 or Bn.max() == len(P) - 1):
            bst = {}
        conn = lambda n, A, dims, **a: var(n, dims if order == "C" else dims[::-1], A if order == "C" else A.T, case["dtype"], **a)
        if ugrid:
            x = {"standard_name": "longitude"} if not case["units"] else {"units": case["units"][0]}
            y = {"standard_name": "latitude"} if not case["units"] else {"units": case["units"][1]}
            var("X", ("nn",), P[:, 0], "f8", **x), var("Y", ("nn",), P[:, 1], "f8", **y)
            conn("tri", F + off, ("nf", "nv"), **st)
            conn("bnd", Bn + boff, ("nb", "two"), **bst)
            flag = case["flag"]
            LL = np.where(L == -1, flag, L + (base or 0))
            L = np.where(L == -1, flag, L)
            conn("link", LL, ("nf", "nv"), **dict(st, **({"flag_values": np.dtype(case["dtype"]).type(flag)} if base else {})))
            t = ds.createVariable("topo", "i4", ())
            t.setncatts(dict(cf_role="mesh_topology", topology_dimension=np.int32(2), node_coordinates=case["xy"], face_node_connectivity="tri",
                             boundary_node_connectivity="bnd", face_face_connectivity="link"))
            if named:
                t.face_dimension, t.boundary_dimension = "nf", "nb"
            g = UGrid.from_ncfile(dataset=ds) if rng.random() < .5 else Grid.from_netCDF(dataset=ds)
            for k, w in (("boundaries", Bn), ("face_face_connectivity", L)):
                msg = _same(getattr(g, k), w, k)
                if msg:
                    return f"{case}: {msg}"
        else:
            (a, b), f = case["names"], case["fname"]
            top = None
            if case["topology"]:
                a, b, f = [None if s is None else s + "_Mine" for s in (a, b, f)]
                top = {"faces": f, "nodes": a} if b is None else {"faces": f, "node_lon": a, "node_lat": b}
            a, b, f = [None if s is None else up(s) for s in (a, b, f)]
            if top:
                top = {k: up(v) for k, v in top.items()}
            if b is None:
                var(a, ("nn", "two"), P, "f8")
            else:
                var(a, ("nn",), P[:, 0], "f8"), var(b, ("nn",), P[:, 1], "f8")
            conn(f, F + off, ("nf", "nv"))
            g = Grid.from_netCDF(dataset=ds, grid_topology=top) if top or rng.random() < .5 else Grid_U.from_netCDF(dataset=ds)
            if not isinstance(g, Grid_U):
                return f"{case}: loaded as {type(g).__name__}"
        for k, w in (("nodes", P), ("faces", F)):
            msg = _same(getattr(g, k), w, k)
            if msg:
                return f"{case}: {msg}"
    finally:
        ds.close()
    return None


def bounded(B):
    rng = B.rng
    builds = ["edges", "boundaries", "face_face_connectivity", "face_coordinates", "edge_coordinates", "boundary_coordinates", "face_edge_connectivity"]
    for c in range(B.n(160, 1500)):
        b = [x for x in builds if rng.random() < .6]
        if "edges" not in b:
            b = [x for x in b if x not in ("edge_coordinates", "face_edge_connectivity")]
        if "boundaries" not in b:
            b = [x for x in b if x != "boundary_coordinates"]
        faces = rng.random() < .9
        B.case("save and load", oracle_save, dict(
            seed=rng.getrandbits(30), nx=rng.randint(2, 5), ny=rng.randint(2, 4), few=rng.choice([None, None, 1, 2, 3]), faces=faces, build=b,
            edges=rng.choice([0, 0, 1, 2, 3]), nv=rng.choice([0, 1, 3]), mesh=rng.choice([None, "mesh", "fvcom_mesh"]), clobber=rng.random() < .2,
            how=rng.choice(["save", "as_netcdf", "dataset"]), format=rng.choice([None, "netcdf4", "netcdf3"]),
            load=rng.choice(["from_ncfile", "named", "Grid", "Dataset"])))
    for c in range(B.n(400, 4000)):
        B.case("load", oracle_load, dict(
            seed=rng.getrandbits(30), nx=rng.randint(2, 5), ny=rng.randint(2, 4), few=rng.choice([None, None, 1, 2, 3]), kind=rng.choice(["ugrid", "ugrid", "other"]),
            base=rng.choice([None, 0, 1]), bbase=rng.choice(["same", "same", 0, 1]), flag=rng.choice([-1, -1, -999, 32000, 0]) , guess=rng.choice([0, 1]), order=rng.choice("CF"), named=rng.random() < .5, dtype=rng.choice(["i4", "i8", "i2"]),
            units=rng.choice([None, None, ("degrees_east", "degrees_north"), ("degree_E", "degreeN"), ("degreesE", "degree_north")]),
            xy=rng.choice(["X Y", "Y X"]), upper=rng.random() < .3, topology=rng.random() < .4,
            names=rng.choice([("node_lon", "node_lat"), ("lon", "lat"), ("longitude", "latitude"), ("nodes", None), ("node", None)]),
            fname=rng.choice(["faces", "tris", "nv", "ele", "nele"])))


# ------------------------------------------------------------------------------------------------ contracts
def _ds(V):
    from pyvc.ncfile import build
    V.mod("gridded.pyugrid.ugrid")
    return build(V.mod("gridded.utilities").nc4)


def _eq(V, cx, tag, got, want, n, m=None):
    """got equals the symbolic array want of n rows (and m columns)"""
    from pyvc.core import And, zi
    if got is None:
        V.prove(f"{tag}: present", False)
        return
    i = cx.fresh_index(n, "i").e
    if m is None:
        V.prove(tag, And(len(got.sshape) == 1, zi(got.sshape[0]) == zi(n), got.at(i).e == want(i)))
        return
    V.prove(f"{tag}: shape", And(len(got.sshape) == 2, zi(got.sshape[0]) == zi(n), zi(got.sshape[1]) == m))
    for c in range(m):
        V.prove(f"{tag}: column {c}", got.at(i, c).e == want(i, z3.IntVal(c)))


PARTS = {
    "nodes": (), "faces": ("faces",), "topology": ("faces", "edges", "boundaries", "face_face_connectivity"),
    "coordinates": ("faces", "edges", "boundaries", "face_coordinates", "edge_coordinates", "boundary_coordinates"),
    "edges only": ("edges", "edge_coordinates"), "boundaries only": ("faces", "boundaries", "boundary_coordinates"),
    "face links": ("faces", "face_face_connectivity", "face_edge_connectivity", "edges"),
}


def _parts(cx, which, m):
    """symbolic nodes and optional parts of a mesh"""
    from pyvc.arr import sym_array
    from pyvc.core import And
    from pyvc.verify import dim
    N, nf, ne, nb = dim("N", 1), dim("nf", 1), dim("ne", 1), dim("nb", 1)
    node = [(1, lambda raw, i: And(raw(i).e >= 0, raw(i).e < N))]
    q = dict(N=N, nf=nf, ne=ne, nb=nb, m=m, n=dict(nodes=N, faces=nf, edges=ne, boundaries=nb, face_face_connectivity=nf, face_edge_connectivity=nf,
                                                 face_coordinates=nf, edge_coordinates=ne, boundary_coordinates=nb))
    P = {"nodes": sym_array("node", (N, 2), "f")}
    for k in which:
        if k == "faces":
            P[k] = sym_array("face", (nf, m), "i", axioms=node)
        elif k == "face_face_connectivity":
            P[k] = sym_array("link", (nf, m), "i", axioms=[(1, lambda raw, i: And(raw(i).e >= -1, raw(i).e < nf))])
        elif k == "face_edge_connectivity":
            P[k] = sym_array("fedge", (nf, m), "i", axioms=[(1, lambda raw, i: And(raw(i).e >= 0, raw(i).e < ne))])
        elif k in ("edges", "boundaries"):
            P[k] = sym_array(k, (q["n"][k], 2), "i", axioms=node)
        else:
            P[k] = sym_array(k, (q["n"][k], 2), "f")
    q["P"] = P
    cx.ghost.update(q)
    return P


def contract_round_trip(V):
    """save, then load: the same nodes, faces, edges, boundaries, neighbours and coordinates; the mesh that was saved is unchanged and the
    data of the variables are in the file"""
    import types
    from pyvc.arr import sym_array
    from pyvc.core import zi
    V.functions = ["UGrid.save", "UGrid._save_variables", "load_grid_from_nc_dataset", "find_mesh_names", "is_valid_mesh",
                   "get_writable_dataset (open dataset)", "UGrid.from_nc_dataset"]
    V.assumes = ["netCDF4: a variable holds what was written to it (pyvc/ncfile.py)"]
    for name, which in PARTS.items():
        for m in (3, 4) if "faces" in which else (3,):
            def run(cx):
                Dataset, _ = _ds(V)
                U = V.mod("gridded.pyugrid.ugrid")
                P = _parts(cx, which, m)
                g = U.UGrid(nodes=P["nodes"], mesh_name="mesh2")
                for k in which:
                    setattr(g, k, P[k])
                q = cx.ghost
                where = [("node", q["N"])] + [(x, n) for x, n, k in (("face", q["nf"], "faces"), ("edge", q["ne"], "edges"),
                                                                     ("boundary", q["nb"], "boundaries")) if k in which]
                vs = {f"v{i}": types.SimpleNamespace(name=f"v{i}", location=w, attributes={"units": "m", "long_name": w},
                                                     data=sym_array(f"data{i}", (n,), "f")) for i, (w, n) in enumerate(where)}
                ds = Dataset()
                cx.ghost.update(g=g, ds=ds, vs=vs, where=where)
                g.save(ds, variables=vs)
                return U.UGrid.from_nc_dataset(ds, *(["mesh2"] if m == 4 else []))

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                tag = f"{name}, {m} nodes per face"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r, g, P = p.value, q["g"], q["P"]
                V.prove(f"{tag}: name of the mesh", r.mesh_name == "mesh2")
                for k in ("nodes",) + tuple(which):
                    w = 2 if k in ("nodes", "edges", "boundaries") or "coordinates" in k else m
                    _eq(V, cx, f"{tag}: {k} loaded", getattr(r, k), P[k].F, q["n"][k], w)
                    _eq(V, cx, f"{tag}: {k} of the saved mesh", getattr(g, k), P[k].F, q["n"][k], w)
                for k in ("faces", "edges", "boundaries", "face_face_connectivity", "face_edge_connectivity", "face_coordinates", "edge_coordinates",
                          "boundary_coordinates"):
                    if k not in which:
                        V.prove(f"{tag}: no {k}", getattr(r, k) is None)
                for i, (w, n) in enumerate(q["where"]):
                    v = q["ds"].variables[f"v{i}"]
                    _eq(V, cx, f"{tag}: {w} data in the file", v[:], q["vs"][f"v{i}"].data.F, n)
                    V.prove(f"{tag}: {w} data described", v.location == w and v.mesh == "mesh2" and v.units == "m" and v.long_name == w
                            and v.dimensions == (f"mesh2_num_{w}",))
                V.cover(f"{tag}: reached")
            V.verify(run, post, None)


def contract_conventions(V):
    """loading from files of others: index base, storage order, order and naming of the coordinates"""
    from pyvc.arr import new, sym_array
    from pyvc.core import And, Not, Sym, zi
    from pyvc.verify import dim
    V.functions = ["load_grid_from_nc_dataset"]
    V.assumes = ["a file without start_index is zero-based, or one-based and uses its last node",
                 "a file that stores the faces as columns says so by naming its dimensions, or has other than three faces of three nodes"]
    for base, bbase in [(b, b) for b in (None, 0, 1)] + [(1, None), (None, 1), (0, None), (None, 0), (0, 1), (1, 0)]:
        for order in ("C", "F"):
            for named in (False, True):
                for coords in ("lon lat", "lat lon", "units", "projected"):
                    if coords != "lon lat" and (order == "F") != named or base != bbase and (coords != "lon lat" or named):
                        continue
                    m = 4 if named else 3

                    def run(cx):
                        Dataset, _ = _ds(V)
                        U = V.mod("gridded.pyugrid.ugrid")
                        N, nf, nb = dim("N", 1), dim("nf", 1), dim("nb", 1)

                        def conn(n, rows, cols, base):
                            one = cx.branch(cx.fresh(f"one_based_{n}", "b").e) if base is None else base == 1
                            off = 1 if one else 0
                            A = sym_array(n, (rows, cols), "i", axioms=[(1, lambda raw, i: And(raw(i).e >= off, raw(i).e < N + off))])
                            if base is None and one:      # ambiguous: see the assumptions
                                cx.fact(A.at(cx.fresh_index(rows, "last"), 0).e == N)
                            return A, off
                        F, off = conn("face", nf, m, base)
                        B, boff = conn("bnd", nb, 2, bbase)
                        if not named:
                            cx.fact(nf != 3)          # ambiguous: see the assumptions
                            cx.fact(nb != 2)
                        x, y = sym_array("x", (N,), "f"), sym_array("y", (N,), "f")
                        ds = Dataset()
                        for n, s in (("nn", N), ("nf", nf), ("nv", m), ("nb", nb), ("two", 2)):
                            ds.createDimension(n, s)

                        def var(n, dims, kind, data, **attrs):
                            v = ds.createVariable(n, np.float64 if kind == "f" else np.int32, dims)
                            if data is not None:
                                v[:] = data
                            for k, a in attrs.items():
                                setattr(v, k, a)
                            return v
                        st, bst = [{} if b is None else {"start_index": b} for b in (base, bbase)]
                        ca = {"lon lat": ({"standard_name": "longitude"}, {"standard_name": "latitude"}),
                              "lat lon": ({"standard_name": "longitude"}, {"standard_name": "latitude"}),
                              "units": ({"units": "degrees_east"}, {"units": "degreeN"}),
                              "projected": ({"standard_name": "projection_x_coordinate"}, {"standard_name": "projection_y_coordinate"})}[coords]
                        var("X", ("nn",), "f", x, **ca[0])
                        var("Y", ("nn",), "f", y, **ca[1])
                        f = F if order == "C" else F.T
                        var("tri", ("nf", "nv") if order == "C" else ("nv", "nf"), "i", f, **st)
                        var("bnd", ("nb", "two") if order == "C" else ("two", "nb"), "i", B if order == "C" else B.T, **bst)
                        top = {"face_dimension": "nf", "boundary_dimension": "nb"} if named else {}
                        var("topo", (), "i", None, cf_role="mesh_topology ", topology_dimension=2, node_coordinates="X Y" if coords == "lon lat" else "Y X",
                            face_node_connectivity="tri", boundary_node_connectivity="bnd", **top)
                        cx.ghost.update(N=N, nf=nf, nb=nb, F=F, B=B, x=x, y=y, off=off, boff=boff)
                        return U.UGrid.from_nc_dataset(ds)

                    def post(V, p):
                        cx, q = p.ctx, p.ctx.ghost
                        tag = f"start_index {base} (boundaries {bbase}), {order} order, {'named dimensions' if named else 'guessed'}, {coords}"
                        if p.outcome == "raise":
                            V.prove(f"{tag}: no exception", False)
                            return
                        g, off = p.value, q["off"]
                        _eq(V, cx, f"{tag}: faces", g.faces, lambda i, c: q["F"].F(i, c) - off, q["nf"], m)
                        _eq(V, cx, f"{tag}: boundaries", g.boundaries, lambda i, c: q["B"].F(i, c) - q["boff"], q["nb"], 2)
                        _eq(V, cx, f"{tag}: longitudes", g.node_lon, q["x"].F, q["N"])
                        _eq(V, cx, f"{tag}: latitudes", g.node_lat, q["y"].F, q["N"])
                        V.cover(f"{tag}: reached")
                    V.verify(run, post, None)


def contract_links(V):
    """loading the neighbours of the faces: numbers of faces (not of nodes), with a flag where there is none"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Or, Sym
    from pyvc.verify import dim
    V.functions = ["load_grid_from_nc_dataset"]
    for base in (None, 0, 1):
        for order in "CF":
            def run(cx):
                Dataset, _ = _ds(V)
                U = V.mod("gridded.pyugrid.ugrid")
                N, nf = dim("N", 1), dim("nf", 4)
                off = base or 0
                flag = cx.fresh("flag", "i").e
                cx.fact(Or(flag < off, flag >= nf + off))
                F = sym_array("face", (nf, 3), "i", axioms=[(1, lambda raw, i: And(raw(i).e >= 0, raw(i).e < N))])
                K = sym_array("link", (nf, 3), "i", axioms=[(1, lambda raw, i: Or(raw(i).e == flag, And(raw(i).e >= off, raw(i).e < nf + off)))])
                ds = Dataset()
                for n, s in (("nn", N), ("nf", nf), ("nv", 3)):
                    ds.createDimension(n, s)
                for n in "XY":
                    v = ds.createVariable(n, np.float64, ("nn",))
                    v[:] = sym_array(n, (N,), "f")
                    v.standard_name = "longitude" if n == "X" else "latitude"
                tri = ds.createVariable("tri", np.int32, ("nf", "nv"))
                tri[:] = F
                tri.start_index = 0
                link = ds.createVariable("link", np.int32, ("nf", "nv") if order == "C" else ("nv", "nf"))
                link[:] = K if order == "C" else K.T
                if base is not None:
                    link.start_index = base
                if base:
                    link.flag_values = Sym("i", flag)
                top = ds.createVariable("topo", np.int32, ())
                top.cf_role, top.topology_dimension, top.node_coordinates = "mesh_topology", 2, "X Y"
                top.face_node_connectivity, top.face_face_connectivity = "tri", "link"
                cx.ghost.update(N=N, nf=nf, F=F, K=K, flag=flag)
                return U.UGrid.from_nc_dataset(ds)

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                flag = q["flag"]
                tag = f"start_index {base}, any flag, {order} order"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                _eq(V, cx, f"{tag}: faces", p.value.faces, q["F"].F, q["nf"], 3)
                K = q["K"].F
                _eq(V, cx, f"{tag}: neighbours", p.value.face_face_connectivity, lambda i, c: z3.If(K(i, c) == flag, flag, K(i, c) - (base or 0)), q["nf"], 3)
                V.cover(f"{tag}: reached")
            V.verify(run, post, None)


def contract_other_files(V):
    """Grid_U from files that do not follow the conventions: the names of the variables say what they are"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    from pyvc.verify import dim
    V.functions = ["Grid_U._find_required_grid_attrs", "GridBase._find_required_grid_attrs", "Grid.from_netCDF", "Grid_U.from_netCDF"]
    V.assumes = ["other than three faces; one-based files use their last node"]
    cases = [("node_lon", "node_lat", "faces"), ("lon", "lat", "nv"), ("longitude", "latitude", "ele"), ("Lon", "LAT", "Tris"), ("nodes", None, "nele"),
             ("lon", "lat", "Mesh2_tri"), ("X", "Yy", "Nv2"), ("pts", None, "nv")]
    for lon, lat, face in cases:
        for base in (0, 1):
            for order in "CF":
                def run(cx):
                    Dataset, _ = _ds(V)
                    G = V.mod("gridded.grids")
                    N, nf = dim("N", 1), dim("nf", 1)
                    cx.fact(nf != 3)
                    F = sym_array("face", (nf, 3), "i", axioms=[(1, lambda raw, i: And(raw(i).e >= base, raw(i).e < N + base))])
                    if base:
                        cx.fact(F.at(cx.fresh_index(nf, "last"), 0).e == N)
                    x, y = sym_array("x", (N,), "f"), sym_array("y", (N,), "f")
                    ds = Dataset()
                    for n, s in (("nn", N), ("nf", nf), ("nv", 3), ("two", 2)):
                        ds.createDimension(n, s)
                    if lat is None:
                        from pyvc.arr import new
                        from pyvc.core import Sym
                        v = ds.createVariable(lon, np.float64, ("nn", "two"))
                        v[:] = new((N, 2), "f", lambda i: Sym("f", z3.If(zi(i[1]) == 0, x.F(zi(i[0])), y.F(zi(i[0])))))
                    else:
                        for n, a in ((lon, x), (lat, y)):
                            v = ds.createVariable(n, np.float64, ("nn",))
                            v[:] = a
                    v = ds.createVariable(face, np.int32, ("nf", "nv") if order == "C" else ("nv", "nf"))
                    v[:] = F if order == "C" else F.T
                    top = None
                    if face not in ("faces", "nv", "ele", "Tris", "nele"):
                        top = {"node_lon": lon, "node_lat": lat, "faces": face}
                    elif lon == "pts":
                        top = {"nodes": lon, "faces": face}
                    cx.ghost.update(N=N, nf=nf, F=F, x=x, y=y, v=v)
                    if top is None:
                        return G.Grid_U.from_netCDF(dataset=ds)
                    return G.Grid.from_netCDF(dataset=ds, grid_topology=top)

                def post(V, p):
                    cx, q = p.ctx, p.ctx.ghost
                    tag = f"{lon} {lat} {face}, base {base}, {order} order"
                    if p.outcome == "raise":
                        V.prove(f"{tag}: no exception", False)
                        return
                    g = p.value
                    V.prove(f"{tag}: kind of grid", type(g).__name__ == "Grid_U")
                    _eq(V, cx, f"{tag}: faces", g.faces, lambda i, c: q["F"].F(i, c) - base, q["nf"], 3)
                    _eq(V, cx, f"{tag}: longitudes", g.node_lon, q["x"].F, q["N"])
                    _eq(V, cx, f"{tag}: latitudes", g.node_lat, q["y"].F, q["N"])
                    V.cover(f"{tag}: reached")
                V.verify(run, post, None)


CONTRACTS = [contract_round_trip, contract_conventions, contract_links, contract_other_files]
