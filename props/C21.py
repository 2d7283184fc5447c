"""C21: depth axes read from files."""
import datetime as dt
import itertools

import numpy as np
import z3

ID = "C21"
BOUNDED_FUNCTIONS = ["Depth.from_netCDF on real files"]
ROMS = dict(Cs_r="S-coordinate stretching curves at RHO-points", Cs_w="S-coordinate stretching curves at W-points", s_rho="S-coordinate at RHO-points",
            s_w="S-coordinate at W-points", hc="S-coordinate parameter, critical depth", h="bathymetry at RHO-points", zeta="free-surface")
FVCOM = dict(siglay="ocean_sigma/general_coordinate", siglev="ocean_sigma/general_coordinate", h="sea_floor_depth_below_geoid", zeta="sea_surface_height_above_geoid")


# ------------------------------------------------------------------------------------------------ bounded companion
def oracle_file(case):
    """real files of ROMS, FVCOM and levels: the depth that is read has the terms, bathymetry, free surface and times of the file"""
    import os
    import random
    import shutil
    import tempfile
    import warnings
    import netCDF4
    from gridded.depth import Depth, DepthBase, FVCOM_Depth, L_Depth, ROMS_Depth
    from gridded.grids import Grid_S, Grid_U
    from gridded.variable import Variable
    from . import common
    warnings.simplefilter("ignore")
    rng = random.Random(case["seed"])
    d = tempfile.mkdtemp()
    rnd = lambda *s: np.array([rng.uniform(-1, 1) for _ in range(int(np.prod(s)))]).reshape(s)
    try:
        kind, nl, nt = case["kind"], case["nl"], case["nt"]
        if kind == "roms":
            lon, lat, _ = common.block(rng, case["nx"], case["ny"])
            ny, nx = lon.shape
            ext = lambda a: (lambda b: (b[:-1, :-1] + b[1:, :-1] + b[:-1, 1:] + b[1:, 1:]) / 4)(np.pad(a, 1, mode="reflect", reflect_type="odd"))
            g = Grid_S(node_lon=lon, node_lat=lat, center_lon=ext(lon), center_lat=ext(lat))
            sizes = dict(jn=ny, xn=nx, jc=ny + 1, xc=nx + 1)
            at = {"node": ("jn", "xn"), "center": ("jc", "xc")}
        else:
            P, F, _ = common.tri_mesh(rng, case["nx"], case["ny"])
            g = Grid_U(nodes=P, faces=F)
            sizes = dict(node=len(P), nele=len(F))
            at = {"node": ("node",)}
        places = [rng.choice(list(at)) for _ in range(2)]
        w = {}
        tname = next(n for n, k in case["axes"] if k == "time")
        p, pg = os.path.join(d, "a.nc"), os.path.join(d, "g.nc")
        if kind == "levels":
            z = np.sort(np.abs(rnd(nl + 1)) * 99)[:: rng.choice([1, -1])]
            w["depth"] = (("lev",), z)
        elif kind == "roms":
            w.update(Cs_r=(("lay",), np.sort(rnd(nl))), Cs_w=(("lev",), np.sort(rnd(nl + 1))), s_rho=(("lay",), np.sort(rnd(nl))), s_w=(("lev",), np.sort(rnd(nl + 1))), hc=((), 20.5))
        else:
            w.update(siglay=(("lay", "node"), -np.sort(-rnd(nl, len(P)), axis=0)), siglev=(("lev", "node"), -np.sort(-rnd(nl + 1, len(P)), axis=0)))
        if kind != "levels":
            w["h"] = (at[places[0]], 50 + 9 * rnd(*[sizes[k] for k in at[places[0]]]))
            w["zeta"] = ((tname,) + at[places[1]], rnd(nt, *[sizes[k] for k in at[places[1]]]))
        drop = case["drop"]
        if drop in w:
            del w[drop]
        names = {k: k for k in w}
        std = ROMS if kind == "roms" else FVCOM if kind == "fvcom" else {}
        order = list(w)
        rng.shuffle(order)
        split = case["split"]
        # in two files: some variables are in the grid file only, some are in both, with other values there
        only = [k for k in order if split and rng.random() < .3 or split and k == "h" and rng.random() < .5]
        both = [k for k in order if split and k not in only and rng.random() < .4]
        for k in order:
            if k in std and k not in ("siglay", "siglev") and rng.random() < .3:
                names[k] = "my_" + k
        tagged = {k: rng.choice(["standard_name", "long_name"]) if kind == "roms" else "standard_name" for k in order
                  if k in std and not (k in ("siglay", "siglev") and drop == "siglev") and (names[k] != k or rng.random() < .6)}
        if "siglay" in only or "siglev" in only:
            tagged.pop("siglay", None), tagged.pop("siglev", None)
        for path, ks in ((p, [k for k in order if k not in only]), (pg, only + both)):
            with netCDF4.Dataset(path, "w") as nc:
                for k, n in dict(sizes, lev=nl + 1, lay=nl, **{n: nt if k == "time" else 2 for n, k in case["axes"]}).items():
                    nc.createDimension(k, n)
                for name, dims in case["axes"]:
                    v = nc.createVariable(name, "f8", (name,))
                    v.units = "hours since 2001-02-03"
                    v[:] = np.arange(nc.dimensions[name].size) * 6 + (100 if dims == "other" else 0)
                for k in ks:
                    v = nc.createVariable(names[k], case["dtype"], w[k][0])
                    v[:] = w[k][1]
                    if path == pg and k in both:
                        v[:] = np.asarray(w[k][1]) * .5 - 3
                    else:
                        w[k] = (w[k][0], np.asarray(v[:]))
                    if k in tagged:
                        setattr(v, tagged[k], std[k])
        before = {x: open(x, "rb").read() for x in (p, pg)}
        kw = dict(grid=g)
        give = [k for k in ("bathymetry", "zeta", "vtransform") if rng.random() < .25 and kind != "levels"]
        if "bathymetry" in give:
            kw["bathymetry"] = Variable(name="b", data=w["h"][1] * 0 + 7 if "h" in w and places[0] == "node" else 7 + np.zeros([sizes[k] for k in at["node"]]), grid=g)
        if "zeta" in give:
            kw["zeta"] = Variable.constant(2)
        if "vtransform" in give:
            kw["vtransform"] = 1
        moved = kind != "levels" and not ({"zeta"} & set(give)) and rng.random() < .3
        if moved:
            kw.update(rng.choice([dict(displacement=dt.timedelta(hours=-30)), dict(time_origin=dt.datetime(2010, 1, 1)), dict(displacement=dt.timedelta(1), time_origin=dt.datetime(2010, 1, 1))]))
        t0 = kw.get("time_origin", dt.datetime(2001, 2, 3)) + kw.get("displacement", dt.timedelta(0))
        surface = not (set(w) >= (set(std) - {"zeta"} if kind != "levels" else {"depth"}))
        if surface:
            kw = dict(surface_index=3)
        src = rng.choice(["data_file", "dataset"]) if split else rng.choice(["filename", "dataset", "data_file"])
        nc = netCDF4.Dataset(p)
        kw.update({"filename": dict(filename=p), "dataset": dict(dataset=nc, **({"grid_file": pg} if split else {})), "data_file": dict(data_file=p, grid_file=pg if split else p)}[src])
        D = Depth.from_netCDF(**kw)
        what = f"{kind} by {src}, given {give}{', moved' * moved}, without {drop}, only in the grid file {only}, in both {both}"
        cls = DepthBase if surface else {"roms": ROMS_Depth, "fvcom": FVCOM_Depth, "levels": L_Depth}[kind]
        if type(D) is not cls:
            return f"{what}: {type(D)} instead of {cls}"
        same = lambda a, b: np.array_equal(np.asarray(a), np.asarray(b))
        if surface:
            return None if (D.surface_index, D.num_levels, D.num_layers) == (3, 1, 1) else f"{what}: surface {D.surface_index}"
        if kind == "levels":
            z = w["depth"][1].copy()
            s = int(np.argmin(z))
            z[s] = 0
            if not same(D.depth_levels, z) or (D.surface_index, D.bottom_index) != (s, int(np.argmax(z))):
                return f"{what}: levels {D.depth_levels} instead of {z}"
        else:
            for k in set(std) - {"h", "zeta"}:
                if not same(getattr(D, k), w[k][1]):
                    return f"{what}: {k} {getattr(D, k)} instead of {w[k][1]}"
            mid = lambda a: (a[..., :-1, :-1] + a[..., 1:, :-1] + a[..., :-1, 1:] + a[..., 1:, 1:]) / 4
            for i, (k, V) in enumerate((("h", D.bathymetry), ("zeta", D.zeta))):
                if {"h": "bathymetry"}.get(k, k) in give:
                    if V is not kw[{"h": "bathymetry"}.get(k, k)]:
                        return f"{what}: {k} is not the one that is given"
                    continue
                if k not in w:
                    if np.asarray(V.data[:]).any():
                        return f"{what}: {k} {V.data}"
                    continue
                e = w[k][1] if places[i] == "node" else mid(w[k][1])
                x = np.asarray(V.data[:])
                if x.shape != e.shape or not np.allclose(x, e, rtol=1e-5, atol=1e-6):
                    return f"{what}: {k} on {places[i]} {x.tolist()} instead of {e.tolist()}"
                if V.grid is not g:
                    return f"{what}: grid of {k}"
            if "zeta" in w and "zeta" not in give:
                e = [t0 + dt.timedelta(hours=6 * i) for i in range(nt)]
                if list(D.zeta.time.data) != e or list(D.time.data) != e:
                    return f"{what}: times {D.zeta.time.data} instead of {e}"
            if D.vtransform != (1 if "vtransform" in give else 2):
                return f"{what}: vtransform {D.vtransform}"
            top = w["s_w"][1] if kind == "roms" else w["siglev"][1][:, 0]
            if (D.surface_index, D.bottom_index) != (int(np.argmax(top)), int(np.argmin(top))):
                return f"{what}: surface {D.surface_index}, bottom {D.bottom_index}"
        if (D.num_levels, D.num_layers) != (nl + 1, nl):
            return f"{what}: {D.num_levels} levels and {D.num_layers} layers"
        nc.close()
        if any(open(x, "rb").read() != b for x, b in before.items()):
            return f"{what}: the file has changed"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bounded(B):
    rng = B.rng
    for _ in range(B.n(150, 2000)):
        B.case("files", oracle_file, dict(
            seed=rng.getrandbits(40), kind=rng.choice(["roms", "fvcom", "fvcom", "levels"]), nl=rng.randint(2, 6), nt=rng.randint(2, 4), nx=rng.randint(2, 5), ny=rng.randint(2, 4),
            drop=rng.choice([None, None, None, "zeta", "zeta", "Cs_r", "siglev", "h", "depth"]), split=rng.random() < .3, dtype=rng.choice(["f8", "f8", "f4"]),
            axes=rng.choice([[("time", "time"), ("time2", "other")], [("other", "other"), ("time", "time")], [("time", "other"), ("ocean_time", "time")]])))


# ------------------------------------------------------------------------------------------------ contracts
def _var(ds, name, dims, shape, std=None, key="standard_name", kind="f", axioms=()):
    from pyvc.arr import sym_array
    v = ds.createVariable(name, np.float64, dims)
    a = sym_array(f"val_{name}", shape, kind, axioms=list(axioms))
    v[:] = a
    if std:
        setattr(v, key, std)
    return a


def _types(V):
    import gridded      # noqa: F401  (sets the component types)
    D, Vm = V.mod("gridded.depth"), V.mod("gridded.variable")
    D.DepthBase._default_component_types["variable"] = Vm.Variable
    for k in ("variable", "bathymetry", "zeta"):
        D.S_Depth._default_component_types[k] = Vm.Variable
    return D, Vm


def contract_kind(V):
    """Depth.from_netCDF: the kind of depth axis follows from the variables in the files, by name or else by standard name, the data file before the
    grid file; zeta may be missing; refused if there are two kinds; else the surface only, with the surface index that is asked for"""
    from pyvc.verify import dim
    from .C14 import _ds
    V.functions = ["Depth.from_netCDF", "S_Depth._can_create_from_netCDF", "L_Depth._can_create_from_netCDF", "DepthBase.from_netCDF", "DepthBase.__init__",
                   "can_create_class", "search_netcdf_vars", "search_dataset_for_variables_by_varname", "search_dataset_for_variables_by_longname",
                   "merge_var_search_dicts", "parse_filename_dataset_args"]
    D, Vm = _types(V)
    roms, fv = list(ROMS), list(FVCOM)
    confs = []
    for by in ("name", "standard", "long"):
        for have, want in ((roms, "ROMS_Depth"), (fv, "FVCOM_Depth")):
            for drop in (None, *have):
                for split in (False, True):
                    vs = [k for k in have if k != drop]
                    if by != "name" and "siglay" in have and drop is None and not split:
                        continue        # one standard name for two variables
                    confs.append((by, vs, split, want if drop in (None, "zeta") or by != "name" and drop in ("siglay", "siglev") else None))
    for lev in ("depth", "depth_levels", "Depth"):
        confs += [("name", [lev], split, "L_Depth") for split in (False, True)]
        confs.append(("name", [lev] + roms, False, "two"))
        confs.append(("name", [lev] + roms[1:], False, "L_Depth"))
    confs += [("name", ["depth"] + fv, False, "two"), ("name", sorted(set(roms + fv)), False, "two"), ("name", [], False, None), ("name", ["temp", "DEPTH", "deptH"], False, None)]
    for by, vs, split, want in confs:
        def run(cx):
            Dataset, _ = _ds(V)
            ds, dg = Dataset(), Dataset()
            made = []
            for i, k in enumerate(vs):
                f = dg if split and i % 2 else ds
                if "n" not in f.dimensions:
                    f.createDimension("n", dim("n", 1))
                std = ROMS.get(k) if "s_w" in vs or "s_rho" in vs else FVCOM.get(k)
                if by == "name" and ("siglay" in vs) != ("siglev" in vs):
                    std = None      # siglay and siglev have the same standard name: one would stand for the other
                _var(f, k if by == "name" else f"v{i}", ("n",), (z3.Int("n"),), std, "long_name" if by == "long" else "standard_name")
            real = {}
            for t in (D.ROMS_Depth, D.FVCOM_Depth, D.L_Depth):
                # the constructors by contract (the other contracts): it is recorded what they are asked for
                def rec(t=t):
                    def from_netCDF(**kw):
                        made.append((t.__name__, kw))
                        return made[-1]
                    return staticmethod(from_netCDF)
                real[t] = t.__dict__.get("from_netCDF")
                t.from_netCDF = rec()
            cx.ghost.update(ds=ds, dg=dg, made=made)
            try:
                return D.Depth.from_netCDF(dataset=ds, **(dict(grid_file=dg) if split else {}), surface_index=3, name="axis")
            finally:
                for t, f in real.items():
                    if f is None:
                        del t.from_netCDF
                    else:
                        t.from_netCDF = f

        def post(V, p):
            q = p.ctx.ghost
            tag = f"{'two files' if split else 'a file'} with {', '.join(vs) or 'nothing'} by {by}"
            if want == "two":
                V.prove(f"{tag}: refused", p.outcome == "raise" and isinstance(p.value, ValueError))
                return
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r = p.value
            if want is None:
                V.prove(f"{tag}: surface only", type(r) is D.DepthBase and r.surface_index == 3 and r.name == "axis" and r.num_levels == 1 and r.num_layers == 1)
            else:
                V.prove(f"{tag}: {want}", len(q["made"]) == 1 and r is q["made"][0] and r[0] == want)
                if isinstance(r, tuple):
                    V.prove(f"{tag}: from these files", r[1].get("dataset") is q["ds"] and (r[1].get("grid_file") is q["dg"]) == split and r[1].get("name") == "axis")
            V.cover(f"{tag}: reached")
        V.verify(run, post, None, want_return=want != "two")


def contract_search(V):
    """search_netcdf_vars: for each term the variable of the data file with the first of its names, else with the first of its standard (or long) names;
    if there is none, that of the grid file; terms that are in neither are None"""
    from .C14 import _ds
    V.functions = ["search_netcdf_vars", "can_create_class", "search_dataset_for_variables_by_varname", "search_dataset_for_variables_by_longname", "merge_var_search_dicts"]
    U = V.mod("gridded.utilities")

    class T:
        default_names = {"p": ["a", "b"], "q": ["c"]}
        cf_names = {"p": ["s1", "s2"], "q": ["s1"]}
    kinds = [(), (("a", None),), (("b", "s1"), ("a", None)), (("x", "s1"),), (("x", "s2"), ("y", "s1")), (("x", "s1"), ("b", None), ("c", "s1")), (("A", "S1"), ("c", None))]

    def one(fs):
        out = {}
        for t in T.default_names:
            out[t] = next((n for n in T.default_names[t] if n in dict(fs)), None) or next((n for s in T.cf_names[t] for n, x in fs if x == s), None)
        return out
    for key in ("standard_name", "long_name"):
        for f1, f2 in itertools.product(kinds, kinds + [None]):
            def run(cx):
                Dataset, _ = _ds(V)
                files = []
                for f in (f1, f2):
                    if f is None:
                        files.append(files[0])
                        continue
                    ds = Dataset()
                    ds.createDimension("n", z3.Int("n"))
                    for n, s in f:
                        _var(ds, n, ("n",), (z3.Int("n"),), s, key)
                    files.append(ds)
                cx.ghost.update(files=files)
                return U.search_netcdf_vars(T, *files), U.can_create_class(T, *files)

            def post(V, p):
                tag = f"data file {f1}, grid file {f2} ({key})"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                (r, can), (ds, dg) = p.value, p.ctx.ghost["files"]
                V.prove(f"{tag}: can be created", can == (None not in r.values()))
                V.prove(f"{tag}: the terms", sorted(r) == ["p", "q"])
                for t in ("p", "q"):
                    a, b = one(f1)[t], one(f2)[t] if f2 is not None else None
                    V.prove(f"{tag}: {t}", r[t] is (ds.variables[a] if a else dg.variables[b] if b else None))
                V.cover(f"{tag}: reached")
            V.verify(run, post, None)


def contract_levels(V):
    """levels: those of the file, the shallowest at the surface; the file keeps its own"""
    from pyvc.core import And, zi
    from pyvc.verify import dim
    from .C14 import _ds
    V.functions = ["L_Depth.from_netCDF", "L_Depth.__init__", "L_Depth.surface_index / bottom_index / num_levels / num_layers", "Depth.from_netCDF"]
    V.assumes = ["precondition: depths below the surface, at least one level"]
    D, Vm = _types(V)
    for lev in ("depth", "depth_levels", "Depth"):
        for split in (False, True):
            def run(cx):
                Dataset, _ = _ds(V)
                ds, dg = Dataset(), Dataset()
                f = dg if split else ds
                n = dim("n", 1)
                f.createDimension("n", n)
                a = _var(f, lev, ("n",), (n,), axioms=[(1, lambda raw, i: raw(i).e >= 0)])
                cx.ghost.update(a=a, n=n, v=f.variables[lev])
                r = D.Depth.from_netCDF(dataset=ds, name="axis", **(dict(grid_file=dg) if split else {}))
                return r, r.surface_index, r.bottom_index, r.num_levels, r.num_layers

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                tag = f"{lev} in the {'grid' if split else 'data'} file"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                (r, s, b, nl, ny), n, a = p.value, q["n"], q["a"]
                V.prove(f"{tag}: levels", type(r) is D.L_Depth and r.name == "axis")
                z = r.depth_levels
                V.prove(f"{tag}: number of levels", And(len(z.sshape) == 1, zi(z.sshape[0]) == zi(n), zi(nl) == zi(n), zi(ny) == zi(n) - 1))
                i = cx.fresh_index(n, "i").e
                s, b = zi(s), zi(b)
                V.prove(f"{tag}: surface", And(s >= 0, s < zi(n), a.F(s) <= a.F(i), z.at(s).e == 0, z.at(i).e >= 0, z3.Implies(i < s, a.F(s) < a.F(i))))
                V.prove(f"{tag}: the others as in the file", z3.Implies(i != s, z.at(i).e == a.F(i)))
                V.prove(f"{tag}: bottom", And(b >= 0, b < zi(n), z.at(i).e <= z.at(b).e))
                V.prove(f"{tag}: the file is unchanged", q["v"][:].at(i).e == a.F(i))
                V.cover(f"{tag}: reached")
            V.verify(run, post, None)


def _node_center(cx, V, kind):
    """a grid of symbolic size and the dimensions of its places"""
    from pyvc.arr import sym_array
    from pyvc.verify import dim
    G = V.mod("gridded.grids")
    if kind == "fvcom":
        from .C19 import _mesh
        g, n, f = _mesh(cx, V)
        return g, {"node": (("node", n),)}
    ny, nx = dim("ny", 2), dim("nx", 2)
    g = G.Grid_S(node_lon=sym_array("nlon", (ny, nx), "f"), node_lat=sym_array("nlat", (ny, nx), "f"),
                 center_lon=sym_array("clon", (ny + 1, nx + 1), "f"), center_lat=sym_array("clat", (ny + 1, nx + 1), "f"))
    return g, {"node": (("jn", ny), ("xn", nx)), "center": (("jc", ny + 1), ("xc", nx + 1))}


def contract_terms(V):
    """ROMS and FVCOM: terms, bathymetry, free surface and times of the file, unless others are given; values at cell centers are averaged to the nodes
    between them; without free surface it is 0; the file is unchanged"""
    from pyvc.core import And, zi
    from pyvc.verify import dim
    from .C14 import _ds
    from .C19 import _axis, _instants, _values
    V.functions = ["S_Depth.from_netCDF", "S_Depth.__init__", "ROMS_Depth / FVCOM_Depth: surface_index, bottom_index, num_levels, num_layers", "Variable.constant",
                   "Depth.from_netCDF", "search_netcdf_vars", "Time.from_netCDF", "SGrid.infer_location", "UGrid.infer_location", "Variable.__init__"]
    V.assumes = ["netCDF4: a variable holds what was written to it (pyvc/ncfile.py)", "precondition: FVCOM bathymetry and free surface on the nodes"]
    D, Vm = _types(V)
    Tm = V.mod("gridded.time")
    U = "hours since 2001-01-01 06:00:00 -07:00"
    confs = []
    for kind in ("roms", "fvcom"):
        for given in ((), ("bathymetry",), ("zeta",), ("constant zeta",), ("time",), ("terms",), ("bathymetry", "zeta", "terms", "vtransform"), ("no grid",), ("time", "zeta"), ("moved",), ("offset",), ("other axis",)):
            for hp in ("node", "center"):
                for zp in ("node", "center", None):
                    for split in (False, True):
                        if zp is None and given in (("moved",), ("offset",), ("other axis",)):
                            continue
                        if kind == "fvcom" and "center" in (hp, zp) or split and given not in ((), ("no grid",), ("other axis",)) or V.tier == "quick" and given and (hp, zp) not in (("node", "center"), ("center", "node"), ("node", "node"), ("node", None)):
                            continue
                        confs.append((kind, given, hp, zp, split))
    for kind, given, hp, zp, split in confs:
        def run(cx):
            Dataset, _ = _ds(V)
            ds, dg = Dataset(), Dataset()
            g, at = _node_center(cx, V, kind)
            nl, nt = dim("nl", 1), dim("nt", 1)
            for f in (ds, dg):
                for k, n in [*at["node"], *at.get("center", ()), ("lay", nl), ("lev", nl + 1)]:
                    f.createDimension(k, n)
            tn = "ocean_time" if "other axis" in given else "time"
            if "other axis" in given:       # another axis, with the usual name, comes first
                _axis(ds, "time", nt, "days since 1990-01-01")
                if split:
                    _axis(dg, "time", nt, "days since 1990-01-01")
            a = _axis(ds, tn, nt, U)
            n = lambda place: tuple(x[1] for x in at[place])
            d = lambda place: tuple(x[0] for x in at[place])
            val, std = {}, ROMS if kind == "roms" else FVCOM
            if kind == "roms":
                for k in ("Cs_r", "s_rho"):
                    val[k] = _var(ds, k, ("lay",), (nl,), std[k])
                for k in ("Cs_w", "s_w"):
                    val[k] = _var(ds, k, ("lev",), (nl + 1,), std[k])
                val["hc"] = _var(ds, "hc", (), (), std["hc"])
            else:
                val["siglay"] = _var(ds, "siglay", ("lay", "node"), (nl,) + n("node"), std["siglay"])
                val["siglev"] = _var(ds, "siglev", ("lev", "node"), (nl + 1,) + n("node"), std["siglev"])
            val["h"] = _var(dg if split else ds, "h", d(hp), n(hp))
            if zp:
                val["zeta"] = _var(ds, "zeta" if not split else "surface", (tn,) + d(zp), (nt,) + n(zp), std["zeta"])
            kw = dict(grid=g)
            q = cx.ghost
            if "bathymetry" in given:
                kw["bathymetry"] = object()
            if "zeta" in given:
                kw["zeta"] = Vm.Variable.__new__(Vm.Variable)
                kw["zeta"]._time = object()
            if "moved" in given:
                from pyvc.core import Sym
                from pyvc.verify import datetime_
                kw["time_origin"] = q["origin"] = datetime_("origin")
                kw["displacement"] = q["disp"] = Sym("d", z3.Real("disp"))
            if "offset" in given:
                kw["tz_offset"] = "naive"
            if "constant zeta" in given:
                kw["zeta"] = Vm.Variable.constant(2)
            if "time" in given:
                from pyvc.arr import ascending, sym_array
                t = Tm.Time.__new__(Tm.Time)
                t._data, t._tz_offset = sym_array("given_t", (nt if zp else 1,), "t", axioms=[ascending()]), None
                kw["time"] = t
            if "terms" in given:
                kw["terms"] = {"hc": 5, "s_w": object(), "s_rho": object()}
            if "vtransform" in given:
                kw["vtransform"] = 1
            asked = []
            own = D.S_Depth._default_component_types
            if "no grid" in given:
                class Recorded:
                    @staticmethod
                    def from_netCDF(**k):
                        asked.append(k)
                        return g
                del kw["grid"]
                D.S_Depth._default_component_types = dict(own, grid=Recorded)
            q.update(g=g, ds=ds, dg=dg if split else ds, val=val, a=a, nl=nl, nt=nt, at=at, kw=kw, n=n, asked=asked)
            try:
                r = D.Depth.from_netCDF(dataset=ds, name="axis", **(dict(grid_file=dg) if split else {}), **kw)
            finally:
                D.S_Depth._default_component_types = own
            return (r,) + ((r.num_levels, r.num_layers, r.surface_index, r.bottom_index) if "terms" not in given else ())

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"{kind}, given {given}, bathymetry on {hp}, free surface on {zp}{', two files' if split else ''}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r, val, kw, at = p.value[0], q["val"], q["kw"], q["at"]
            V.prove(f"{tag}: kind and name", type(r) is (D.ROMS_Depth if kind == "roms" else D.FVCOM_Depth) and r.name == "axis")
            V.prove(f"{tag}: grid", r.grid is q["g"])
            V.prove(f"{tag}: vtransform", r.vtransform == (1 if "vtransform" in given else 2))
            if "no grid" in given:
                V.prove(f"{tag}: grid of the file", len(q["asked"]) == 1 and q["asked"][0]["dataset"] is q["dg"])
            names = [k for k in val if k not in ("h", "zeta")]
            if "terms" in given:
                V.prove(f"{tag}: the terms that are given", r.terms == kw["terms"] and all(getattr(r, k) is x for k, x in kw["terms"].items()))
            else:
                V.prove(f"{tag}: the terms of the file", sorted(r.terms) == sorted(names))
                for k in names:
                    if k == "hc":
                        V.prove(f"{tag}: hc", And(len(r.hc.sshape) == 0, r.hc.at().e == val[k].at().e))
                    else:
                        _values(V, cx, f"{tag}: {k}", getattr(r, k), val[k])
                _, nl, ny, s, b = p.value
                V.prove(f"{tag}: numbers of levels and layers", And(zi(nl) == zi(q["nl"]) + 1, zi(ny) == zi(q["nl"])))
                i, s, b = cx.fresh_index((r.s_w if kind == "roms" else r.siglev).sshape[0], "lev").e, zi(s), zi(b)
                top = (lambda i: r.s_w.at(i).e) if kind == "roms" else (lambda i: r.siglev[:, 0].at(i).e)
                V.prove(f"{tag}: surface and bottom", And(s >= 0, s <= zi(q["nl"]), b >= 0, b <= zi(q["nl"]), top(i) <= top(s), top(b) <= top(i)))

            def nodal(what, got, src, place, lead):
                V.prove(f"{tag}: {what}: grid", got.grid is q["g"])
                x = got.data[:] if hasattr(got.data, "sshape") else got.data
                n = lead + q["n"]("node")
                V.prove(f"{tag}: {what}: shape", And(len(x.sshape) == len(n), *[zi(a) == zi(b) for a, b in zip(x.sshape, n)]))
                ix = [cx.fresh_index(m, f"i{k}").e for k, m in enumerate(n)]
                if place == "node":
                    e = src.F(*ix)
                else:
                    *l, j, i = ix
                    e = (src.F(*l, j, i) + src.F(*l, j + 1, i) + src.F(*l, j, i + 1) + src.F(*l, j + 1, i + 1)) / 4
                V.prove(f"{tag}: {what}", x.at(*ix).e == e)
            if "bathymetry" in given:
                V.prove(f"{tag}: the bathymetry that is given", r.bathymetry is kw["bathymetry"])
            else:
                nodal("bathymetry", r.bathymetry, val["h"], hp, ())
            if "zeta" in kw:
                V.prove(f"{tag}: the free surface that is given", r.zeta is kw["zeta"])
            elif zp is None:
                x = np.asarray(r.zeta.data) if isinstance(r.zeta.data, np.ndarray) else None
                V.prove(f"{tag}: free surface at 0", not x.any() if x is not None else And(*[r.zeta.data.at(z3.IntVal(i), z3.IntVal(j)).e == 0 for i in range(3) for j in range(3)]))
            else:
                nodal("free surface", r.zeta, val["zeta"], zp, (q["nt"],))
            if "time" in given:
                V.prove(f"{tag}: the times that are given", r.time is kw["time"])
            elif "constant zeta" in given:
                V.prove(f"{tag}: a single time", zi(len(r.time.data)) == 1)
            elif "zeta" in given:
                V.prove(f"{tag}: times of the free surface", r.time is kw["zeta"]._time)
            elif "moved" in given:
                at, i = _instants(U, q["a"]), cx.fresh_index(q["nt"], "t").e
                V.prove(f"{tag}: times moved", And(zi(r.time.data.sshape[0]) == zi(q["nt"]), r.time.data.at(i).e == at(i) - at(z3.IntVal(0)) + q["origin"].e + q["disp"].e))
            elif "offset" in given:
                V.prove(f"{tag}: naive", r.time.tz_offset is None and zi(r.time.data.sshape[0]) == zi(q["nt"]))
            elif zp:
                i = cx.fresh_index(q["nt"], "t").e
                V.prove(f"{tag}: times", And(zi(r.time.data.sshape[0]) == zi(q["nt"]), r.time.data.at(i).e == _instants(U, q["a"])(i)))
                V.prove(f"{tag}: offset", r.time.tz_offset == -7)
            else:
                V.prove(f"{tag}: a single time", zi(len(r.time.data)) == 1)
            if zp and "zeta" not in kw:
                V.prove(f"{tag}: times of the free surface are those of the axis", r.zeta.time is r.time)
            for k in ("h", "zeta"):
                if k in val:
                    f = q["dg"] if k == "h" else q["ds"]
                    _values(V, cx, f"{tag}: {k} of the file unchanged", f.variables["surface" if split and k == "zeta" else k][:], val[k])
            V.cover(f"{tag}: reached")
        V.verify(run, post, None)


CONTRACTS = [contract_kind, contract_search, contract_levels, contract_terms]
