"""C19: time axes, variables and datasets read from files."""
import datetime as dt
import itertools

import numpy as np
import z3

ID = "C19"
BOUNDED_FUNCTIONS = ["Time.from_netCDF / Variable.from_netCDF / VectorVariable.from_netCDF / Dataset.from_netCDF on real files"]
# units of time -> seconds per unit, reference (in the offset of the units), offset in hours (None: not stated), its name
UNITS = {
    "days since 2024-1-1T00:00:00Z": (86400, dt.datetime(2024, 1, 1), 0, "UTC"),
    "hours since 2001-01-01 00:00": (3600, dt.datetime(2001, 1, 1), None, "UTC"),
    "hours since 2001-01-01 06:00:00 -07:00": (3600, dt.datetime(2001, 1, 1, 6), -7, "-07:00"),
    "seconds since 2011-12-31T06:30:00+05:30": (1, dt.datetime(2011, 12, 31, 6, 30), 5.5, "+05:30"),
    "days since 2024-1-1T00:00:00-7:00": (86400, dt.datetime(2024, 1, 1), -7, "-07:00"),
    "minutes since 1999-03-01 12:00:00 -0330": (60, dt.datetime(1999, 3, 1, 12), -3.5, "-03:30"),
    "minutes since 2001-01-01 00:00 UTC": (60, dt.datetime(2001, 1, 1), 0, "UTC"),
    "days since 2024-1-1T00:00:00 U C": (86400, dt.datetime(2024, 1, 1), None, "UTC"),
}


# ------------------------------------------------------------------------------------------------ bounded companion
def _mesh_file(nc, rng, case):
    from . import common
    P, F, _ = common.tri_mesh(rng, case["nx"], case["ny"], off=(-70, 40))
    for k, n in (("node", len(P)), ("face", len(F)), ("three", 3)):
        nc.createDimension(k, n)
    v = nc.createVariable("mesh", "i4", ())
    v.setncatts(dict(cf_role="mesh_topology", topology_dimension=np.int32(2), node_coordinates="nlon nlat", face_node_connectivity="fnc",
                      long_name="Topology data of v0 and the 2D mesh"))
    for n, c, s in (("nlon", 0, "longitude"), ("nlat", 1, "latitude")):
        v = nc.createVariable(n, "f8", ("node",))
        v[:] = P[:, c]
        v.standard_name = s
    v = nc.createVariable("fnc", "i4", ("face", "three"))
    v[:] = F
    v.start_index = np.int32(0)
    return P, F


def oracle_file(case):
    """a file with several time axes and variables: what is read is what each variable of the file says"""
    import gc
    import os
    import random
    import shutil
    import tempfile
    import warnings
    import netCDF4
    from gridded import Dataset, Time, Variable, VectorVariable
    from gridded.grids import Grid
    warnings.simplefilter("ignore")
    rng = random.Random(case["seed"])
    d = tempfile.mkdtemp()
    hours = lambda x: dt.timedelta(hours=x)
    try:
        p = os.path.join(d, "a.nc")
        axes, want = {}, {}
        with netCDF4.Dataset(p, "w") as nc:
            P, F = _mesh_file(nc, rng, case)
            nc.setncatts({"title": "a file", "number": np.int32(4)})
            for k, u in enumerate(case["axes"]):
                n = case["nt"][k]
                name = ["time", "ocean_time", "time_2"][k]
                vals = sorted(rng.sample(range(0, 900), n))
                nc.createDimension(name, n)
                v = nc.createVariable(name, rng.choice(["f8", "i4"]), (name,))
                v[:] = vals
                v.units = u
                sec, ref, off, oname = UNITS[u]
                axes[name] = [ref + dt.timedelta(seconds=sec * x) for x in vals], off or 0, oname
            for k in range(case["nv"]):
                place = rng.choice(["node", "face"])
                ax = rng.choice([None, *axes])
                dims = ((ax,) if ax else ()) + (place,)
                name = case["names"][k]
                v = nc.createVariable(name, rng.choice(["f8", "f4"]), dims)
                n = [len(nc.dimensions[x]) for x in dims]
                data = np.round(np.array([rng.uniform(-9, 9) for _ in range(int(np.prod(n)))]).reshape(n), 2).astype(v.dtype)
                v[:] = data
                at = {"long_name": f"long {k}"} if rng.random() < .5 else {}
                at.update({"units": rng.choice(["m/s", "K"])} if rng.random() < .7 else {})
                at.update({"location": place} if rng.random() < .5 or len(P) == len(F) else {"location": "nowhere"} if rng.random() < .2 else {})
                at.update({"standard_name": rng.choice(["s1", "s2"])} if rng.random() < .7 else {})
                at.update({"number": np.int32(rng.choice([1, 2]))} if rng.random() < .5 else {})
                other = rng.choice(list(axes))
                t = ax
                if rng.random() < .3 and (ax is None or len(axes[other][0]) == len(axes[ax][0])):
                    at["time"] = other      # the axis that is named by the variable
                    t = other if ax else ax
                    if ax is None:
                        del at["time"]
                elif rng.random() < .2:
                    at["time"] = rng.choice(["no such dimension", "nlon", "mesh"])
                v.setncatts(at)
                want[name] = dict(data=data, place=place, ax=t, at=at)

        def judge(what, v, w, name=None, units=None, loc=None, disp=0, origin=None, tz=None, own=None):
            at = w["at"]
            if not np.array_equal(np.asarray(v.data[:]), w["data"]):
                return f"{what}: data {np.asarray(v.data[:]).tolist()} instead of {w['data'].tolist()}"
            if v.units != (units or at.get("units")):
                return f"{what}: units {v.units}"
            if v.location != (loc or w["place"]):
                return f"{what}: location {v.location}"
            if name and v.name != name:
                return f"{what}: name {v.name} instead of {name}"
            if own is None and {k: x for k, x in v.attributes.items()} != at:
                return f"{what}: attributes {v.attributes} instead of {at}"
            if w["ax"] is None:
                return None if len(v.time.data) == 1 else f"{what}: {len(v.time.data)} times without time dimension"
            ts, off, oname = axes[w["ax"]]
            off = off if tz is None else tz
            sh = origin - ts[0] if origin else dt.timedelta(0)
            e = [t + sh + hours(disp) for t in ts]
            if [abs(a - b) < dt.timedelta(milliseconds=1) for a, b in zip(v.time.data, e)] != [True] * len(e) or len(v.time.data) != len(e):
                return f"{what}: times {v.time.data} instead of {e}"
            if v.time.tz_offset != off:
                return f"{what}: offset {v.time.tz_offset} instead of {off}"
            return None
        # the axes themselves
        with netCDF4.Dataset(p) as nc:
            for name, (ts, off, oname) in axes.items():
                new = case["new"]
                kw = {} if new is None else {"new_tz_offset": new}
                T = Time.from_netCDF(filename=p, varname=name, **kw) if case["byfile"] else Time.from_netCDF(dataset=nc, varname=name, **kw)
                e = [t + (hours(new - off) if new is not None else hours(0)) for t in ts]
                if any(abs(a - b) > dt.timedelta(milliseconds=1) for a, b in zip(T.data, e)) or len(T.data) != len(e):
                    return f"{name} with {case['axes']} and new offset {new}: {T.data} instead of {e}"
                if T.tz_offset != (off if new is None else new) or T.tz_offset_name != oname:
                    return f"{name}: offset {T.tz_offset} {T.tz_offset_name}"
        g = Grid.from_netCDF(p)
        made = set()
        for k, w in want.items():
            kw = dict(name="given") if rng.random() < .5 else {}
            extra = {}
            if rng.random() < .3:
                kw["units"] = extra["units"] = "furlong"
            if rng.random() < .3:
                extra["disp"] = rng.choice([3, -2.5])
                kw["displacement"] = hours(extra["disp"])
            if rng.random() < .2:
                kw["tz_offset"] = extra["tz"] = rng.choice([0, 2, -8]) if w["ax"] and not axes[w["ax"]][1] else 0
                if w["ax"] and axes[w["ax"]][1]:
                    del kw["tz_offset"], extra["tz"]
            if rng.random() < .3:
                kw["time_origin"] = extra["origin"] = dt.datetime(2005, 5, 5)
            if w["at"].get("location") == "nowhere" or "location" not in w["at"] and rng.random() < .5:
                kw["location"] = w["place"]
            if rng.random() < .4:
                kw["load_all"] = True
            how = rng.choice(["file", "dataset", "both"])
            src = dict(filename=p) if how == "file" else dict(dataset=netCDF4.Dataset(p)) if how == "dataset" else dict(data_file=p, grid_file=p)
            if rng.random() < .7:
                src["grid"] = g
            v = Variable.from_netCDF(varname=k, **src, **kw)
            msg = judge(f"Variable.from_netCDF({k}, {kw})", v, w, name=kw.get("name"), **extra)
            if msg:
                return msg
            if "name" not in kw:
                if v.name in made:
                    return f"two variables have the made-up name {v.name}"
                made.add(v.name)
        D = Dataset.from_netCDF(p)
        got = {k: v for k, v in D.variables.items()}
        size = {"node": len(P), "face": len(F)}
        odd = {k for k in axes if len(axes[k][0]) in size.values()}
        if set(got) - odd != set(want):
            return f"variables {sorted(got)} instead of {sorted(want)}"
        if len(P) != len(F):
            for k, w in want.items():
                msg = judge(f"Dataset[{k}]", D[k], w, name=w["at"].get("long_name", k))
                if msg:
                    return msg
        if D.attributes != {"title": "a file", "number": 4}:
            return f"attributes {D.attributes}"
        for a, x in (("standard_name", "s1"), ("number", 2), ("units", "K"), ("nothing", None)):
            e = [k for k, w in want.items() if a in w["at"] and w["at"][a] == x]
            r = [v.varname for v in D.get_variables_by_attribute(a, x)]
            if [k for k in r if k not in odd] != e:
                return f"variables with {a} {x}: {r} instead of {e}"
        # by default names
        for names, std in ((["zz"] + rng.sample(list(want), 1), []), (["zz"], rng.sample(["s1", "s2", "long 0", "long 1"], 3))):
            e = next((k for k in names if k in want), None) or next((k for x in std for k, w in want.items() if x in (w["at"].get("standard_name"), w["at"].get("long_name"))),
                                                                    None)
            if e and want[e]["at"].get("location") != "nowhere":
                S = type("S", (Variable,), dict(default_names=names, cf_names=std))
                v = S.from_netCDF(filename=p, grid=g)
                if v.varname != e:
                    return f"by the names {names} and {std}: {v.varname} instead of {e} of {want}"
        # vectors
        names = [k for k, w in want.items()]
        groups = {}
        for k in names:
            w = want[k]
            if w["at"].get("location") != "nowhere":
                groups.setdefault((w["ax"], w["data"].shape), []).append(k)
        for ks in groups.values():
            if len(ks) < 2:
                continue
            rng.shuffle(ks)
            ks = ks[:3]
            kw, extra = {}, {}
            if rng.random() < .4:
                extra["disp"], kw["displacement"] = 7, hours(7)
            if rng.random() < .4:
                kw["time_origin"] = extra["origin"] = dt.datetime(2005, 5, 5)
            V = VectorVariable.from_netCDF(filename=p, varnames=ks, grid=g if rng.random() < .5 else None, **kw)
            if len(V.variables) != len(ks):
                return f"vector of {ks}: {len(V.variables)} components"
            for k, v in zip(ks, V.variables):
                msg = judge(f"component {k} of {ks}", v, want[k], **extra)
                if msg:
                    return msg
            us = [want[k]["at"].get("units") for k in ks]
            if V.units != (us[0] if all(u == us[0] for u in us) else us):
                return f"vector of {ks}: units {V.units} instead of {us}"
        gc.collect()
    finally:
        shutil.rmtree(d)
    return None


def bounded(B):
    import logging
    rng = B.rng
    logging.disable(logging.CRITICAL)
    us = list(UNITS)
    for _ in range(B.n(200, 2500)):
        na = rng.choice([1, 2, 3])
        B.case("files", oracle_file, dict(
            seed=rng.getrandbits(40), nx=rng.randint(2, 4), ny=rng.randint(2, 3), axes=[rng.choice(us) for _ in range(na)],
            nt=[rng.choice([1, 2, 3, 7])] * 3 if rng.random() < .6 else [rng.choice([1, 2, 3, 5]) for _ in range(3)], nv=rng.randint(1, 6),
            names=rng.sample(["v0", "v1", "temp", "data", "n", "lon", "lat", "me", "u", "timeless", "mesh2", "fn"], 6),
            new=rng.choice([None, None, 0, -8, 5.5]), byfile=rng.random() < .5))


# ------------------------------------------------------------------------------------------------ contracts
def _quiet():
    import logging
    logging.disable(logging.CRITICAL)       # of time units that cannot be parsed


def _axis(ds, name, n, units, kind="f"):
    """a time axis of n ascending numbers; gives them"""
    from pyvc.arr import ascending, sym_array
    if name not in ds.dimensions:
        ds.createDimension(name, n)
    v = ds.createVariable(name, np.float64 if kind == "f" else np.int32, (name,))
    a = sym_array(f"{name}_num", (n,), kind, axioms=[ascending()])
    v[:] = a
    v.units = units
    return a


def _sec(d):
    from pyvc.core import realval
    return realval((d - dt.datetime(2000, 1, 1)).total_seconds())


def _instants(units, a):
    """seconds (since 2000, in the offset of the units) of the i-th time"""
    sec, ref, off, name = UNITS[units]

    def at(i):
        x = a.F(i)
        return _sec(ref) + sec * (z3.ToReal(x) if a.kind == "i" else x)
    return at


def contract_time(V):
    """Time.from_netCDF: the instants that the units say, in the offset to UTC that they say (UTC if none) or that is given; moved to another offset,
    origin or by a displacement if asked to"""
    from pyvc.core import And, Sym, zi
    from pyvc.verify import datetime_, dim, real
    from .C14 import _ds
    V.functions = ["Time.from_netCDF", "parse_time_offset", "offset_as_iso_string", "_drop_time_offset", "Time.__init__", "Time.locate_time_var_from_var"]
    V.assumes = ["num2date: linear in the numbers (pyvc/ncfile.py); dateutil parses the reference time (it is run on each of the listed units)"]
    T = V.mod("gridded.time")
    _quiet()
    cases = [(u, None, new, mv, "varname", k) for u in UNITS for new in (None, 3) for mv in ((), ("origin",), ("displacement",), ("origin", "displacement"))
             for k in "fi" if k == "f" or not mv]
    cases += [(u, tz, new, (), via, "f") for u in UNITS if not UNITS[u][2] for tz in ("Naive", "naive", -8, 0, 5.5) for new in (None, -2)
              for via in ("varname", "name of data", "data", "data with attribute")]
    for u, tz, new, mv, via, kind in cases:
        def run(cx):
            Dataset, _ = _ds(V)
            ds = Dataset()
            n = dim("n", 1)
            a = _axis(ds, "time", n, u, kind)
            other = _axis(ds, "time_2", dim("n2", 1), "hours since 1990-01-01")
            d = ds.createVariable("temp", np.float64, ("time",) if via != "data with attribute" else ("time_2",))
            if via == "data with attribute":
                d.time = "time"
            kw = {"varname": "time"} if via == "varname" else {"datavar": "temp" if via == "name of data" else d}
            if "origin" in mv:
                kw["origin"] = cx.ghost["origin"] = datetime_("origin")
            if "displacement" in mv:
                kw["displacement"] = cx.ghost["disp"] = Sym("d", z3.Real("disp"))
            cx.ghost.update(n=n, a=a)
            return T.Time.from_netCDF(dataset=ds, tz_offset=tz, new_tz_offset=new, **kw)

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"{u}, offset {tz}, new offset {new}, {' and '.join(mv) or 'not moved'}, by {via}, {kind}"
            naive = isinstance(tz, str)
            if p.outcome == "raise":
                V.prove(f"{tag}: only a new offset of naive times is refused", naive and new is not None and isinstance(p.value, ValueError))
                return
            V.prove(f"{tag}: a new offset of naive times is refused", not (naive and new is not None))
            off = UNITS[u][2] or 0 if tz is None else None if naive else tz
            at = _instants(u, q["a"])
            i = cx.fresh_index(q["n"], "i").e
            e = at(i)
            if "origin" in mv:
                e = e - at(z3.IntVal(0)) + q["origin"].e
            if new is not None and not naive:
                from pyvc.core import realval
                e = e + realval(3600 * (new - off))
            if "displacement" in mv:
                e = e + q["disp"].e
            r = p.value
            V.prove(f"{tag}: as many times", And(len(r.data.sshape) == 1, zi(r.data.sshape[0]) == zi(q["n"])))
            V.prove(f"{tag}: instants", r.data.at(i).e == e)
            V.prove(f"{tag}: offset", r.tz_offset == (off if new is None else new))
            V.prove(f"{tag}: description", r.varname == "time" and r.tz_offset_name == (UNITS[u][3] if tz is None else "No Timezone Specified" if naive else
                                                                                       {-8: "-08:00", 0: "+00:00", 5.5: "+05:30"}[tz]))
            V.cover(f"{tag}: reached")
        V.verify(run, post, None, want_return=not (isinstance(tz, str) and new is not None))


def contract_axis_of(V):
    """the time axis of a variable: the dimension named by its attribute, else its first dimension if that is one of time, else none"""
    from pyvc.core import And
    from pyvc.verify import dim
    from .C14 import _ds
    V.functions = ["Time.locate_time_var_from_var", "Time.from_netCDF", "Time.constant_time"]
    T = V.mod("gridded.time")
    for first, attr in itertools.product(("time", "ocean_time", "x", "time_2"), (None, "time_2", "time", "nothing", "coord")):
        want = attr if attr in ("time_2", "time") else first if "time" in first else None

        def run(cx):
            Dataset, _ = _ds(V)
            ds = Dataset()
            ds.createDimension("x", dim("x", 1))
            ax = {}
            for k in ("time", "ocean_time", "time_2"):
                ax[k] = _axis(ds, k, dim(k, 1), "hours since 2001-01-01 00:00")
            c = ds.createVariable("coord", np.float64, ("x",))
            d = ds.createVariable("temp", np.float64, (first, "x"))
            if attr:
                d.time = attr
            cx.ghost.update(ax=ax)
            return T.Time.locate_time_var_from_var(d), T.Time.from_netCDF(dataset=ds, datavar=d)

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"first dimension {first}, attribute {attr}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            name, r = p.value
            V.prove(f"{tag}: name", name == want)
            if want is None:
                V.prove(f"{tag}: a single time", r is T.Time.constant_time() and len(r.data) == 1)
                return
            a = q["ax"][want]
            i = cx.fresh_index(a.sshape[0], "i").e
            V.prove(f"{tag}: axis", And(r.varname == want, r.data.at(i).e == _instants("hours since 2001-01-01 00:00", a)(i)))
            V.cover(f"{tag}: reached")
        V.verify(run, post, None)


def _mesh(cx, V):
    """a mesh of N nodes and nf faces, N != nf"""
    from pyvc.arr import sym_array
    from pyvc.verify import dim
    G = V.mod("gridded.grids")
    g = G.Grid_U.__new__(G.Grid_U)
    n, f = dim("N", 1), dim("nf", 1)
    cx.fact(n != f)
    g._nodes, g._faces, g._boundaries = sym_array("nodes", (n, 2), "f"), sym_array("faces", (f, 3), "i"), None
    return g, n, f


def _depth(V, cx):
    """Depth.from_netCDF by contract: it is recorded what it was asked for"""
    made = cx.ghost["depths"] = []

    class Recorded:
        @staticmethod
        def from_netCDF(**kw):
            made.append((Recorded(), kw))
            return made[-1][0]
    Vm = V.mod("gridded.variable")
    for c in (Vm.Variable, Vm.VectorVariable):
        c._default_component_types = dict(c._default_component_types, depth=Recorded)
    return made


def _values(V, cx, tag, got, want):
    from pyvc.core import And, zi
    V.prove(f"{tag}: shape of the data", And(len(got.sshape) == len(want.sshape), *[zi(a) == zi(b) for a, b in zip(got.sshape, want.sshape)]))
    ix = [cx.fresh_index(s, f"i{k}").e for k, s in enumerate(want.sshape)]
    V.prove(f"{tag}: data", got.at(*ix).e == want.F(*ix))


def _times(V, cx, tag, T, units, a):
    from pyvc.core import And, zi
    i = cx.fresh_index(a.sshape[0], "i").e
    V.prove(f"{tag}: times", And(zi(T.data.sshape[0]) == zi(a.sshape[0]), T.data.at(i).e == _instants(units, a)(i)))


def contract_variable(V):
    """Variable.from_netCDF: data, units, attributes, location, name, time axis and depth of the variable of the file, unless others are given"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Sym, zi
    from pyvc.verify import datetime_, dim
    from .C14 import _ds
    V.functions = ["Variable.from_netCDF", "Variable.__init__", "Variable._gen_varname", "parse_filename_dataset_args", "Time.from_netCDF"]
    V.assumes = ["Depth.from_netCDF by contract (contracts of C21)"]
    Vm, Tm = V.mod("gridded.variable"), V.mod("gridded.time")
    U = "hours since 2001-01-01 06:00:00 -07:00"
    opts = []
    for given in ((), ("name",), ("units",), ("location",), ("time",), ("name", "units", "location", "time"), ("moved",), ("offset",), ("depth",)):
        for has in ((), ("units",), ("location",), ("units", "location", "other"), ("bad location", "other")):
            for dims in (("time",), (), ("time", "lev"), ("lev",)):
                for load_all in (False, True):
                    if "time" in given and "lev" in dims and "time" not in dims or "moved" in given and "time" not in dims or "offset" in given and "time" not in dims:
                        continue
                    if "bad location" in has and "location" not in given:
                        continue
                    if V.tier == "quick" and load_all and (given or "lev" in dims):
                        continue
                    opts.append((given, has, dims, load_all))
    for given, has, dims, load_all in opts:
        def run(cx):
            Dataset, _ = _ds(V)
            ds = Dataset()
            made = _depth(V, cx)
            g, n, f = _mesh(cx, V)
            ds.createDimension("node", n)
            ds.createDimension("face", f)
            nt, nl = dim("nt", 1), dim("nl", 1)
            ds.createDimension("lev", nl)
            a = _axis(ds, "time", nt, U)
            sizes = {"time": nt, "lev": nl}
            data = {}
            for k, place in (("other", "node"), ("temp", "face")):
                v = ds.createVariable(k, np.float64, dims + (place,))
                data[k] = sym_array(k, tuple(sizes[x] for x in dims) + ((f if place == "face" else n),), "f")
                v[:] = data[k]
                if k == "other":
                    v.units, v.long_name = "furlong", "another"
            attrs = {}
            if "units" in has:
                attrs["units"] = "K"
            if "location" in has:
                attrs["location"] = "face"
            if "bad location" in has:
                attrs["location"] = "somewhere"
            if "other" in has:
                attrs.update(long_name="temperature", number=7)
            for k, x in attrs.items():
                setattr(v, k, x)
            kw = {}
            if "name" in given:
                kw["name"] = "given"
            if "units" in given:
                kw["units"] = "degrees"
            if "location" in given:
                kw["location"] = "face"
            if "depth" in given:
                kw["depth"] = cx.ghost["depth"] = object()
            if "time" in given:
                t = Tm.Time.__new__(Tm.Time)
                from pyvc.arr import ascending
                t._data, t._tz_offset = sym_array("given_t", (nt if "time" in dims else 1,), "t", axioms=[ascending()]), None
                kw["time"] = cx.ghost["given_t"] = t
            if "moved" in given:
                kw["time_origin"] = cx.ghost["origin"] = datetime_("origin")
                kw["displacement"] = cx.ghost["disp"] = Sym("d", z3.Real("disp"))
            if "offset" in given:
                kw["tz_offset"] = "naive"
            cx.ghost.update(g=g, ds=ds, a=a, data=data["temp"], attrs=attrs, made=made, nt=nt)
            return Vm.Variable.from_netCDF(dataset=ds, varname="temp", grid=g, load_all=load_all, fill_value=-9, **kw)

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"given {given}, attributes {has}, dimensions {dims}{', loaded' if load_all else ''}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r = p.value
            _values(V, cx, tag, r.data[:], q["data"])
            V.prove(f"{tag}: units", r.units == ("degrees" if "units" in given else "K" if "units" in has else None))
            V.prove(f"{tag}: attributes", r.attributes == q["attrs"])
            V.prove(f"{tag}: location", r.location == "face")
            V.prove(f"{tag}: name", r.name == "given" if "name" in given else isinstance(r.name, str) and r.name != "given")
            V.prove(f"{tag}: grid and description", r.grid is q["g"] and r.varname == "temp" and r.fill_value == -9)
            if "time" in given:
                V.prove(f"{tag}: the times that are given", r.time is q["given_t"])
            elif "moved" in given:
                at, i = _instants(U, q["a"]), cx.fresh_index(q["nt"], "i").e
                V.prove(f"{tag}: times moved", And(zi(r.time.data.sshape[0]) == zi(q["nt"]),
                                                  r.time.data.at(i).e == at(i) - at(z3.IntVal(0)) + q["origin"].e + q["disp"].e))
            elif "offset" in given:
                V.prove(f"{tag}: naive", r.time.tz_offset is None and r.time.varname == "time")
            elif "time" in dims:
                _times(V, cx, tag, r.time, U, q["a"])
                V.prove(f"{tag}: offset", r.time.tz_offset == -7)
            else:
                V.prove(f"{tag}: a single time", zi(len(r.time.data)) == 1)
            if "depth" in given:
                V.prove(f"{tag}: the depth that is given", r.depth is q["depth"])
            elif "lev" in dims:
                made = q["made"]
                V.prove(f"{tag}: depth of the file", len(made) == 1 and r.depth is made[0][0] and made[0][1]["dataset"] is q["ds"] and made[0][1]["grid"] is q["g"]
                        and made[0][1]["time"] is r.time)
            else:
                V.prove(f"{tag}: no depth", r.depth is None and not q["made"])
            V.cover(f"{tag}: reached")
        V.verify(run, post, None)


def contract_names(V):
    """variables that are not named: the first of the default names that is in the file, else the variable with the first of the standard (or long)
    names that is; refused if there is none. Names that are made up differ"""
    from pyvc.arr import sym_array
    from .C14 import _ds
    V.functions = ["Variable._gen_varname", "Variable.from_netCDF", "VectorVariable._gen_varnames", "VectorVariable.from_netCDF"]
    Vm = V.mod("gridded.variable")
    # name in the file -> standard_name, long_name
    files = {"default": dict(b=(None, None), a=(None, None), x=("cf1", None)), "standard": dict(x=(None, None), y=("cf2", None), z=("cf1", None)),
             "long": dict(x=("cf3", "cf2"), y=(None, None)), "first of many": dict(q=(None, "cf1"), z=("cf1", None)), "none": dict(x=("cf9", None)),
             "case": dict(A=(None, None), y=("CF1", None))}
    wants = {"default": "a", "standard": "z", "long": "x", "first of many": "q", "none": None, "case": None}
    for name, file in files.items():
        for vector in (False, True):
            def run(cx):
                Dataset, _ = _ds(V)
                ds = Dataset()
                _depth(V, cx)
                g, n, f = _mesh(cx, V)
                ds.createDimension("node", n)
                data = {}
                for k, (s, l) in list(file.items()) + ([("v", (None, None))] if vector else []):
                    v = ds.createVariable(k, np.float64, ("node",))
                    data[k] = sym_array(f"d_{k}", (n,), "f")
                    v[:] = data[k]
                    if s:
                        v.standard_name = s
                    if l:
                        v.long_name = l
                cx.ghost.update(data=data)
                if vector:
                    class W(Vm.VectorVariable):
                        default_names = {"p": ["a", "b"], "q": ["v"]}
                        cf_names = {"p": ["cf1", "cf2"], "q": ["cf1"]}
                        comp_order = ["q", "p"]
                    return W.from_netCDF(dataset=ds, grid=g)

                class S(Vm.Variable):
                    default_names = ["a", "b"]
                    cf_names = ["cf1", "cf2"]
                return [S.from_netCDF(dataset=ds, grid=g) for _ in range(2)]

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                tag, want = f"{'component' if vector else 'variable'} by {name}", wants[name]
                if want is None:
                    V.prove(f"{tag}: refused", p.outcome == "raise" and isinstance(p.value, ValueError))
                    return
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                if vector:
                    r = p.value
                    V.prove(f"{tag}: two components in order", len(r.variables) == 2 and r.variables[0].varname == "v" and r.p is r.variables[1])
                    _values(V, cx, f"{tag}: v", r.q.data[:], q["data"]["v"])
                    r = r.p
                else:
                    r, s = p.value
                    V.prove(f"{tag}: names differ", r.name != s.name)
                V.prove(f"{tag}: found", r.varname == want)
                _values(V, cx, tag, r.data[:], q["data"][want])
                V.cover(f"{tag}: reached")
            V.verify(run, post, None, want_return=wants[name] is not None)


def contract_vector(V):
    """VectorVariable.from_netCDF: the components of the given names in their order, on the same grid, times and depth; units if they are all the same"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Sym, zi
    from pyvc.verify import datetime_, dim
    from .C14 import _ds
    V.functions = ["VectorVariable.from_netCDF", "VectorVariable.__init__", "Variable.from_netCDF"]
    V.assumes = ["Depth.from_netCDF by contract (contracts of C21)"]
    Vm = V.mod("gridded.variable")
    U = "seconds since 2011-12-31T06:30:00+05:30"
    for names in (("u", "v"), ("v", "u"), ("u", "v", "w")):
        for units in ({}, dict(u="m/s", v="m/s", w="m/s"), dict(u="m/s", v="K", w="m/s"), "given"):
            for dims in (("time",), (), ("time", "lev")):
                for how in ("", "loaded") + (("moved", "naive") if "time" in dims else ()):
                    if V.tier == "quick" and how and (len(names) == 3 or dims == ("time", "lev") and how != "loaded"):
                        continue

                    def run(cx):
                        Dataset, _ = _ds(V)
                        ds = Dataset()
                        made = _depth(V, cx)
                        g, n, f = _mesh(cx, V)
                        ds.createDimension("node", n)
                        nt, nl = dim("nt", 1), dim("nl", 1)
                        ds.createDimension("lev", nl)
                        a = _axis(ds, "time", nt, U)
                        data = {}
                        for k in "wuv":
                            v = ds.createVariable(k, np.float64, dims + ("node",))
                            data[k] = sym_array(k, tuple({"time": nt, "lev": nl}[x] for x in dims) + (n,), "f")
                            v[:] = data[k]
                            v.long_name = f"component {k}"
                            if isinstance(units, dict) and k in units:
                                v.units = units[k]
                        cx.ghost.update(g=g, ds=ds, a=a, data=data, made=made)
                        kw = {"units": "knots"} if units == "given" else {}
                        if how == "moved":
                            kw["time_origin"] = cx.ghost["origin"] = datetime_("origin")
                            kw["displacement"] = cx.ghost["disp"] = Sym("d", z3.Real("disp"))
                        if how == "naive":
                            kw["tz_offset"] = "Naive"
                        return Vm.VectorVariable.from_netCDF(dataset=ds, varnames=list(names), name="wind", grid=g, load_all=how == "loaded", **kw)

                    def post(V, p):
                        cx, q = p.ctx, p.ctx.ghost
                        tag = f"{'/'.join(names)}, units {units}, dimensions {dims} {how}"
                        if p.outcome == "raise":
                            V.prove(f"{tag}: no exception", False)
                            return
                        r = p.value
                        V.prove(f"{tag}: components", r.name == "wind" and r.grid is q["g"] and [v.varname for v in r.variables] == list(names))
                        us = ["knots" if units == "given" else units.get(k) for k in names]
                        if len(set(us)) == 1:
                            V.prove(f"{tag}: units", r.units == us[0])
                        else:
                            V.prove(f"{tag}: units", list(r.units) == us)
                        for k, u, v in zip(names, us, r.variables):
                            _values(V, cx, f"{tag}: {k}", v.data[:], q["data"][k])
                            V.prove(f"{tag}: units of {k}", v.units == u)
                            V.prove(f"{tag}: {k} described", v.attributes["long_name"] == f"component {k}" and v.location == "node" and v.grid is q["g"])
                            V.prove(f"{tag}: times of {k}", v.time is r.time)
                            V.prove(f"{tag}: depth of {k}", v.depth is r.depth)
                        if how == "moved":
                            at, i = _instants(U, q["a"]), cx.fresh_index(q["a"].sshape[0], "i").e
                            V.prove(f"{tag}: times moved", And(zi(r.time.data.sshape[0]) == zi(q["a"].sshape[0]),
                                                              r.time.data.at(i).e == at(i) - at(z3.IntVal(0)) + q["origin"].e + q["disp"].e))
                        elif how == "naive":
                            V.prove(f"{tag}: naive", r.time.tz_offset is None and r.time.varname == "time")
                        elif "time" in dims:
                            _times(V, cx, tag, r.time, U, q["a"])
                        V.prove(f"{tag}: depth", r.depth is (q["made"][0][0] if "lev" in dims else None) and len(q["made"]) == ("lev" in dims))
                        V.cover(f"{tag}: reached")
                    V.verify(run, post, None)


def contract_dataset(V):
    """Dataset.from_netCDF: exactly the variables that do not describe the grid and are on it, under their names in the file, named after their long names,
    with data, location, times and attributes of their own; get_variables_by_attribute: exactly those with that value"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, Or, Sym, zi
    from pyvc.verify import dim
    from .C14 import _ds
    V.functions = ["Dataset.from_netCDF", "Dataset._init_from_netCDF", "Dataset._variables_from_netCDF", "Dataset.get_variables_by_attribute", "Variable.from_netCDF",
                   "UGrid.infer_location", "get_dataset_attrs"]
    D = V.mod("gridded.gridded")
    U1, U2 = "hours since 2001-01-01 06:00:00 -07:00", "days since 2024-1-1T00:00:00Z"
    # variables: dimensions, attributes
    sets = {
        "nodes and faces": dict(temp=(("time", "node"), dict(long_name="temperature", units="K")), w=(("face",), {}), crs=((), {})),
        "located": dict(temp=(("ocean_time", "face"), dict(location="face")), w=(("node",), dict(location="somewhere", long_name="speed"))),
        "elsewhere": dict(station=(("time", "other"), dict(long_name="a station")), table=(("other",), {}), temp=(("node",), dict(units="K"))),
        "alike": dict(nlon2=(("node",), {}), lon=(("face",), {}), n=(("node",), {})),
        "two axes": dict(temp=(("time", "node"), {}), w=(("ocean_time", "node"), {}), u=(("time", "face"), dict(location="face"))),
        "described": dict(data=(("time", "node"), dict(long_name="values")), topology=(("face",), {}), a=(("node",), {})),
    }
    for name, vs in sets.items():
        def run(cx):
            Dataset, _ = _ds(V)
            _depth(V, cx)
            n, f, o = dim("N", 1), dim("nf", 1), dim("no", 1)
            cx.fact(n != f)
            cx.fact(f != 3)
            ds = Dataset()
            ds.title, ds.number = "a file", 4
            for k, s in (("node", n), ("face", f), ("three", 3), ("other", o)):
                ds.createDimension(k, s)
            top = ds.createVariable("mesh", np.int32, ())
            top.cf_role, top.topology_dimension, top.node_coordinates, top.face_node_connectivity = "mesh_topology", 2, "nlon nlat", "fnc"
            top.long_name = "Topology data of a mesh"
            for k, s in (("nlon", "longitude"), ("nlat", "latitude")):
                v = ds.createVariable(k, np.float64, ("node",))
                v[:] = sym_array(k, (n,), "f")
                v.standard_name = s
            v = ds.createVariable("fnc", np.int32, ("face", "three"))
            v[:] = sym_array("fnc", (f, 3), "i", axioms=[(1, lambda raw, i: And(raw(i).e >= 0, raw(i).e < n))])
            v.start_index = 0
            axes = {}
            for k, u in (("time", U1), ("ocean_time", U2)):
                m = dim(k, 1)
                cx.fact(And(m != n, m != f))
                axes[k] = _axis(ds, k, m, u)
            data = {}
            for k, (dims, at) in vs.items():
                v = ds.createVariable(k, np.float64, dims)
                data[k] = sym_array(f"d_{k}", tuple(ds.dimensions[x].n for x in dims), "f")
                if dims:
                    v[:] = data[k]
                for x, y in at.items():
                    setattr(v, x, y)
            cx.ghost.update(n=n, f=f, o=o, axes=axes, data=data)
            Dataset._files["file.nc"] = ds.dimensions, ds.variables      # the path that it tells
            nc4 = V.mod("gridded.utilities").nc4
            keep, nc4.Dataset = nc4.Dataset, Dataset
            try:
                r = D.Dataset.from_netCDF(ds)
            finally:
                nc4.Dataset = keep
            nums = {}
            for k in r.variables:       # any values of an attribute
                nums[k] = Sym("i", z3.Int(f"num_{k}"))
                r[k].attributes["number"] = nums[k]
            key = Sym("i", z3.Int("key"))
            found = r.get_variables_by_attribute("number", key)
            return r, nums, key, found, r.get_variables_by_attribute("units", "K"), r.get_variables_by_attribute("nothing", None)

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            if p.outcome == "raise":
                V.prove(f"{name}: no exception", False)
                return
            r, nums, key, found, K, none = p.value
            n, f, o = q["n"], q["f"], q["o"]
            V.prove(f"{name}: the grid is read", type(r.grid).__name__ == "Grid_U" and r.attributes == {"title": "a file", "number": 4})
            where = {}
            for k, (dims, at) in vs.items():
                size = {"node": n, "face": f, "other": o}[dims[-1]] if dims else None
                on = z3.BoolVal(False) if size is None else z3.BoolVal(True) if at.get("location") == "face" else Or(size == n, size == f)
                V.prove(f"{name}: {k} belongs to the dataset exactly if it is on the grid", on if k in r.variables else Not(on))
            V.prove(f"{name}: nothing else", set(r.variables) <= set(vs))
            V.prove(f"{name}: in the order of the file", list(r.variables) == [k for k in vs if k in r.variables])
            for k, v in r.variables.items():
                dims, at = vs[k]
                _values(V, cx, f"{name}: {k}", v.data[:], q["data"][k])
                size = {"node": n, "face": f, "other": o}[dims[-1]]
                V.prove(f"{name}: {k} location", size == (n if v.location == "node" else f) if v.location in ("node", "face") else False)
                V.prove(f"{name}: {k} described", v.name == at.get("long_name", k) and v.varname == k and v.units == at.get("units") and v.grid is r.grid
                        and {x: y for x, y in v.attributes.items() if x != "number"} == at)
                if dims[0] in q["axes"]:
                    _times(V, cx, f"{name}: {k}", v.time, U1 if dims[0] == "time" else U2, q["axes"][dims[0]])
                else:
                    V.prove(f"{name}: {k}: a single time", zi(len(v.time.data)) == 1)
                V.prove(f"{name}: {k} is found exactly if its attribute has that value", (nums[k].e == key.e) == any(x is v for x in found))
            V.prove(f"{name}: each is found once", len({id(x) for x in found}) == len(found) and all(any(x is v for v in r.variables.values()) for x in found))
            V.prove(f"{name}: in order", [x.varname for x in found] == [k for k in r.variables if any(x.varname == k for x in found)])
            V.prove(f"{name}: by units", [v.varname for v in K] == [k for k in r.variables if vs[k][1].get("units") == "K"] and none == [])
            V.cover(f"{name}: {len(r.variables)} variables")
        V.verify(run, post, None)


CONTRACTS = [contract_time, contract_axis_of, contract_variable, contract_names, contract_vector, contract_dataset]
