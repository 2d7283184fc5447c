"""C02: time axes are strictly ascending and every shift is exact, uniform and private."""
import datetime as dt

import z3

from pyvc.verify import run_case

ID = "C02"
BOUNDED_FUNCTIONS = ["Time.from_netCDF", "parse_time_offset", "Time.constant_time", "Time.__eq__"]


def _hours(x):
    return dt.timedelta(hours=x)


def oracle(case):
    import numpy as np
    from gridded.time import Time, TimeSeriesError
    ts = case["times"]
    as_time, as_list = case.get("as_time"), case.get("as_list")
    tz, new, origin, disp = case.get("tz"), case.get("new_tz"), case.get("origin"), case.get("disp")
    later = case.get("later", [])
    bad = any(b <= a for a, b in zip(ts, ts[1:]))
    orig = np.array(ts, dtype=object)
    src = list(ts) if as_list else orig.copy()
    if as_time and not bad:
        src = Time(data=orig.copy())
    want_err = None
    if new is not None and tz is None:
        want_err = ValueError
    elif bad:
        want_err = TimeSeriesError
    try:
        T = Time(data=src, tz_offset=tz, new_tz_offset=new, origin=origin, displacement=disp)
    except ValueError as e:
        if want_err is None:
            return f"valid ascending axis {ts} rejected: {e!r}"
        if not isinstance(e, want_err):
            return f"wrong error {e!r}, expected {want_err.__name__}"
        T = None
    if T is not None and want_err is not None:
        return f"axis {ts} (tz={tz}, new_tz={new}) accepted, expected {want_err.__name__}"
    inner = list(src.data) if as_time and not bad else list(src)
    if inner != list(ts):
        return f"building a Time changed the caller's data: {ts} -> {inner}"
    if T is None:
        return None
    shift = dt.timedelta(0)
    if origin is not None:
        shift += origin - ts[0]
    cur = tz
    if new is not None:
        shift += _hours(new) - _hours(tz)
        cur = new
    d = disp
    if d is not None:
        shift += d if isinstance(d, dt.timedelta) else _hours(d)
    exp = [t + shift for t in ts]
    if list(T.data) != exp:
        return f"times after construction {list(T.data)} != {exp}"
    if T.tz_offset != cur:
        return f"tz_offset {T.tz_offset} != {cur}"
    if len(T) != len(ts) or list(T) != exp or T.min_time != exp[0] or T.max_time != exp[-1]:
        return "len/iteration/min/max disagree with the axis"
    other = Time(data=T)
    if list(other.data) != exp:
        return "Time(Time) differs from its source"
    for op, v in later:
        before = list(T.data)
        obefore = list(other.data)
        if op == "tz":
            T.tz_offset = v
            s = _hours(v) - _hours(cur) if (v is not None and cur is not None) else dt.timedelta(0)
            cur = v
        elif op == "disp":
            try:
                T.displacement = v
                if d is not None:
                    return "displacement applied twice"
                s = dt.timedelta(0) if v is None else (v if isinstance(v, dt.timedelta) else _hours(v))
                d = v
            except AttributeError:
                if d is None:
                    return "first displacement refused"
                s = dt.timedelta(0)
        elif op == "copy":
            arr = T.get_time_array()
            arr += dt.timedelta(days=3)
            s = dt.timedelta(0)
        elif op == "share":
            # another Time built from this one, then shifted, must leave this one alone
            o2 = Time(data=T, displacement=dt.timedelta(hours=5))
            o3 = Time(data=T.data, tz_offset=0, new_tz_offset=3)
            o4 = Time(data=[dt.datetime(2000, 1, 1)])
            o4.data = T
            o4.displacement = dt.timedelta(hours=2)
            if [x - y for x, y in zip(o2.data, before)] != [dt.timedelta(hours=5)] * len(before):
                return "displaced copy is wrong"
            if [x - y for x, y in zip(o3.data, before)] != [dt.timedelta(hours=3)] * len(before):
                return "re-zoned copy is wrong"
            s = dt.timedelta(0)
        exp = [t + s for t in before]
        if list(T.data) != exp:
            return f"after {op}({v}) the axis is {list(T.data)}, expected {exp}"
        if list(other.data) != obefore:
            return f"{op}({v}) on one Time changed another Time"
        if any(b <= a for a, b in zip(T.data, list(T.data)[1:])):
            return "axis not strictly ascending"
        if op == "tz" and T.tz_offset != v:
            return f"tz_offset not recorded: {T.tz_offset} != {v}"
    return None


def oracle_nc(case):
    import numpy as np
    import netCDF4 as nc
    from gridded.time import Time, TimeSeriesError, parse_time_offset, offset_as_iso_string
    vals, unit, ref, off_str, off_h = case["vals"], case["unit"], case["ref"], case["off_str"], case["off_h"]
    tz, new = case["tz"], case["new"]
    ds = nc.Dataset("inmem_c02.nc", "w", diskless=True, persist=False)
    try:
        ds.createDimension("time", len(vals))
        v = ds.createVariable("time", "f8", ("time",))
        v[:] = vals
        v.units = f"{unit} since {ref}{off_str}"
        dv = ds.createVariable("u", "f4", ("time",))
        kw = {}
        if case["via"] == "datavar":
            kw["datavar"] = dv
        elif case["via"] == "datavar_name":
            kw["datavar"] = "u"
        else:
            kw["varname"] = "time"
        got_off, name = parse_time_offset(v.units)
        if got_off != off_h:
            return f"offset of {v.units!r} read as {got_off}, expected {off_h}"
        naive = isinstance(tz, str)
        eff = None if naive else (tz if tz is not None else (off_h if off_h is not None else 0))
        try:
            T = Time.from_netCDF(dataset=ds, tz_offset=tz, new_tz_offset=new, **kw)
        except ValueError as e:
            if new is not None and eff is None and not isinstance(e, TimeSeriesError):
                return None
            return f"from_netCDF raised {e!r}"
        if new is not None and eff is None:
            return "new_tz_offset accepted for naive data"
        base = dt.datetime.strptime(ref, "%Y-%m-%dT%H:%M:%S")
        sec = {"hours": 3600, "days": 86400, "seconds": 1, "minutes": 60}[unit]
        got = list(T.data)
        # in the offset of the file, unless another is given: then netCDF4 decides
        raw = [base + dt.timedelta(seconds=x * sec) for x in vals]
        if tz is not None:
            raw = nc.num2date(v[:], units=v.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
        exp = [r + (dt.timedelta(hours=new - eff) if new is not None else dt.timedelta(0)) for r in raw]
        if any(abs(g - e) > dt.timedelta(milliseconds=1) for g, e in zip(got, exp)) or len(got) != len(exp):
            return f"times {got} != {exp}"
        want_off = new if new is not None else eff
        if T.tz_offset != want_off:
            return f"tz_offset {T.tz_offset} != {want_off}"
    finally:
        ds.close()
    return None


def oracle_iso(case):
    from gridded.time import offset_as_iso_string
    h = case["minutes"] / 60
    got = offset_as_iso_string(h)
    m = abs(case["minutes"])
    want = f"{'-' if case['minutes'] < 0 else '+'}{m // 60:02d}:{m % 60:02d}"
    return None if got == want else f"offset {h} h printed as {got}, expected {want}"


def bounded(B):
    rng = B.rng
    base = dt.datetime(2015, 12, 30)
    offs = [0, 1, -8, 5.5, -3.5, 13, 0.25, 5.75]
    for c in range(B.n(500, 5000)):
        n = rng.choice([1, 2, 2, 3, 4, 7])
        unit = rng.choice([dt.timedelta(microseconds=1), dt.timedelta(minutes=7), dt.timedelta(days=11)])
        t, ts = base, []
        for _ in range(n):
            ts.append(t)
            t = t + unit * rng.randint(1, 5)
        bad = rng.random()
        if n > 1 and bad < 0.35:
            k = rng.randrange(n - 1)
            if bad < 0.15:
                ts[k + 1] = ts[k]
            elif bad < 0.25:
                ts[k], ts[k + 1] = ts[k + 1], ts[k]
            else:
                ts[-1] = ts[0] - unit if rng.random() < .5 else ts[0]
        case = dict(times=ts, as_time=rng.random() < .3, as_list=rng.random() < .3)
        if rng.random() < .6:
            case["tz"] = rng.choice(offs)
        if rng.random() < .4:
            case["new_tz"] = rng.choice(offs)
        if rng.random() < .3:
            case["origin"] = base + dt.timedelta(hours=rng.randint(-500, 500))
        if rng.random() < .3:
            case["disp"] = rng.choice([dt.timedelta(days=2), dt.timedelta(hours=-5), 3, -1.5, dt.timedelta(0)])
        case["later"] = [rng.choice([("tz", rng.choice(offs)), ("tz", rng.choice(offs)), ("tz", None),
                                     ("disp", rng.choice([2, dt.timedelta(hours=7), None])), ("copy", None),
                                     ("share", None)]) for _ in range(rng.randint(0, 4))]
        B.case("construct+shift", oracle, case, nontrivial=n > 1 or len(case) > 3)
    for m in range(-14 * 60, 14 * 60 + 1, 15):
        B.case("iso", oracle_iso, dict(minutes=m))
    forms = [("", None), ("Z", 0.0), ("+00:00", 0.0), ("-07:00", -7.0), ("+05:30", 5.5), ("-3:30", -3.5), (" +2:00", 2.0)]
    for c in range(B.n(60, 500)):
        o, h = rng.choice(forms)
        vals = sorted(rng.sample(range(0, 400), rng.randint(1, 5)))
        B.case("from_netCDF", oracle_nc, dict(
            vals=[float(v) for v in vals], unit=rng.choice(["hours", "days", "seconds", "minutes"]),
            ref="2020-03-01T06:00:00", off_str=o, off_h=h, tz=rng.choice([None, None, 0, -8, 5.5, "naive", "Naive"]),
            new=rng.choice([None, None, 0, 3, -4.5]), via=rng.choice(["varname", "datavar", "datavar_name"])))


# ------------------------------------------------------------------ contracts
def _replay(V_case):
    def replay(M, cx):
        g = cx.ghost
        case = dict(times=M.array(g["t"]).tolist())
        for k in ("tz", "new_tz", "origin", "disp"):
            if g.get(k) is not None:
                case[k] = M.val(g[k])
        if g.get("later"):
            case["later"] = [(op, M.val(v) if v is not None else None) for op, v in g["later"]]
        return run_case(oracle, case)
    return replay


def contract_construct(V):
    """Time.__init__ for every combination of options, arbitrary data of any length: accepted iff strictly ascending;
    result = data + (origin - first) + (new_tz - tz) h + displacement at every index; caller's array unchanged"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, Sym, zi
    from pyvc.verify import datetime_, dim, implies, real
    V.functions = ["Time.__init__", "Time.data", "Time.tz_offset", "Time.displacement", "Time._timeseries_is_ascending",
                   "Time._has_duplicates"]
    T = V.mod("gridded.time")
    for single in (True, False):
        for opts in range(16):
            o_or, o_tz, o_new, o_dis = opts & 1, opts & 2, opts & 4, opts & 8
            if opts in (5, 6, 9, 10, 11, 13) and V.tier == "quick" and single:
                continue

            def run(cx):
                N = 1 if single else dim("N", 2)
                t = sym_array("t", (N,), "t")
                cx.ghost.update(N=N, t=t, orig=t.reader())
                kw = {}
                if o_or:
                    kw["origin"] = cx.ghost["origin"] = datetime_("origin")
                if o_tz:
                    kw["tz_offset"] = cx.ghost["tz"] = real("tz")
                if o_new:
                    kw["new_tz_offset"] = cx.ghost["new_tz"] = real("newtz")
                if o_dis:
                    kw["displacement"] = cx.ghost["disp"] = Sym("d", z3.Real("disp"))
                cx.ghost["arg"] = t
                return T.Time(data=t, **kw)

            def post(V, p):
                cx = p.ctx
                g = cx.ghost
                N, t, orig = g["N"], g["t"], g["orig"]
                tag = f"init[n{'=1' if single else '>1'},origin={bool(o_or)},tz={bool(o_tz)},new={bool(o_new)},disp={bool(o_dis)}]"
                k = cx.fresh_index(N, "k").e
                if p.outcome == "raise":
                    nm = type(p.value).__name__
                    if o_new and not o_tz:
                        V.prove(f"{tag}: unknown offset refused", isinstance(p.value, ValueError))
                        return
                    V.prove(f"{tag}: only TimeSeriesError", nm == "TimeSeriesError" and not single)
                    if single:
                        return
                    # witness of a violation must exist among the terms named on this path
                    ws = [i[0] for i in t.used.used]
                    from pyvc.core import Or
                    V.prove(f"{tag}: a strictly ascending axis is never refused",
                            Or(*[And(zi(a) >= 0, zi(a) < zi(b), zi(b) < zi(N), orig((b,)).e <= orig((a,)).e)
                                 for a in ws for b in ws]))
                    V.cover(f"{tag}: refuses")
                    return
                V.prove(f"{tag}: unknown offset refused", not (o_new and not o_tz))
                o = p.value
                from pyvc.core import ctx
                d = o.data
                exp = orig((k,)).e
                if o_or:
                    exp = exp + (g["origin"].e - orig((0,)).e)
                if o_new:
                    exp = exp + 3600 * (g["new_tz"].e - g["tz"].e)
                if o_dis:
                    exp = exp + g["disp"].e
                V.prove(f"{tag}: same length", zi(d.sshape[0]) == zi(N))
                V.prove(f"{tag}: exact uniform shift", d.at(k).e == exp)
                V.prove(f"{tag}: caller's array unchanged", t.at(k).e == orig((k,)).e)
                V.prove(f"{tag}: no aliasing of the caller's array", d.store is not t.store)
                j = cx.fresh_index(N, "j").e
                V.prove(f"{tag}: strictly ascending", implies(j < k, d.at(j).e < d.at(k).e))
                from pyvc.core import lift
                want = g.get("new_tz") if o_new else g.get("tz")
                got = o.tz_offset
                V.prove(f"{tag}: offset recorded", got is None if want is None else lift(got).e == want.e)
                V.cover(f"{tag}: accepts")
            V.verify(run, post, _replay(None), want_return=not (o_new and not o_tz))


def contract_setters(V):
    """tz_offset and displacement setters, data setter, copy constructor: exact shift, other Time objects untouched"""
    from pyvc.arr import ascending, sym_array
    from pyvc.core import And, Sym, lift, zi
    from pyvc.verify import dim, implies, real
    V.functions = ["Time.tz_offset", "Time.displacement", "Time.data", "Time.get_time_array"]
    T = V.mod("gridded.time")
    for scen in ("tz", "tz_none", "tz_from_none", "disp_td", "disp_num", "disp_twice", "copy_ctor", "data_from_time",
                 "get_copy"):

        def run(cx):
            N = dim("N", 1)
            t = sym_array("t", (N,), "t", axioms=[ascending()])
            cx.ghost.update(N=N, t=t, orig=t.reader())
            a = T.Time.__new__(T.Time)
            a._tz_offset = None
            a.data = t
            h1, h2 = real("h1"), real("h2")
            later = None
            if scen == "tz":
                a._tz_offset = h1
                cx.ghost["tz"] = h1
                later = [("tz", h2)]
                a.tz_offset = h2
            elif scen == "tz_none":
                a._tz_offset = h1
                cx.ghost["tz"] = h1
                later = [("tz", None)]
                a.tz_offset = None
            elif scen == "tz_from_none":
                later = [("tz", h2)]
                a.tz_offset = h2
            elif scen == "disp_td":
                d = Sym("d", z3.Real("dd"))
                later = [("disp", d)]
                a.displacement = d
            elif scen == "disp_num":
                later = [("disp", h1)]
                a.displacement = h1
            elif scen == "disp_twice":
                a.displacement = Sym("d", z3.Real("dd"))
                cx.ghost["first"] = True
                a.displacement = Sym("d", z3.Real("dd2"))
            b = None
            if scen == "copy_ctor":
                b = T.Time(data=a)
                b.displacement = Sym("d", z3.Real("dd"))
            if scen == "data_from_time":
                b = T.Time.__new__(T.Time)
                b._tz_offset = h1
                b.data = a
                b.tz_offset = h2
            if scen == "get_copy":
                x = a.get_time_array()
                x += Sym("d", z3.Real("dd"))
            cx.ghost["later"] = later
            return a, b

        def post(V, p):
            cx = p.ctx
            g = cx.ghost
            N, t, orig = g["N"], g["t"], g["orig"]
            if p.outcome == "raise":
                V.prove(f"{scen}: no exception", scen == "disp_twice" and isinstance(p.value, AttributeError)
                        and g.get("first", False))
                return
            V.prove(f"{scen}: second displacement refused", scen != "disp_twice")
            k = cx.fresh_index(N, "k").e
            a, b = p.value
            h1, h2, dd = z3.Real("h1"), z3.Real("h2"), z3.Real("dd")
            sh = {"tz": 3600 * (h2 - h1), "disp_td": dd, "disp_num": 3600 * h1}.get(scen, z3.RealVal(0))
            V.prove(f"{scen}: exact uniform shift", a.data.at(k).e == orig((k,)).e + sh)
            V.prove(f"{scen}: caller's array unchanged", t.at(k).e == orig((k,)).e)
            if scen == "tz":
                V.prove(f"{scen}: offset recorded", lift(a.tz_offset).e == h2)
            if scen == "tz_none":
                V.prove(f"{scen}: offset recorded", a.tz_offset is None)
            if scen == "copy_ctor":
                V.prove(f"{scen}: copy shifted", b.data.at(k).e == orig((k,)).e + dd)
            if scen == "data_from_time":
                V.prove(f"{scen}: copy shifted", b.data.at(k).e == orig((k,)).e + 3600 * (h2 - h1))
        V.verify(run, post, _replay(None), want_return=scen != "disp_twice")


CONTRACTS = [contract_construct, contract_setters]
