"""C03: fixed-level depth lookup brackets every point and honours the boundary conditions, in both orderings."""
import z3

from pyvc.verify import run_case

ID = "C03"
BOUNDED_FUNCTIONS = ["L_Depth.from_netCDF", "DepthBase.interpolation_alphas"]


def oracle(case):
    import numpy as np
    from gridded.depth import L_Depth
    from .common import earlier
    lv = np.array(case["levels"], dtype=float)
    z = np.array(case["z"], dtype=float)
    sbc, bbc = case["sbc"], case["bbc"]
    kw = {}
    ctor = {}
    if case.get("defaults"):
        ctor = dict(default_surface_boundary_condition=sbc, default_bottom_boundary_conditon=bbc)
    else:
        kw = dict(surface_boundary_condition=sbc, bottom_boundary_condition=bbc)
    D = L_Depth(terms={"depth_levels": lv.copy()}, **ctor)
    pts = np.column_stack([np.arange(len(z)) * 1.5, -np.arange(len(z)) * 2.5, z])
    p0 = pts.copy()
    arg = pts.tolist() if case.get("aslist") else pts
    shape = case.get("shape")
    M = len(lv)
    if D.num_levels != M or D.num_layers != M - 1:
        return "num_levels/num_layers wrong"
    if D.surface_index != int(np.argmin(lv)) or D.bottom_index != int(np.argmax(lv)):
        return "surface/bottom index wrong"
    for q in earlier(case.get("warm"), pts):
        D.interpolation_alphas(q, None, shape, **kw)
    idx, al = D.interpolation_alphas(arg, None, shape, **kw)
    if not np.array_equal(pts, p0) or not np.array_equal(D.depth_levels, lv):
        return "query modified its inputs"
    idx, al = np.ma.asarray(idx), np.ma.asarray(al)
    im, am = np.ma.getmaskarray(idx), np.ma.getmaskarray(al)
    if idx.shape != (len(z),) or al.shape != (len(z),):
        return f"result shapes {idx.shape} {al.shape}"
    if (shape is not None and shape[0] == 1) or M == 1:
        if im.any() or am.any() or (al.data != 0).any() or not (idx.data == int(np.argmin(lv))).all():
            return "surface-only lookup is not the surface level with weight 0"
        return None
    lo, hi = lv.min(), lv.max()
    for k in range(len(z)):
        up = lv[0] < lv[-1]
        # a depth exactly on a level belongs to that level: the last stored level closes the axis
        above, below = (z[k] < lo, z[k] >= hi) if up else (z[k] <= lo, z[k] > hi)
        want = (above and sbc == "mask") or (below and bbc == "mask")
        if im[k] != am[k]:
            return f"depth {z[k]}: index mask {im[k]} but weight mask {am[k]}"
        if im[k] != want:
            return f"depth {z[k]} levels {lv.tolist()} sbc={sbc} bbc={bbc}: masked={im[k]}, expected {want}"
        if im[k]:
            continue
        i, a = int(idx.data[k]), float(al.data[k])
        if not (-1 <= i <= M - 1) or not (0 <= a <= 1):
            return f"depth {z[k]}: index {i}, weight {a} out of range"
        if i == -1 and a != 1 or i == M - 1 and a != 0:
            return f"depth {z[k]}: index {i} weight {a} refers to a level that does not exist"
        if z[k] in lv and (lv[i] != z[k] or a != 0 or i < 0):
            return f"depth {z[k]} is exactly on a level of {lv.tolist()} but got index {i} weight {a}"
        rec = lv[0] if i == -1 else lv[M - 1] if i == M - 1 else lv[i] + (lv[i + 1] - lv[i]) * a
        c = min(max(z[k], lo), hi)
        if abs(rec - c) > 1e-9 * max(1, abs(hi)):
            return f"depth {z[k]} levels {lv.tolist()}: index {i} weight {a} stands for depth {rec}, expected {c}"
    return None


def oracle_nc(case):
    """levels read from a file: the shallowest level becomes the surface (0), the rest is unchanged"""
    import numpy as np
    import netCDF4 as nc
    from gridded.depth import L_Depth, Depth
    lv = np.array(case["levels"], dtype=float)
    ds = nc.Dataset("inmem_c03.nc", "w", diskless=True, persist=False)
    try:
        ds.createDimension("depth", len(lv))
        v = ds.createVariable(case["name"], "f8", ("depth",))
        v.units = "m"
        v[:] = lv
        D = Depth.from_netCDF(dataset=ds) if case["factory"] else L_Depth.from_netCDF(dataset=ds)
        if type(D) is not L_Depth:
            return f"depth_levels file opened as {type(D).__name__}"
        exp = lv.copy()
        exp[np.argmin(lv)] = 0
        if not np.allclose(np.asarray(D.depth_levels), exp):
            return f"levels {np.asarray(D.depth_levels)} expected {exp}"
        z = [0.0, exp.max() * .4, exp.max() * .9]
        idx, al = D.interpolation_alphas(np.column_stack([z, z, z]), None, (len(lv),))
        for k, zz in enumerate(z):
            i, a = int(idx[k]), float(al[k])
            rec = exp[i] + (exp[i + 1] - exp[i]) * a if 0 <= i < len(exp) - 1 else exp[i] if a == 0 else exp[i + 1]
            if abs(rec - zz) > 1e-6:
                return f"depth {zz}: index {i} weight {a} stands for {rec}"
    finally:
        ds.close()
    return None


def bounded(B):
    from . import common
    rng = B.rng
    for c in range(B.n(600, 6000)):
        M = rng.choice([1, 2, 2, 3, 4, 6, 12])
        x, lv = rng.choice([0.0, 0.0, 0.5, 2.0, -1.0]), []
        for _ in range(M):
            lv.append(x)
            x += rng.choice([0.25, 1, 2, 7, 30]) * (1 + rng.randint(0, 3))
        if rng.random() < .5:
            lv = lv[::-1]
        lo, hi = min(lv), max(lv)
        z = [lo, hi, lo - .5, hi + .5, lo - 100, hi + 1000, rng.choice(lv), rng.choice(lv)]
        z += [rng.uniform(lo, hi) for _ in range(rng.randint(0, 5))]
        rng.shuffle(z)
        if rng.random() < .2:
            z = z[:rng.randint(1, 2)]
        B.case("levels", oracle, dict(levels=lv, z=z, sbc=rng.choice(["mask", "extrapolate"]),
                                      bbc=rng.choice(["mask", "extrapolate"]), defaults=rng.random() < .5,
                                      aslist=rng.random() < .2, warm=rng.choice(common.WARM),
                                      shape=rng.choice([None, (M,), (M,), (M, 4, 5), (1,), (1, 3)])), nontrivial=M > 1)
    for c in range(B.n(20, 100)):
        lv = sorted(rng.sample(range(1, 200), rng.randint(2, 6)))
        if rng.random() < .5:
            lv = lv[::-1]
        B.case("from_netCDF", oracle_nc, dict(levels=lv, name=rng.choice(["depth", "depth_levels", "Depth"]),
                                              factory=rng.random() < .5))


def _case(M, cx, sbc, bbc, defaults):
    g = cx.ghost
    lv = M.array(g["L"])
    z = [M.val(g["P"](z3.IntVal(i), z3.IntVal(2))) for i in range(M.val(g["n"]))]
    d = lv[1:] - lv[:-1]
    if not ((d > 0).all() or (d < 0).all()):
        raise ValueError("counter-model levels not monotonic outside the named indices")
    case = dict(levels=lv.tolist(), z=z, sbc=sbc, bbc=bbc, defaults=defaults, shape=None)
    return run_case(oracle, case)


def contract_alphas(V):
    """L_Depth.interpolation_alphas for any number of points and levels, ascending or descending, all boundary
    conditions: bracketing pair reproduces the (clamped) depth exactly, weight in [0,1], masks exactly as requested"""
    from pyvc.arr import SMa, ascending, descending, sym_array
    from pyvc.core import And, Not, Or, zi
    from pyvc.verify import dim, implies
    V.functions = ["L_Depth.interpolation_alphas", "L_Depth.num_levels"]
    Dm = V.mod("gridded.depth")
    for up in (True, False):
        for sbc in ("mask", "extrapolate"):
            for bbc in ("mask", "extrapolate"):
                for defaults in (False, True):
                    def run(cx):
                        n, m = dim("n", 1), dim("M", 2)
                        L = sym_array("L", (m,), "f", axioms=[ascending() if up else descending()])
                        P = sym_array("P", (n, 3), "f")
                        cx.ghost.update(n=n, m=m, L=L, Parr=P, P=P.F, rP=P.reader(), rL=L.reader())
                        D = Dm.L_Depth.__new__(Dm.L_Depth)
                        D.depth_levels = L
                        o = "mask" if sbc == "extrapolate" else "extrapolate"
                        o2 = "mask" if bbc == "extrapolate" else "extrapolate"
                        D.default_surface_boundary_condition = sbc if defaults else o
                        D.default_bottom_boundary_condition = bbc if defaults else o2
                        kw = {} if defaults else dict(surface_boundary_condition=sbc, bottom_boundary_condition=bbc)
                        return D.interpolation_alphas(P, None, (cx_m(m),), **kw)

                    def cx_m(m):
                        from pyvc.core import Sym
                        return Sym("i", m)

                    def post(V, p):
                        cx = p.ctx
                        g = cx.ghost
                        tag = f"alphas[{'asc' if up else 'desc'},sbc={sbc},bbc={bbc},defaults={defaults}]"
                        if p.outcome == "raise":
                            V.prove(f"{tag}: no exception", False)
                            return
                        idx, al = p.value
                        n, m, L = g["n"], g["m"], g["rL"]
                        k = cx.fresh_index(n, "k").e
                        V.prove(f"{tag}: one result per point",
                                And(len(idx.sshape) == 1, len(al.sshape) == 1, zi(idx.sshape[0]) == n,
                                    zi(al.sshape[0]) == n))
                        z = g["rP"]((k, 2)).e
                        lo, hi = (L((0,)).e, L((m - 1,)).e) if up else (L((m - 1,)).e, L((0,)).e)
                        i, a = idx.at(k).e, al.at(k)
                        im, am = idx.mat(k), al.mat(k)
                        above, below = (z < lo, z >= hi) if up else (z <= lo, z > hi)
                        V.prove(f"{tag}: index and weight masked together", im == am)
                        must = Or(And(above, sbc == "mask"), And(below, bbc == "mask"))
                        V.prove(f"{tag}: out-of-range points masked when asked", implies(must, im))
                        V.prove(f"{tag}: nothing else masked", implies(im, must))
                        ok = Not(im)
                        V.prove(f"{tag}: weight in [0,1]", implies(ok, And(Not(a.nan) if a.nan is not None else True,
                                                                          a.e >= 0, a.e <= 1)))
                        V.prove(f"{tag}: index in range", implies(ok, And(i >= -1, i <= m - 1)))
                        V.prove(f"{tag}: no weight on a level that does not exist",
                                implies(ok, And(implies(i == -1, a.e == 1), implies(i == m - 1, a.e == 0))))
                        c = z3.If(z < lo, lo, z3.If(z > hi, hi, z))
                        j = cx.fresh("lev", "i").e
                        cx.fact(j == i)
                        l0, l1 = L((j,)).e, L((j + 1,)).e
                        V.prove(f"{tag}: bracket reproduces the depth",
                                implies(And(ok, i >= 0, i < m - 1), l0 + (l1 - l0) * a.e == c))
                        V.prove(f"{tag}: first/last level beyond the ends",
                                implies(ok, And(implies(i == -1, c == L((0,)).e),
                                                implies(i == m - 1, c == L((m - 1,)).e))))
                        jl = cx.fresh_index(m, "onlev").e
                        V.prove(f"{tag}: a depth exactly on a level gets that level with weight 0",
                                implies(And(ok, L((jl,)).e == z), And(i == jl, a.e == 0)))
                        V.prove(f"{tag}: points and levels unchanged",
                                And(g["Parr"].at(k, 2).e == z, g["L"].at(0).e == L((0,)).e))
                        V.cover(f"{tag}: inside", And(z > lo, z < hi, ok))
                        V.cover(f"{tag}: above", above)
                        V.cover(f"{tag}: below", below)
                    V.verify(run, post, lambda M, cx: _case(M, cx, sbc, bbc, defaults))


def contract_surface_only(V):
    """surface-only data (first data dimension 1, or a single level): surface index with weight 0, nothing masked"""
    from pyvc.arr import ascending, descending, sym_array
    from pyvc.core import And, Not, Sym, zi
    from pyvc.verify import dim, implies
    V.functions = ["DepthBase.interpolation_alphas", "L_Depth.interpolation_alphas", "L_Depth.surface_index",
                   "L_Depth.bottom_index"]
    Dm = V.mod("gridded.depth")
    for mode in ("asc", "desc", "single"):
        def run(cx):
            n = dim("n", 1)
            m = 1 if mode == "single" else dim("M", 2)
            L = sym_array("L", (m,), "f", axioms=[descending() if mode == "desc" else ascending()])
            P = sym_array("P", (n, 3), "f")
            D = Dm.L_Depth.__new__(Dm.L_Depth)
            D.depth_levels = L
            D.default_surface_boundary_condition = D.default_bottom_boundary_condition = "mask"
            cx.ghost.update(n=n, m=m, L=L)
            bi = D.bottom_index
            return D.interpolation_alphas(P, None, None if mode == "single" else (1,)), bi

        def post(V, p):
            if p.outcome == "raise":
                V.prove(f"surface[{mode}]: no exception", False)
                return
            (idx, al), bi = p.value
            g = p.ctx.ghost
            k = p.ctx.fresh_index(g["n"], "k").e
            want = zi(g["m"]) - 1 if mode == "desc" else z3.IntVal(0)
            V.prove(f"surface[{mode}]: surface index", And(idx.at(k).e == want, Not(idx.mat(k))))
            V.prove(f"surface[{mode}]: bottom index",
                    zi(bi) == (z3.IntVal(0) if mode == "desc" else zi(g["m"]) - 1))
            V.prove(f"surface[{mode}]: weight 0", And(al.at(k).e == 0, Not(al.mat(k)),
                                                     Not(al.at(k).nan) if al.at(k).nan is not None else True))
            V.prove(f"surface[{mode}]: one per point", And(zi(idx.sshape[0]) == g["n"], zi(al.sshape[0]) == g["n"]))
        V.verify(run, post)


CONTRACTS = [contract_alphas, contract_surface_only]
