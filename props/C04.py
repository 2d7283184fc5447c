"""C04: terrain-following depth lookup brackets each point in its own water column."""
import z3

from pyvc.verify import run_case

ID = "C04"
BOUNDED_FUNCTIONS = ["ROMS_Depth / FVCOM_Depth with real profiles"]


class _Var:
    def __init__(self, vals, mask):
        self.vals, self.mask = vals, mask

    def at(self, points, time, unmask=False, _hash=None, **k):
        import numpy as np
        return np.ma.MaskedArray(np.array(self.vals, dtype=float).reshape(-1, 1),
                                 mask=np.array(self.mask, dtype=bool).reshape(-1, 1))


class _Grid:
    def __init__(self, sig):
        self.sig = sig

    def interpolate_var_to_points(self, points, var, location=None, **k):
        return self.sig


def make_depth(case):
    """a real ROMS_Depth / FVCOM_Depth whose profile at point k is the given column"""
    import numpy as np
    from gridded.depth import FVCOM_Depth, ROMS_Depth
    cols = np.array(case["cols"], dtype=float)
    n, M = cols.shape
    off = np.array(case["off"], dtype=bool)
    layers = case["layers"]
    cls = ROMS_Depth if case["kind"] == "roms" else FVCOM_Depth

    class D(cls):
        def get_depth_profile(self, points, time, data_shape=None, _hash=None, **k):
            if case.get("plain"):
                return cols[points[:, 0].astype(int)]
            ks = points[:, 0].astype(int)
            return np.ma.MaskedArray(cols[ks], mask=np.repeat(off[ks][:, None], M, axis=1))
    nl = M + 1 if layers else M
    if case["kind"] == "roms":
        terms = dict(s_w=np.linspace(-1, 0, nl), s_rho=np.linspace(-1, 0, nl)[1:] - .5 / nl)
    else:
        terms = dict(siglev=np.linspace(0, -1, nl)[:, None] * np.ones(3), siglay=np.linspace(0, -1, nl - 1)[:, None] * np.ones(3))
    ctor = {}
    if case.get("defaults"):
        ctor = dict(surface_boundary_condition=case["sbc"], bottom_boundary_condition=case["bbc"])
    return D(terms=terms, **ctor), cols, off


def oracle(case):
    import datetime as dt
    import numpy as np
    from .common import earlier
    D, cols, off = make_depth(case)
    n, M = cols.shape
    z = np.array(case["z"], dtype=float)
    pts = np.column_stack([np.arange(n) * 1.0, np.arange(n) * 2.0, z])
    p0 = pts.copy()
    sbc, bbc = case["sbc"], case["bbc"]
    kw = {} if case.get("defaults") else dict(surface_boundary_condition=sbc, bottom_boundary_condition=bbc)
    for q in earlier(case.get("warm"), pts):
        D.interpolation_alphas(q, dt.datetime(2000, 1, 1), (M, 5), **kw)
    idx, al = D.interpolation_alphas(pts, dt.datetime(2000, 1, 1), (M, 5), **kw)
    if not np.array_equal(pts, p0):
        return "query modified its points"
    im, am = np.ma.getmaskarray(idx), np.ma.getmaskarray(al)
    if idx.shape != (n,) or al.shape != (n,):
        return f"result shapes {idx.shape} {al.shape}"
    for k in range(n):
        c = cols[k]
        surf, bot = c.min(), c.max()
        above, below = z[k] < surf, z[k] >= bot
        want = off[k] or (above and sbc == "mask") or (below and bbc == "mask")
        d = f"point {k}: depth {z[k]} column {c.tolist()} off-grid={off[k]} sbc={sbc} bbc={bbc}"
        if im[k] != am[k]:
            return f"{d}: index mask {im[k]} weight mask {am[k]}"
        if im[k] != want:
            return f"{d}: masked={im[k]} expected {want}"
        if want:
            continue
        i, a = int(idx.data[k]), float(al.data[k])
        if not -1 <= i <= M - 1 or not 0 <= a <= 1:
            return f"{d}: index {i} weight {a} out of range"
        if i == -1 and a != 1 or i == M - 1 and a != 0:
            return f"{d}: index {i} weight {a} uses a level that does not exist"
        rec = c[0] if i == -1 else c[-1] if i == M - 1 else c[i] + (c[i + 1] - c[i]) * a
        tgt = min(max(z[k], surf), bot)
        if abs(rec - tgt) > 1e-9 * max(1, bot):
            return f"{d}: index {i} weight {a} stands for depth {rec}, expected {tgt}"
        if above and rec != surf or below and rec != bot:
            return f"{d}: out-of-range point not held at the boundary level"
    return None


def bounded(B):
    from . import common
    rng = B.rng
    for c in range(B.n(700, 7000)):
        kind = rng.choice(["roms", "fvcom"])
        M = rng.choice([2, 2, 3, 4, 7])
        n = rng.choice([1, 1, 2, 3, 6])
        cols, z = [], []
        for _ in range(n):
            x, col = rng.choice([0.0, 0.0, -1.5, 0.75]), []
            st = rng.choice([0.5, 3, 20])
            for _ in range(M):
                col.append(x)
                x += st * rng.randint(1, 4)
            z.append(rng.choice([col[0], col[-1], col[0] - .25, col[-1] + .25, -50, 5000, rng.choice(col),
                                 rng.uniform(col[0], col[-1]), rng.uniform(col[0], col[-1]),
                                 rng.uniform(col[0], col[-1])]))
            cols.append(col if kind == "fvcom" else col[::-1])
        off = [rng.random() < .25 for _ in range(n)] if rng.random() < .6 else [False] * n
        B.case("columns", oracle, dict(kind=kind, plain=not any(off) and rng.random() < .5, cols=cols, z=z, off=off, sbc=rng.choice(["mask", "extrapolate"]),
                                       bbc=rng.choice(["mask", "extrapolate"]), defaults=rng.random() < .5,
                                       layers=rng.random() < .35, warm=rng.choice(common.WARM)), nontrivial=n > 1)


def _stub(V, cx, Dm, kind, layers, sbc, bbc, defaults):
    from pyvc.arr import SMa, ascending, descending, new, sym_array
    from pyvc.core import Sym
    from pyvc.verify import dim
    n, m = dim("n", 1), dim("M", 2)
    nl = m + 1 if layers else m         # number of levels
    nlay = m if layers else m - 1

    def mono(raw, i, j):
        (a, x), (b, y) = i, j
        s = z3.And(a == b, x < y)
        return z3.Implies(s, raw((a, x)).e < raw((b, y)).e if kind == "fvcom" else raw((a, x)).e > raw((b, y)).e)
    C = sym_array("C", (n, m), "f", axioms=[(2, mono)])
    off = sym_array("off", (n,), "b")
    P = sym_array("P", (n, 3), "f")
    rC, roff = C.reader(), off.reader()
    prof = SMa(C, new((n, m), "b", lambda i: roff((i[0],))))
    cls = Dm.ROMS_Depth if kind == "roms" else Dm.FVCOM_Depth
    D = cls.__new__(cls)
    D.get_depth_profile = lambda *a, **k: prof
    if kind == "roms":
        D.s_w = sym_array("s_w", (nl,), "f", axioms=[ascending()])
        D.s_rho = sym_array("s_rho", (nlay,), "f", axioms=[ascending()])
    else:
        def col(raw, i, j):
            (a, x), (b, y) = i, j
            return z3.Implies(z3.And(a < b, x == y), raw((a, x)).e > raw((b, y)).e)
        nn = dim("nodes", 3)
        D.siglev = sym_array("siglev", (nl, nn), "f", axioms=[(2, col)])
        D.siglay = sym_array("siglay", (nlay, nn), "f", axioms=[(2, col)])
    o = {"mask": "extrapolate", "extrapolate": "mask"}
    D.default_surface_boundary_condition = sbc if defaults else o[sbc]
    D.default_bottom_boundary_condition = bbc if defaults else o[bbc]
    cx.ghost.update(n=n, m=m, C=C, rC=rC, roff=roff, rP=P.reader(), P=P, off=off, layers=layers)
    return D, P, m


def contract_alphas(V):
    """S_Depth.interpolation_alphas (ROMS and FVCOM orderings, level and layer data, all boundary conditions), any
    number of points and levels, each point with its own arbitrary strictly monotone column and off-grid flag"""
    from pyvc.core import And, Not, Or, Sym, zi
    from pyvc.verify import implies
    V.functions = ["S_Depth.interpolation_alphas", "S_Depth._apply_boundary_conditions", "ROMS_Depth.surface_index",
                   "ROMS_Depth.bottom_index", "FVCOM_Depth.surface_index", "FVCOM_Depth.bottom_index",
                   "ROMS_Depth.num_levels", "ROMS_Depth.num_layers", "FVCOM_Depth.num_levels", "FVCOM_Depth.num_layers"]
    V.assumes = ["get_depth_profile returns one strictly monotone column per point, masked exactly for off-grid points "
                 "(established by C05)"]
    Dm = V.mod("gridded.depth")
    for kind in V.kinds:
        for layers in V.layer_opts:
            for sbc in ("mask", "extrapolate"):
                for bbc in ("mask", "extrapolate"):
                    for defaults in ((False, True) if not layers else (False,)):
                        def run(cx):
                            D, P, m = _stub(V, cx, Dm, kind, layers, sbc, bbc, defaults)
                            kw = {} if defaults else dict(surface_boundary_condition=sbc, bottom_boundary_condition=bbc)
                            return D.interpolation_alphas(P, None, (Sym("i", m), 5), **kw)

                        def replay(M, cx):
                            import numpy as np
                            g = cx.ghost
                            cols = M.array(g["C"])
                            d = np.diff(cols, axis=1)
                            if not ((d > 0).all() if kind == "fvcom" else (d < 0).all()):
                                # repair columns at indices the solver left unconstrained
                                raise ValueError("columns not monotone outside the named indices")
                            case = dict(kind=kind, cols=cols.tolist(), off=M.array(g["off"]).tolist(), sbc=sbc, bbc=bbc,
                                        z=M.array(g["P"])[:, 2].tolist(), defaults=defaults, layers=layers)
                            return run_case(oracle, case)

                        def post(V, p):
                            cx = p.ctx
                            g = cx.ghost
                            tag = f"{kind},{'layers' if layers else 'levels'},sbc={sbc},bbc={bbc},defaults={defaults}"
                            if p.outcome == "raise":
                                V.prove(f"{tag}: no exception", False)
                                return
                            idx, al = p.value
                            n, m, C = g["n"], g["m"], g["rC"]
                            k = cx.fresh_index(n, "k").e
                            V.prove(f"{tag}: one result per point",
                                    And(len(idx.sshape) == 1, len(al.sshape) == 1, zi(idx.sshape[0]) == n,
                                        zi(al.sshape[0]) == n))
                            z = g["rP"]((k, 2)).e
                            first, last = C((k, 0)).e, C((k, m - 1)).e
                            surf, bot = (first, last) if kind == "fvcom" else (last, first)
                            above, below = z < surf, z >= bot
                            off = g["roff"]((k,)).e
                            i, a = idx.at(k).e, al.at(k)
                            im, am = idx.mat(k), al.mat(k)
                            V.prove(f"{tag}: index and weight masked together", im == am)
                            must = Or(off, And(above, sbc == "mask"), And(below, bbc == "mask"))
                            V.prove(f"{tag}: off-grid points always masked", implies(off, im))
                            V.prove(f"{tag}: masked exactly as requested", im == must)
                            ok = Not(im)
                            V.prove(f"{tag}: weight in [0,1]",
                                    implies(ok, And(Not(a.nan) if a.nan is not None else True, a.e >= 0, a.e <= 1)))
                            V.prove(f"{tag}: index in range", implies(ok, And(i >= -1, i <= m - 1)))
                            V.prove(f"{tag}: no weight on a level that does not exist",
                                    implies(ok, And(implies(i == -1, a.e == 1), implies(i == m - 1, a.e == 0))))
                            c = z3.If(above, surf, z3.If(below, bot, z))
                            j = cx.fresh("lev", "i").e
                            cx.fact(j == i)
                            l0, l1 = C((k, j)).e, C((k, j + 1)).e
                            V.prove(f"{tag}: bracket of the point's own column reproduces its depth",
                                    implies(And(ok, i >= 0, i < m - 1), l0 + (l1 - l0) * a.e == c))
                            V.prove(f"{tag}: held at the boundary level outside the column",
                                    implies(ok, And(implies(i == -1, c == first), implies(i == m - 1, c == last))))
                            V.cover(f"{tag}: inside", And(Not(above), Not(below), ok))
                            V.cover(f"{tag}: above", And(above, Not(off)))
                            V.cover(f"{tag}: below", And(below, Not(off)))
                            V.cover(f"{tag}: off-grid", off)
                        V.verify(run, post, replay)


def _mk(kind, layers):
    def contract(V):
        V.kinds, V.layer_opts = (kind,), (layers,)
        contract_alphas(V)
    contract.__name__ = f"contract_{kind}_{'layers' if layers else 'levels'}"
    contract.__doc__ = contract_alphas.__doc__
    return contract




def contract_wrong_shape(V):
    """data whose first dimension is neither the levels nor the layers is refused"""
    from pyvc.core import Sym
    from pyvc.verify import integer
    V.functions = ["S_Depth.interpolation_alphas"]
    Dm = V.mod("gridded.depth")
    for kind in ("roms", "fvcom"):
        def run(cx):
            D, P, m = _stub(V, cx, Dm, kind, False, "mask", "mask", True)
            q = integer("q")
            cx.fact(z3.And(q.e > 1, q.e != m, q.e != m - 1))
            return D.interpolation_alphas(P, None, (q, 5))

        def post(V, p):
            V.prove(f"{kind}: unfit data refused", p.outcome == "raise" and isinstance(p.value, ValueError))
        V.verify(run, post, want_return=False)


CONTRACTS = [_mk(k, l) for k in ('roms', 'fvcom') for l in (False, True)] + [contract_wrong_shape]
