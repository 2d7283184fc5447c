"""C08: interpolation on unstructured (triangular) grids."""
import z3

from pyvc.verify import run_case

ID = "C08"
BOUNDED_FUNCTIONS = ["UGrid.interpolate_var_to_points with the real cell tree", "Variable.at on Grid_U"]


class _Tree:
    def __init__(self, idx):
        self.idx = idx

    def locate(self, pts):
        assert len(pts) == len(self.idx)
        return self.idx.copy()


def oracle_unit(case):
    """real UGrid code on any triangles, the face of each point given by a table"""
    import numpy as np
    from gridded.pyugrid.ugrid import UGrid
    nodes, faces, inds = np.array(case["nodes"], float), np.array(case["faces"]), np.array(case["inds"])
    g = UGrid(nodes=nodes, faces=faces)
    g._cell_tree = _Tree(inds)
    P, v = np.array(case["P"], float), np.array(case["v"], float)
    what = case["what"]
    if what == "alphas":
        r = g.interpolation_alphas(P, None if case["locate"] else inds)
        if r.shape != (len(P), 3):
            return f"weights have shape {r.shape}"
    else:
        kw = {} if case["slices"] is None else dict(slices=case["slices"])
        vv = v if case["slices"] is None else v[case["slices"][0]] if len(case["slices"]) else v
        r = g.interpolate_var_to_points(P, v, location=case["location"], **kw)
        if r.shape != (len(P),) + vv.shape[1:]:
            return f"{len(P)} points, result shape {r.shape}"
    for k, i in enumerate(inds):
        if i == -1:
            if np.any(r[k] != 0):
                return f"point {k} is off the grid but gets {r[k]}"
            continue
        if what == "face":
            e = vv[i]
        else:
            tri = nodes[faces[i]]
            T = np.vstack([tri.T, np.ones(3)])
            if abs(np.linalg.det(T)) < 1e-9 * max(1, np.abs(tri).max()) ** 2:
                continue
            w = np.linalg.solve(T, [P[k][0], P[k][1], 1.0])
            e = w if what == "alphas" else np.tensordot(w, vv[faces[i]], axes=(0, 0))
        sc = max(1.0, np.abs(e).max(), np.abs(v).max())
        if not np.all(np.abs(r[k] - e) <= 1e-7 * sc):
            return f"point {k} {P[k].tolist()} in triangle {nodes[faces[i]].tolist()}: {np.array(r[k]).tolist()}, expected {np.array(e).tolist()}"
    return None


def oracle(case):
    import random
    import numpy as np
    from gridded.grids import Grid_U
    from gridded.pyugrid.ugrid import UGrid
    from gridded.variable import Variable
    from . import common
    rng = random.Random(case["seed"])
    nodes, faces, rect = common.tri_mesh(rng, case["nx"], case["ny"], rot=case["rot"], shear=case["shear"], scale=case["scale"],
                                         off=case["offset"])
    n0, f0 = nodes.copy(), faces.copy()
    nf = {"arr": lambda: (nodes, faces), "list": lambda: (nodes.tolist(), faces.tolist()),
          "one": lambda: (nodes, faces + 1), "f64": lambda: (nodes, faces.astype(np.int64))}[case["build"]]
    cls = Grid_U if case["cls"] else UGrid
    g = cls(nodes=nf()[0], faces=nf()[1])
    n = case["n"]
    off = np.array([rng.random() < case["poff"] for _ in range(n)], dtype=bool)
    P = np.where(off[:, None], common.outside(rng, rect, n), common.inside(rng, rect, n))
    if case["dup"] and n > 2:
        P[1], off[1] = P[n - 1], off[n - 1]
    # which face contains each point, by brute force
    tri = n0[f0]
    face = np.full(n, -1)
    W = np.zeros((n, 3))
    for k in range(n):
        for f in range(len(tri)):
            w = common.bary(tri[f], P[k])
            if w.min() >= -1e-12:
                face[k], W[k] = f, w
                break
    if not ((face == -1) == off).all():
        return None            # too close to an outline for the test to be decisive
    near = np.array([face[k] >= 0 and W[k].min() < 1e-9 for k in range(n)])
    L = case["lead"]
    size = len(n0) if case["loc"] == "node" else len(f0)
    if size == len(f0) and case["loc"] == "node" and len(n0) == len(f0):
        pass
    kind = case["field"]
    data = np.array([rng.uniform(-50, 50) for _ in range(int(np.prod(L)) * size)]).reshape(*L, size)
    if kind == "int":
        data = np.round(data).astype(case["dtype"] if case["dtype"].startswith("int") else "int64")
    elif kind == "affine" and case["loc"] == "node":
        data[...] = 3 - .5 * n0[:, 0] + .25 * n0[:, 1]
    data = data.astype(case["dtype"]) if kind != "int" else data
    if kind == "nanlast" and case["loc"] == "node":
        data = data.astype(float)
        used = set(f0[face[face >= 0]].ravel().tolist())
        for q in range(size):
            if q not in used:
                data[..., q] = np.nan
    sl = tuple(rng.randrange(q) for q in L)
    d0 = data.copy()
    flat = d0[sl].astype(float)
    arg = data
    if case["ma"]:
        arg = np.ma.MaskedArray(data)
    tail = case["tail"] and case["loc"] == "node" and not L
    if tail:
        arg = np.stack([arg, arg * 2 + 1, -arg], axis=1)
    kw = {}
    if L:
        kw["slices"] = list(sl) if case["listsl"] and len(sl) == 1 else sl
    if case["giveloc"] or len(n0) == len(f0):
        kw["location"] = case["loc"]
    pts = P.tolist() if case["plist"] else P.copy()
    ref = P.copy()
    for q in common.earlier(case["warm"], P):
        g.interpolate_var_to_points(q, arg, **dict(kw, location="node") if tail else kw)
    if rng.random() < .4:         # other data on the same grid, same points: same place, then the other place
        o = d0.astype(float) * 2 + 1
        if o.size > 2:
            o.flat[0], o.flat[-1] = d0.flat[0], d0.flat[-1]
        g.interpolate_var_to_points(P.copy(), o, **dict({k: v for k, v in kw.items() if k == "slices"}, location=case["loc"]))
        if rng.random() < .5:
            other = "face" if case["loc"] == "node" else "node"
            g.interpolate_var_to_points(P.copy(), np.arange(float(len(f0) if other == "face" else len(n0))), location=other)
    for rep in range(2 if case["twice"] else 1):
        if tail:
            kw["location"] = "node"
        r = g.interpolate_var_to_points(pts, arg, **kw)
        if not np.array_equal(np.array(pts), ref):
            return "the query changed its points"
        if not np.array_equal(np.array(data), d0, equal_nan=data.dtype.kind == "f"):
            return "the query changed the data"
        e_shape = (n, 3) if tail else (n,)
        if r.shape != e_shape:
            return f"{n} points but result shape {r.shape}"
        r = np.asarray(r, dtype=float)
        for k in range(n):
            if face[k] < 0:
                if np.any(r[k] != 0):
                    return f"point {k} {P[k].tolist()} is off the grid but gets {r[k]}"
                continue
            if case["loc"] == "face":
                if near[k]:
                    continue
                e = flat[face[k]]
            else:
                e = float(W[k] @ flat[f0[face[k]]])
                if tail:
                    e = np.array([e, 2 * e + 1, -e])
            tol = 1e-6 if case["dtype"] in ("float64",) or kind == "int" else 1e-4
            if not np.all(np.abs(r[k] - e) <= tol * max(1.0, np.abs(flat[np.isfinite(flat)]).max())):
                return f"point {k} {P[k].tolist()}: value {r[k]}, expected {e} (face {face[k]}, weights {W[k].tolist()})"
    # a single record Variable gives the same numbers
    if not tail and not L and kind == "float" and case["dtype"] == "float64":
        v = Variable(name="q", data=d0.copy(), grid=g if case["cls"] else Grid_U(nodes=n0, faces=f0), location=case["loc"])
        rv = np.asarray(v.at(P, None)).reshape(-1)
        if np.abs(rv - np.asarray(r, float)).max() > 1e-9 * 50:
            return f"Variable.at gives {rv.tolist()}, the grid {r.tolist()}"
    return None


def oracle_tree(case):
    """every point of the mesh is located, in a face that contains it"""
    import random
    from gridded.pyugrid.ugrid import UGrid
    from . import common
    rng = random.Random(case["seed"])
    nx, ny = rng.randint(3, 12), rng.randint(3, 12)
    n, f, rect = common.tri_mesh(rng, nx, ny, rot=rng.uniform(-3, 3), shear=rng.choice([0, .5]), scale=20, off=(-120, 45))
    P = common.inside(rng, rect, 400)
    r = UGrid(nodes=n, faces=f).locate_faces(P)
    for k in range(len(P)):
        if r[k] < 0:
            return f"mesh {case['seed']}: point {P[k].tolist()} inside the mesh is not located"
        if not common.in_convex(n[f[r[k]]], P[k], 1e-6):
            return f"mesh {case['seed']}: point {P[k].tolist()} located in face {n[f[r[k]]].tolist()}"
    return None


def bounded(B):
    from . import common
    rng = B.rng
    for seed in [60, 377, 543, 1142, 1621, 2151] + [rng.getrandbits(20) for _ in range(B.n(10, 200))]:
        B.case("tree", oracle_tree, dict(seed=seed))
    for c in range(B.n(150, 1500)):
        nn, nf, n = rng.randint(3, 7), rng.randint(1, 6), rng.choice([1, 2, 4, 9])
        faces = [rng.sample(range(nn), 3) for _ in range(nf)]
        what = rng.choice(["alphas", "node", "face"])
        size = nf if what == "face" else nn
        sl = rng.choice([None, (), (1,), [0]])
        v = [rng.uniform(-9, 9) for _ in range(size)] if not sl else [[rng.uniform(-9, 9) for _ in range(size)] for _ in range(2)]
        if what == "node" and not sl and rng.random() < .3:
            v = [[rng.uniform(-9, 9) for _ in range(4)] for _ in range(size)]
        B.case("unit", oracle_unit, dict(
            nodes=[[rng.uniform(-9, 9), rng.uniform(-9, 9)] for _ in range(nn)], faces=faces, v=v, what=what,
            inds=[rng.randrange(-1, nf) for _ in range(n)], P=[[rng.uniform(-9, 9), rng.uniform(-9, 9)] for _ in range(n)],
            location="face" if what == "face" else "node", slices=sl, locate=rng.random() < .5), nontrivial=n > 1)
    for c in range(B.n(260, 2600)):
        B.case("full", oracle, dict(
            seed=rng.getrandbits(32), nx=rng.randint(2, 6), ny=rng.randint(2, 5), rot=rng.choice([0, .3, 1.7, 3.1, -2]),
            shear=rng.choice([0, .4, -.7]), scale=rng.choice([1, .01, 20, -1]), offset=rng.choice([(0., 0.), (-120., 45.), (1e4, 5.)]),
            n=rng.choice([1, 1, 2, 3, 8, 40, 300]), poff=rng.choice([0, .3, 1]), dup=rng.random() < .3,
            lead=rng.choice([(), (), (2,), (3, 2)]), loc=rng.choice(["node", "node", "face"]),
            field=rng.choice(["float", "float", "affine", "int", "nanlast"]), dtype=rng.choice(["float64", "float64", "float32", "int32"])
            if rng.random() < .5 else "float64", ma=rng.random() < .3, tail=rng.random() < .2, listsl=rng.random() < .5,
            giveloc=rng.random() < .7, plist=rng.random() < .3, twice=rng.random() < .4, warm=rng.choice(common.WARM), cls=rng.random() < .5,
            build=rng.choice(["arr", "arr", "list", "one", "f64"])))


# ------------------------------------------------------------------------------------------------ contracts
def _mesh(V, cx):
    """a UGrid with any nodes and any triangles; the cell tree by contract: face of (x, y) is L(x, y), -1 off the grid, the
    triangle of a located point is not degenerate and contains it"""
    import types
    from pyvc.arr import new, sym_array
    from pyvc.core import Sym, Unsupported, zi
    from pyvc.verify import dim
    Nn, Nf, n = dim("Nn", 3), dim("Nf", 1), dim("n", 1)
    nodes = sym_array("nodes", (Nn, 2), "f")

    def rng(raw, i):
        return z3.And(raw(i).e >= 0, raw(i).e < Nn)
    faces = sym_array("faces", (Nf, 3), "i", axioms=[(1, rng)])
    P = sym_array("P", (n, 2), "f")
    L = z3.Function("L", z3.RealSort(), z3.RealSort(), z3.IntSort())

    class CellTree:
        def __init__(self, verts, faces, *a, **k):
            cx.ghost.setdefault("trees", []).append((verts, faces))

        def locate(self, points):
            rp = points.reader()

            def f(i):
                e = L(rp((i[0], 0)).e, rp((i[0], 1)).e)
                cx.fact(z3.And(e >= -1, e < Nf))
                return Sym("i", e)
            return new((points.sshape[0],), "i", f)
    Um = V.mod("gridded.pyugrid.ugrid")
    g = Um.UGrid.__new__(Um.UGrid)
    g._nodes, g._faces, g._edges, g._boundaries = nodes, faces, None, None
    g._face_face_connectivity = g._face_edge_connectivity = None
    g._clear_search_structures()
    cx.ghost.update(CellTree=CellTree, Nn=Nn, Nf=Nf, n=n, nodes=nodes, faces=faces, P=P, L=L)
    return g


def _tree_args(V, cx, tag):
    """the search tree was built over the grid's own nodes and faces"""
    from pyvc.core import And, zi
    g = cx.ghost
    for nd, fc in g.get("trees", []):
        i, j, c = cx.fresh_index(g["Nn"], "ti").e, cx.fresh_index(g["Nf"], "tj").e, cx.fresh_index(3, "tc").e
        V.prove(f"{tag}: search tree built over the grid's nodes and faces",
                And(zi(nd.sshape[0]) == g["Nn"], zi(fc.sshape[0]) == g["Nf"], zi(fc.sshape[1]) == 3,
                    *[nd.at(i, q).e == g["nodes"].F(i, z3.IntVal(q)) for q in (0, 1)], fc.at(j, c).e == g["faces"].F(j, c)))


def _corners(cx, k):
    g = cx.ghost
    x, y = g["P"].reader()((k, 0)).e, g["P"].reader()((k, 1)).e
    f = g["L"](x, y)
    rf, rn = g["faces"].reader(), g["nodes"].reader()
    nd = [rf((f, z3.IntVal(q))).e for q in range(3)]
    c = [(rn((m, z3.IntVal(0))).e, rn((m, z3.IntVal(1))).e) for m in nd]
    den = (c[2][1] - c[0][1]) * (c[1][0] - c[0][0]) - (c[2][0] - c[0][0]) * (c[1][1] - c[0][1])
    w1, w2 = z3.Reals("w1 w2")
    W = [1 - w1 - w2, w1, w2]
    sub = [(x, sum(w * q[0] for w, q in zip(W, c))), (y, sum(w * q[1] for w, q in zip(W, c)))]
    cx.saturate()
    return f, nd, W, den, sub


def _replay(what, sl, tail=0):
    def replay(M, cx):
        g = cx.ghost
        Nn, Nf, n = (M.val(g[q]) for q in ("Nn", "Nf", "n"))
        if max(Nn, Nf, n) > 40:
            raise ValueError("counter-model too large")
        nodes, faces, P = M.array(g["nodes"]), M.array(g["faces"]), M.array(g["P"])
        faces = [[int(q) if 0 <= q < Nn else 0 for q in f] for f in faces]
        inds = [int(M.val(g["L"](g["P"].reader()((z3.IntVal(k), z3.IntVal(0))).e,
                                 g["P"].reader()((z3.IntVal(k), z3.IntVal(1))).e))) for k in range(n)]
        inds = [i if -1 <= i < Nf else -1 for i in inds]
        v = M.array(g["v"]).tolist() if "v" in g else []
        S = None
        if sl == "t":
            S = (int(M.val(g["t"])),)
        elif sl == "()":
            S = ()
        case = dict(nodes=nodes.tolist(), faces=faces, P=P.tolist(), inds=inds, v=v, what=what, slices=S,
                    location="face" if what == "face" else "node", locate=True)
        return run_case(oracle_unit, case)
    return replay


def contract_alphas(V):
    """interpolation_alphas: zero off the grid; otherwise the barycentric coordinates of the point in its own triangle --
    the only weights that sum to one and reproduce the point -- hence in [0, 1] inside the triangle; a second (cached) call
    gives the same"""
    from pyvc.core import And, Not, zi
    from pyvc.verify import implies
    V.functions = ["UGrid.interpolation_alphas", "UGrid.locate_faces", "UGrid._get_memoed", "UGrid._add_memo"]
    V.assumes = ["cell_tree2d.CellTree.locate: index in [-1, faces), -1 off the mesh, otherwise a non-degenerate triangle "
                 "that contains the point; depends on the point only"]
    for given in (False, True):
        for twice in (False, True):
            def run(cx):
                g = _mesh(V, cx)
                P = cx.ghost["P"]
                ind = g.locate_faces(P) if given else None
                r = g.interpolation_alphas(P, ind)
                return g.interpolation_alphas(P, ind) if twice else r

            def post(V, p):
                cx, g = p.ctx, p.ctx.ghost
                tag = f"given={given},repeated={twice}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r = p.value
                _tree_args(V, cx, tag)
                V.prove(f"{tag}: three weights per point", And(len(r.sshape) == 2, zi(r.sshape[0]) == g["n"], zi(r.sshape[1]) == 3))
                k = cx.fresh_index(g["n"], "k").e
                f, nd, W, den, sub = _corners(cx, k)
                for q in range(3):
                    a = r.at(k, q)
                    ok = Not(a.nan) if a.nan is not None else z3.BoolVal(True)
                    V.prove(f"{tag}: zero weights off the grid", implies(f == -1, And(ok, a.e == 0)))
                    V.prove_false(f"{tag}: no NaN", a.nan, f >= 0, [den])
                    V.prove_eq(f"{tag}: weights are the barycentric coordinates", a, W[q], f >= 0, [den], sub)
                V.cover(f"{tag}: located point", f >= 0)
                V.cover(f"{tag}: point off the grid", f == -1)
            V.verify(run, post, _replay("alphas", None))


def contract_node(V):
    """interpolate_var_to_points, data on nodes: the barycentric combination of the three node values of the point's own
    triangle, zero off the grid; with or without record selection, extra trailing dimension, inferred location"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, Sym, zi
    from pyvc.verify import dim, implies
    V.functions = ["UGrid.interpolate_var_to_points", "UGrid.interpolation_alphas", "UGrid.locate_faces", "UGrid.infer_location"]
    V.assumes = ["cell tree contract as in alphas"]
    for sl in ("none", "()", "t", "tail"):
        def run(cx):
            g = _mesh(V, cx)
            P, Nn = cx.ghost["P"], cx.ghost["Nn"]
            kw = {}
            if sl == "t":
                T = dim("T", 1)
                v = sym_array("v", (T, Nn), "f")
                t = z3.Int("t")
                cx.fact(z3.And(t >= 0, t < T))
                cx.ghost["t"] = t
                kw["slices"] = (Sym("i", t),)
            elif sl == "tail":
                K = dim("K", 1)
                v = sym_array("v", (Nn, K), "f")
                cx.ghost["K"] = K
            else:
                v = sym_array("v", (Nn,), "f")
                if sl == "()":
                    kw["slices"] = ()
            cx.ghost["v"] = v
            return g.interpolate_var_to_points(P, v, location=None if sl == "none" else "node", **kw)

        def post(V, p):
            cx, g = p.ctx, p.ctx.ghost
            tag = f"node slices={sl}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r = p.value
            k = cx.fresh_index(g["n"], "k").e
            f, nd, W, den, sub = _corners(cx, k)
            rv = g["v"].reader()
            if sl == "tail":
                V.prove(f"{tag}: shape", And(len(r.sshape) == 2, zi(r.sshape[0]) == g["n"], zi(r.sshape[1]) == g["K"]))
                j = cx.fresh_index(g["K"], "j").e
                a = r.at(k, j)
                vals = [rv((m, j)).e for m in nd]
            else:
                V.prove(f"{tag}: one value per point", And(len(r.sshape) == 1, zi(r.sshape[0]) == g["n"]))
                a = r.at(k)
                vals = [rv((g["t"], m) if sl == "t" else (m,)).e for m in nd]
            ok = Not(a.nan) if a.nan is not None else z3.BoolVal(True)
            V.prove(f"{tag}: zero off the grid", implies(f == -1, And(ok, a.e == 0)))
            V.prove_false(f"{tag}: no NaN", a.nan, f >= 0, [den])
            V.prove_eq(f"{tag}: barycentric combination of the three node values", a,
                       sum(w * v for w, v in zip(W, vals)), f >= 0, [den], sub)
            V.cover(f"{tag}: located", f >= 0)
            V.cover(f"{tag}: off grid", f == -1)
        V.verify(run, post, _replay("node", sl))


def contract_face(V):
    """data on faces: the value of the face that contains the point, zero off the grid"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, Sym, zi
    from pyvc.verify import dim, implies
    V.functions = ["UGrid.interpolate_var_to_points"]
    V.assumes = ["cell tree contract as in alphas"]
    for sl in ("none", "()", "t"):
        def run(cx):
            g = _mesh(V, cx)
            P, Nf = cx.ghost["P"], cx.ghost["Nf"]
            kw = {}
            if sl == "t":
                T = dim("T", 1)
                v = sym_array("v", (T, Nf), "f")
                t = z3.Int("t")
                cx.fact(z3.And(t >= 0, t < T))
                cx.ghost["t"] = t
                kw["slices"] = (Sym("i", t),)
            else:
                v = sym_array("v", (Nf,), "f")
                if sl == "()":
                    kw["slices"] = ()
            cx.ghost["v"] = v
            return g.interpolate_var_to_points(P, v, location="face", **kw)

        def post(V, p):
            cx, g = p.ctx, p.ctx.ghost
            tag = f"face slices={sl}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r = p.value
            V.prove(f"{tag}: one value per point", And(len(r.sshape) == 1, zi(r.sshape[0]) == g["n"]))
            k = cx.fresh_index(g["n"], "k").e
            x, y = g["P"].reader()((k, 0)).e, g["P"].reader()((k, 1)).e
            f = g["L"](x, y)
            a = r.at(k)
            ok = Not(a.nan) if a.nan is not None else z3.BoolVal(True)
            V.prove(f"{tag}: zero off the grid", implies(f == -1, And(ok, a.e == 0)))
            e = g["v"].reader()((g["t"], f) if sl == "t" else (f,)).e
            V.prove(f"{tag}: value of the point's own face", implies(f >= 0, And(ok, a.e == e)))
            V.cover(f"{tag}: located", f >= 0)
            # frame: the data are left alone
            i = cx.fresh_index(g["Nf"], "i").e
            idx = (g["t"], i) if sl == "t" else (i,)
            V.prove(f"{tag}: data unchanged", g["v"].at(*idx).e == g["v"].F(*[zi(q) for q in idx]))
        V.verify(run, post, _replay("face", sl))


CONTRACTS = [contract_alphas, contract_node, contract_face]
