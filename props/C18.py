"""C18: nearest points of a grid, and whether a point is in a polygon."""
import numpy as np
import z3

ID = "C18"
BOUNDED_FUNCTIONS = ["UGrid.locate_faces(method='simple')", "UGrid.locate_nodes / SGrid.locate_nearest / SGrid.nearest_var_to_points with the real k-d tree"]


# ------------------------------------------------------------------------------------------------ bounded companion
def oracle_tri(case):
    """point_in_tri and points_in_polys on one triangle and one point given by its barycentric coordinates"""
    from gridded.pysgrid.utils import points_in_polys
    from gridded.pyugrid.util import point_in_tri
    T, b = np.array(case["tri"], float), np.array(case["b"], float)
    p = b @ T
    got = bool(point_in_tri(T.copy(), p.copy()))
    if min(b) >= 0 and not got or min(b) < -1e-5 and got:
        return f"point {p.tolist()} (barycentric {b.tolist()}) of triangle {T.tolist()}: point_in_tri gives {got}"
    n = case["n"]
    P = np.vstack([p + 100.0 * k for k in range(n)])
    polys = np.array([T + 100.0 * k for k in range(n)])
    if case["masked"]:
        P, polys = np.ma.masked_less(P, -1e9), np.ma.masked_less(polys, -1e9)
    r = points_in_polys(P, polys[..., 0], polys[..., 1]) if case["split"] else points_in_polys(P, polys)
    if r.shape != (n,):
        return f"{n} points: result of shape {r.shape}"
    if min(b) > 1e-9 and not r.all() or min(b) < -1e-9 and r.any():
        return f"point {p.tolist()} (barycentric {b.tolist()}) of triangle {T.tolist()}: points_in_polys gives {r.tolist()}"
    return None


def oracle_quad(case):
    """points_in_polys on convex quadrilaterals, points by bilinear coordinates"""
    from gridded.pysgrid.utils import points_in_polys
    Q, l, m = np.array(case["quads"], float), np.array(case["l"]), np.array(case["m"])
    w = np.column_stack([(1 - l) * (1 - m), l * (1 - m), l * m, (1 - l) * m])
    P = np.einsum("nk,nkd->nd", w, Q)
    from . import common
    want = [common.in_convex(q, p, 0) for q, p in zip(Q, P)]
    near = [common.in_convex(q, p, 1e-9) and not common.in_convex(q, p, -1e-9) for q, p in zip(Q, P)]
    r = points_in_polys(P.copy(), Q.copy())
    for k in range(len(P)):
        if not near[k] and bool(r[k]) != want[k]:
            return f"point {P[k].tolist()}, polygon {Q[k].tolist()}: {bool(r[k])}"
    return None


def oracle_mesh(case):
    """nearest nodes and simple face search on a mesh"""
    import random
    from gridded.pyugrid.ugrid import UGrid
    from . import common
    rng = random.Random(case["seed"])
    nodes, faces, rect = common.tri_mesh(rng, case["nx"], case["ny"], rot=case["rot"], scale=case["scale"])
    g = UGrid(nodes=nodes.copy(), faces=faces.copy())
    P = np.vstack([common.inside(rng, rect, case["n"]), common.outside(rng, rect, 2)])
    if case["perm"]:
        P = P[::-1]
    given = P.tolist() if case["list"] else P.copy()
    r = np.asarray(g.locate_nodes(given))
    d = np.hypot(*(P[:, None] - nodes[None]).transpose(2, 0, 1))
    if r.shape != (len(P),):
        return f"nearest nodes of {len(P)} points have shape {r.shape}"
    if not np.allclose(d[np.arange(len(P)), r], d.min(axis=1), rtol=1e-12):
        return f"nearest nodes of {P.tolist()} are {r.tolist()}, expected {d.argmin(axis=1).tolist()}"
    r = np.asarray(g.locate_faces(given, method="simple", _memo=False))
    if r.shape != (len(P),):
        return f"faces of {len(P)} points have shape {r.shape}"
    for k, f in enumerate(r):
        W = np.array([common.bary(nodes[q], P[k]) for q in faces])
        inn = np.where(W.min(axis=1) >= 0)[0]
        if f == -1 and len(inn):
            return f"point {P[k].tolist()} is in face {inn[0]} but is not found"
        if f != -1 and W[f].min() < -1e-4:
            return f"point {P[k].tolist()} is not in face {f}"
    one = g.locate_faces(P[0].tolist(), method="simple", _memo=False)
    if np.ndim(one) or one != r[0]:
        return f"the face of the single point is {one} instead of {r[0]}"
    return None


def oracle_nearest(case):
    """nearest points of each location of a structured grid, and the values there"""
    import random
    from gridded.pysgrid.sgrid import SGrid
    from . import common
    rng = random.Random(case["seed"])
    ny, nx = case["ny"], case["nx"]
    lon, lat, rect = common.quads(rng, nx, ny, rot=case["rot"], scale=case["scale"])
    mid = lambda a, s: .25 * (a[:-1, :-1] + a[1:, :-1] + a[1:, 1:] + a[:-1, 1:]) if s == "center" else .5 * (a[:-1] + a[1:]) if s == "edge1" else .5 * (a[:, :-1] + a[:, 1:])
    C = {"node": (lon, lat), **{s: (mid(lon, s), mid(lat, s)) for s in ("center", "edge1", "edge2")}}
    if case["same"]:  # edges and centers with coordinates of the shape of the nodes
        for k, s in (("center", .5), ("edge1", .25), ("edge2", .75)):
            C[k] = lon + s * (lon[0, 1] - lon[0, 0]), lat + s * (lat[1, 0] - lat[0, 0])
    g = SGrid(**{f"{k}_{n}": a.copy() for k, v in C.items() for n, a in zip(("lon", "lat"), v)})
    P = np.vstack([common.inside(rng, rect, case["n"]), common.outside(rng, rect, 2)])
    for loc in case["locs"]:
        x, y = C[loc]
        r = np.asarray(g.locate_nearest(P.tolist() if case["list"] else P.copy(), loc))
        d = np.hypot(P[:, 0, None, None] - x, P[:, 1, None, None] - y)
        if r.shape != (len(P), 2):
            return f"{loc}: nearest points of {len(P)} points have shape {r.shape}"
        if not np.allclose(d[np.arange(len(P)), r[:, 0], r[:, 1]], d.reshape(len(P), -1).min(axis=1), rtol=1e-12):
            return f"{loc}: nearest points {r.tolist()}"
        if case["same"]:
            continue  # the location of data is ambiguous
        data = np.array([rng.uniform(-9, 9) for _ in range(x.size)]).reshape(x.shape)
        mk = np.zeros(x.shape, bool) if case["kind"] != "masked" else np.array([rng.random() < .3 for _ in range(x.size)]).reshape(x.shape)
        v = data.copy() if case["kind"] == "plain" else np.ma.array(data, mask=mk)
        kw = {}
        if case["lead"]:
            v = np.ma.stack([v * 0 - 1, v]) if case["kind"] != "plain" else np.stack([v * 0 - 1, v])
            kw["slices"] = (1,)
        q = P
        if loc != "node" and case["lead"]:
            kw["grid"] = loc
        out = g.nearest_var_to_points(q.copy(), v, **kw)
        if out.shape != (len(P), 1):
            return f"{loc}: values at {len(P)} points have shape {out.shape}"
        want = np.ma.array(data, mask=mk)[r[:, 0], r[:, 1]]
        if not np.array_equal(np.ma.getmaskarray(out)[:, 0], np.ma.getmaskarray(want)) or not np.ma.allclose(out[:, 0], want, rtol=1e-12, atol=0):
            return f"{loc}: nearest values {out.tolist()} instead of {want.tolist()}"
    return None


def bounded(B):
    rng = B.rng
    for c in range(B.n(500, 6000)):
        s = 10.0 ** rng.choice([-2, 0, 0, 2])
        T = [[rng.uniform(-1, 1) * s, rng.uniform(-1, 1) * s] for _ in range(3)] if rng.random() < .6 else [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(3)]
        A = np.array(T)
        L = [np.hypot(*(A[i] - A[j])) for i, j in ((0, 1), (1, 2), (0, 2))]
        if abs(np.linalg.det(np.c_[A, np.ones(3)])) < .05 * max(L) ** 2:
            continue
        k = rng.random()
        if k < .5:
            b = sorted([rng.random(), rng.random()])
            b = [b[0], b[1] - b[0], 1 - b[1]]
        else:
            b = [rng.choice([-3, -.5, -.01, -1e-4, .2, .5, 1, 1.01, 2]) for _ in range(2)]
            b.append(1 - sum(b))
        rng.shuffle(b)
        B.case("triangle", oracle_tri, dict(tri=T, b=b, n=rng.choice([1, 2, 5]), masked=rng.random() < .3, split=rng.random() < .3))
    for c in range(B.n(150, 2000)):
        n = rng.randint(1, 5)
        quads = []
        for _ in range(n):
            o = [rng.uniform(-9, 9), rng.uniform(-9, 9)]
            q = np.array([[0, 0], [1, 0], [1, 1], [0, 1]]) + [[rng.uniform(-.2, .2), rng.uniform(-.2, .2)] for _ in range(4)] if rng.random() < .7 else np.array([[0, 0], [2, 0], [2, 1], [0, 1.]])
            if rng.random() < .5:
                q = q[::-1]
            quads.append((q + o).tolist())
        at = lambda: rng.choice([rng.random(), rng.uniform(-1, 2), .5])
        B.case("quadrilaterals", oracle_quad, dict(quads=quads, l=[at() for _ in range(n)], m=[at() for _ in range(n)]))
    for c in range(B.n(60, 600)):
        B.case("mesh", oracle_mesh, dict(seed=rng.getrandbits(20), nx=rng.randint(2, 4) if c % 10 else 10, ny=rng.randint(2, 4) if c % 10 else 10, rot=rng.choice([0, .4, 2]), scale=rng.choice([.1, 1, 20]),
                                         n=rng.randint(1, 5), perm=rng.random() < .5, list=rng.random() < .5))
    for c in range(B.n(120, 1200)):
        locs = ["node", "center", "edge1", "edge2"]
        rng.shuffle(locs)
        B.case("nearest", oracle_nearest, dict(seed=rng.getrandbits(20), ny=rng.randint(3, 6), nx=rng.randint(3, 6), rot=rng.choice([0, .4, 2]), scale=rng.choice([.1, 1, 20]),
                                               n=rng.randint(1, 5), list=rng.random() < .5, locs=locs[:rng.randint(1, 4)], kind=rng.choice(["plain", "masked", "nomask"]),
                                               lead=rng.random() < .3, same=c % 6 == 5))


# ------------------------------------------------------------------------------------------------ contracts
def _area2(a, b, c):
    return (a[0] - c[0]) * (b[1] - c[1]) - (b[0] - c[0]) * (a[1] - c[1])


def contract_point_in_tri(V):
    """with the weights of the corners of which the point is a combination: True if none is negative, False if one is less than -1e-5;
    for either orientation of the triangle"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Or, zi
    from pyvc.verify import implies
    V.functions = ["point_in_tri", "_signed_area_tri"]
    V.assumes = ["precondition: the triangle has an area"]

    def run(cx):
        U = V.mod("gridded.pyugrid.util")
        T, p = sym_array("T", (3, 2), "f"), sym_array("p", (2,), "f")
        X = [[T.F(z3.IntVal(i), z3.IntVal(c)) for c in (0, 1)] for i in range(3)]
        P = [p.F(z3.IntVal(c)) for c in (0, 1)]
        A = _area2(*X)
        cx.add_pc(A != 0)
        cx.ghost.update(X=X, P=P, A=A, T=T, p=p, symbolic_small=True)
        return U.point_in_tri(T, p)

    def post(V, p):
        cx, q = p.ctx, p.ctx.ghost
        if p.outcome == "raise":
            V.prove("no exception", False)
            return
        X, P, A = q["X"], q["P"], q["A"]
        S = [_area2(P, X[1], X[2]), _area2(X[0], P, X[2]), _area2(X[0], X[1], P)]
        r = p.value
        r = r.e if hasattr(r, "e") else z3.BoolVal(bool(r))
        V.prove("inside or on the outline", implies(Or(And(A > 0, *[s >= 0 for s in S]), And(A < 0, *[s <= 0 for s in S])), r))
        eps = z3.Q(1, 100000)
        V.prove("outside", implies(Or(And(A > 0, Or(*[s < -eps * A for s in S])), And(A < 0, Or(*[s > -eps * A for s in S]))), z3.Not(r)))
        V.prove("arguments unchanged", And(*[q["T"].at(i, c).e == X[i][c] for i in range(3) for c in (0, 1)], *[q["p"].at(c).e == P[c] for c in (0, 1)]))
        V.cover("inside" if z3.is_true(r) else "outside")
    V.verify(run, post, None)


def lemmas(V):
    """what the parity means: an edge is crossed to the right of the point exactly if the point is on its left (upward edge) or right (downward);
    in a triangle it is odd for every point strictly inside and even for every point strictly outside"""
    from pyvc.core import And, Not, Or
    from pyvc.verify import implies
    ax, ay, bx, by, x, y = z3.Reals("ax ay bx by x y")
    side = lambda a, b: (b[0] - x) * (a[1] - b[1]) + (a[0] - b[0]) * (y - b[1])
    crossed = lambda a, b: And((b[1] > y) != (a[1] > y), z3.If(a[1] > b[1], side(a, b) > 0, side(a, b) < 0))
    div = And((by > y) != (ay > y), x < (ax - bx) * (y - by) / (ay - by) + bx)

    def run(cx):
        return None

    def post(V, p):
        V.prove_lin("lemma: crossing of an edge", div == crossed((ax, ay), (bx, by)))
        X = [z3.Reals(f"x{i} y{i}") for i in range(3)]
        odd = z3.Xor(z3.Xor(crossed(X[2], X[0]), crossed(X[0], X[1])), crossed(X[1], X[2]))
        S = [_area2((x, y), X[1], X[2]), _area2(X[0], (x, y), X[2]), _area2(X[0], X[1], (x, y))]
        A = _area2(*X)
        for sg in (1, -1):
            V.prove_lin(f"lemma: inside, orientation {sg}", implies(And(*[sg * s > 0 for s in S]), odd))
            for i in range(3):
                V.prove_lin(f"lemma: outside of side {i}, orientation {sg}", implies(And(sg * A > 0, sg * S[i] < 0), Not(odd)))
    V.verify(run, post, None)


def contract_polys(V):
    """any number of points and polygons; triangles: True strictly inside, False strictly outside; every polygon: the parity of the crossings
    of the ray to the right of the point, of its own polygon and of nothing else"""
    from pyvc.arr import SMa, sym_array
    from pyvc.core import And, Or, zi
    from pyvc.verify import dim, implies
    V.functions = ["points_in_polys"]
    lemmas(V)
    for M in (3, 4, 5):
        for how in ("pairs", "separate", "masked"):
            def run(cx):
                U = V.mod("gridded.pysgrid.utils")
                n = dim("n", 1)
                P, Q = sym_array("P", (n, 2), "f"), sym_array("Q", (n, M, 2), "f")
                cx.ghost.update(P=P, Q=Q, n=n)
                if how == "separate":
                    return U.points_in_polys(P, Q[:, :, 0].copy(), Q[:, :, 1].copy())
                if how == "masked":
                    pm, qm = sym_array("pm", (n, 2), "b"), sym_array("qm", (n, M, 2), "b")
                    cx.ghost["masked"] = lambda k: Or(*[pm.F(k, z3.IntVal(c)) for c in (0, 1)], *[qm.F(k, z3.IntVal(i), z3.IntVal(c)) for i in range(M) for c in (0, 1)])
                    return U.points_in_polys(SMa(P, pm), SMa(Q, qm))
                return U.points_in_polys(P, Q)

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                tag = f"{M} corners, {how}"
                if p.outcome == "raise":
                    V.prove(f"{tag}: no exception", False)
                    return
                r = p.value
                V.prove(f"{tag}: one answer for each point", And(len(r.sshape) == 1, zi(r.sshape[0]) == zi(q["n"])))
                k = cx.fresh_index(q["n"], "k").e
                x, y = (q["P"].F(k, z3.IntVal(c)) for c in (0, 1))
                X = [[q["Q"].F(k, z3.IntVal(i), z3.IntVal(c)) for c in (0, 1)] for i in range(M)]
                want = z3.BoolVal(False)
                for i in range(M):
                    (ax, ay), (bx, by) = X[i - 1], X[i]
                    want = z3.Xor(want, And((by > y) != (ay > y), x < (ax - bx) * (y - by) / (ay - by) + bx))
                got = r.at(k).e
                on = z3.BoolVal(False)      # on the outline: no claim
                for i in range(M):
                    (ax, ay), (bx, by) = X[i - 1], X[i]
                    on = Or(on, And((bx - x) * (ay - by) + (ax - bx) * (y - by) == 0, (x - ax) * (x - bx) <= 0, (y - ay) * (y - by) <= 0))
                msk = q["masked"](k) if how == "masked" else z3.BoolVal(False)
                V.prove(f"{tag}: parity of the crossings", implies(z3.Not(Or(on, msk)), got == want))
                V.prove(f"{tag}: points unchanged", And(q["P"].at(k, 0).e == x, q["P"].at(k, 1).e == y))
                V.cover(f"{tag}: inside", got)
                V.cover(f"{tag}: outside", z3.Not(got))
            V.verify(run, post, None)


def _kdtree(cx):
    """the k-d tree: the row of the nearest point"""
    from pyvc.arr import new
    from pyvc.core import Sym, Unsupported, zi
    R = z3.RealSort()
    made = []

    class KDTree:
        def __init__(self, pts, leafsize=10, **kw):
            self.p, self.n = pts.copy(), zi(pts.sshape[0])
            self.L = z3.Function(f"NEAREST{len(made)}", R, R, z3.IntSort())
            made.append(self)

        def near(self, x, y):
            e = self.L(x, y)
            cx.fact(z3.And(e >= 0, e < self.n))
            return e

        def query(self, x, k=1, **kw):
            if k != 1 or kw:
                raise Unsupported("options of KDTree.query")
            rd = x.copy().reader()
            n = x.sshape[0]
            D = z3.Function(f"DIST{len(made)}", z3.IntSort(), R)
            return new((n,), "f", lambda i: Sym("f", D(zi(i[0])))), new((n,), "i", lambda i: Sym("i", self.near(rd((i[0], 0)).e, rd((i[0], 1)).e)))
    cx.ghost.update(CellTree=None, KDTree=KDTree, made=made)


def contract_nodes(V):
    """UGrid.locate_nodes: the tree is built over the nodes of the mesh, and the answer is the row it names"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    from pyvc.verify import dim
    V.functions = ["UGrid.locate_nodes", "UGrid._build_kdtree"]
    V.assumes = ["cKDTree.query: the row nearest to the point, a function of the rows and the point"]

    def run(cx):
        _kdtree(cx)
        N, n = dim("N", 1), dim("n", 1)
        nodes, P = sym_array("nodes", (N, 2), "f"), sym_array("P", (n, 2), "f")
        cx.ghost.update(N=N, n=n, nodes=nodes, P=P)
        g = V.mod("gridded.pyugrid.ugrid").UGrid(nodes=nodes)
        return g.locate_nodes(P), g.locate_nodes(P[::-1])

    def post(V, p):
        cx, q = p.ctx, p.ctx.ghost
        if p.outcome == "raise":
            V.prove("no exception", False)
            return
        V.prove("one tree", len(q["made"]) == 1)
        T = q["made"][0]
        i, k = cx.fresh_index(q["N"], "i").e, cx.fresh_index(q["n"], "k").e
        V.prove("the tree holds the nodes", And(zi(T.p.sshape[0]) == zi(q["N"]), zi(T.p.sshape[1]) == 2, *[T.p.at(i, c).e == q["nodes"].F(i, z3.IntVal(c)) for c in (0, 1)]))
        for t, r, j in (("", p.value[0], k), ("again, ", p.value[1], zi(q["n"]) - 1 - k)):
            V.prove(f"{t}the nearest row of each point", And(len(r.sshape) == 1, zi(r.sshape[0]) == zi(q["n"]),
                                                            r.at(k).e == T.near(q["P"].F(j, z3.IntVal(0)), q["P"].F(j, z3.IntVal(1)))))
        V.cover("reached")
    V.verify(run, post, None)


LOCS = ("node", "center", "edge1", "edge2")


def _sgrid(V, cx, locs=LOCS):
    from pyvc.arr import sym_array
    from pyvc.verify import dim
    sh, kw, C = {}, {}, {}
    for k in locs:
        sh[k] = (dim(f"{k}y", 1), dim(f"{k}x", 1))
        C[k] = sym_array(f"{k}_lon", sh[k], "f"), sym_array(f"{k}_lat", sh[k], "f")
        kw[f"{k}_lon"], kw[f"{k}_lat"] = C[k]
    cx.ghost.update(sh=sh, C=C)
    return V.mod("gridded.pysgrid.sgrid").SGrid(**kw)


def contract_nearest(V):
    """SGrid.locate_nearest: the row and column, within the coordinates of the location that was asked for, of the point that is nearest"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    from pyvc.verify import dim
    V.functions = ["SGrid.locate_nearest", "SGrid.build_kdtree", "SGrid._get_grid_vars"]
    V.assumes = ["cKDTree.query: the row nearest to the point, a function of the rows and the point"]
    for first, then in [(a, b) for a in LOCS for b in LOCS]:
        def run(cx):
            _kdtree(cx)
            g = _sgrid(V, cx)
            P = sym_array("P", (dim("n", 1), 2), "f")
            cx.ghost.update(P=P)
            return g.locate_nearest(P, first), g.locate_nearest(P, then)

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"{first}, then {then}"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            k = cx.fresh_index(q["P"].sshape[0], "k").e
            x, y = (q["P"].F(k, z3.IntVal(c)) for c in (0, 1))
            for loc, r in ((first, p.value[0]), (then, p.value[1])):
                ny, nx = (zi(d) for d in q["sh"][loc])
                lon, lat = q["C"][loc]
                R, C = cx.fresh_index(q["sh"][loc][0], "R").e, cx.fresh_index(q["sh"][loc][1], "C").e
                row = R * nx + C
                T = [t for t in q["made"] if len(t.p.sshape) == 2 and cx.provable(And(t.n == ny * nx, t.p.at(row, 0).e == lon.F(R, C), t.p.at(row, 1).e == lat.F(R, C)))]
                V.prove(f"{tag}: a tree holds the points of {loc}, row by row", len(T) >= 1)
                if not T:
                    return
                V.prove(f"{tag}: a pair for each point", And(len(r.sshape) == 2, zi(r.sshape[0]) == zi(q["P"].sshape[0]), zi(r.sshape[1]) == 2))
                j, i = r.at(k, 0).e, r.at(k, 1).e
                e = T[0].near(x, y)
                V.prove(f"{tag}: within the coordinates of {loc}", And(j >= 0, j < ny, i >= 0, i < nx))
                V.prove(f"{tag}: the nearest point of {loc}", j * nx + i == e)
                V.prove(f"{tag}: that is its longitude and latitude", z3.Implies(And(j == R, i == C), And(T[0].p.at(e, 0).e == lon.F(j, i), T[0].p.at(e, 1).e == lat.F(j, i))))
            V.prove(f"{tag}: points unchanged", And(q["P"].at(k, 0).e == x, q["P"].at(k, 1).e == y))
            V.cover(f"{tag}: reached")
        V.verify(run, post, None)


def contract_value(V):
    """SGrid.nearest_var_to_points: the value at the nearest point of the location, masked if that value is masked; nearest indices given or found"""
    from pyvc.arr import SMa, new, sym_array
    from pyvc.core import And, Not, Sym, Unsupported, zi
    from pyvc.verify import dim
    V.functions = ["SGrid.nearest_var_to_points", "SGrid.get_efficient_slice", "SGrid.get_variable_at_index", "SGrid.infer_location"]
    V.assumes = ["SGrid.locate_nearest by contract (contract_nearest)"]
    for loc in LOCS:
        for kind in ("plain", "masked"):
            for lead in (False, True):
                def run(cx):
                    g = _sgrid(V, cx, ("node",) if loc == "node" else ("node", loc))
                    ny, nx = cx.ghost["sh"][loc]
                    P = sym_array("P", (dim("n", 1), 2), "f")
                    I = sym_array("I", (P.sshape[0], 2), "i", axioms=[(1, lambda raw, i: And(raw(i).e >= 0, raw(i).e < z3.If(zi(i[1]) == 0, zi(ny), zi(nx))))])
                    shape = (dim("t", 1),) * lead + (ny, nx)
                    d = sym_array("data", shape, "f")
                    m = sym_array("mask", shape, "b") if kind == "masked" else None
                    cx.ghost.update(P=P, I=I, d=d, m=m)
                    asked = []

                    def near(points, grid, *a, **k):
                        asked.append((points, grid))
                        return I.copy()
                    g.locate_nearest = near
                    cx.ghost["asked"] = asked
                    kw = dict(slices=(cx.fresh_index(shape[0], "s"),)) if lead else {}
                    cx.ghost["s"] = kw.get("slices")
                    return g.nearest_var_to_points(P, SMa(d, m) if m is not None else d, grid=loc, **kw)

                def post(V, p):
                    cx, q = p.ctx, p.ctx.ghost
                    tag = f"{loc}, {kind}{', record' if lead else ''}"
                    if p.outcome == "raise":
                        V.prove(f"{tag}: no exception", False)
                        return
                    r, k = p.value, cx.fresh_index(q["P"].sshape[0], "k").e
                    V.prove(f"{tag}: asked for the nearest points", And(len(q["asked"]) == 1, q["asked"][0][0] is q["P"], q["asked"][0][1] == loc))
                    V.prove(f"{tag}: a row for each point", And(len(r.sshape) == 2, zi(r.sshape[0]) == zi(q["P"].sshape[0]), zi(r.sshape[1]) == 1))
                    ix = tuple(zi(s) if not hasattr(s, "e") else s.e for s in (q["s"] or ())) + (q["I"].F(k, z3.IntVal(0)), q["I"].F(k, z3.IntVal(1)))
                    mk = q["m"].F(*ix) if q["m"] is not None else z3.BoolVal(False)
                    V.prove(f"{tag}: masked where the data are", r.mat(k, 0) == mk if hasattr(r, "mat") else Not(mk))
                    V.prove(f"{tag}: the value there", z3.Implies(Not(mk), r.at(k, 0).e == q["d"].F(*ix)))
                    V.cover(f"{tag}: value", Not(mk))
                V.verify(run, post, None)


CONTRACTS = [contract_point_in_tri, contract_polys, contract_nodes, contract_nearest, contract_value]
