"""C13: building a mesh and replacing its nodes and faces."""
import numpy as np
import z3

ID = "C13"
BOUNDED_FUNCTIONS = ["UGrid.locate_faces / interpolate_var_to_points / build_boundaries with the real search structures after histories of "
                     "assignments to nodes and faces"]


# ------------------------------------------------------------------------------------------------ bounded companion
def oracle_faces(case):
    """index base and range of the faces given by the caller"""
    import warnings
    from gridded.grids import Grid_U
    from gridded.pyugrid.ugrid import UGrid
    n = case["n"]
    P = np.array([[k % 3, k // 3 + .1 * k] for k in range(n)], dtype=float)
    F = np.array(case["faces"])
    X = F.astype(case["dtype"])
    if case["order"] == "F":
        X = np.asfortranarray(X)
    if case["ro"]:
        X.setflags(write=False)
    if case["list"]:
        X = X.tolist()
    keep = np.array(X).copy()
    lo, hi = int(F.min()), int(F.max())
    want = None if hi > n or lo < -1 or (hi == n and lo < 1) else F - 1 if hi == n else F
    cls = Grid_U if case["cls"] else UGrid
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if case["how"] == "init":
                g = cls(nodes=P, faces=X)
            elif case["how"] == "lonlat":
                g = cls(node_lon=P[:, 0].tolist(), node_lat=P[:, 1], faces=X)
            else:
                g = cls(nodes=P, faces=[[0, 1, 2]])
                g.faces = X
        except ValueError:
            return None if want is None else f"faces {F.tolist()} over {n} nodes were refused"
    if want is None:
        return f"faces {F.tolist()} over {n} nodes were accepted as {np.asarray(g.faces).tolist()}"
    if not np.array_equal(np.asarray(g.faces), want):
        return f"faces {F.tolist()} over {n} nodes became {np.asarray(g.faces).tolist()}"
    if not np.array_equal(np.array(X), keep):
        return f"the faces of the caller were changed from {keep.tolist()} to {np.array(X).tolist()}"
    if not np.array_equal(np.asarray(g.nodes), P) or not np.array_equal(g.node_lon, P[:, 0]) or not np.array_equal(g.node_lat, P[:, 1]):
        return "the nodes differ from the given ones"
    return None


def oracle_history(case):
    """after any history of assignments and queries the mesh answers as a mesh built anew from its nodes and faces"""
    import random
    import warnings
    from gridded.pyugrid.ugrid import UGrid
    from . import common
    rng = random.Random(case["seed"])
    warnings.simplefilter("ignore")

    def mesh():
        P, F, rect = common.tri_mesh(rng, rng.randint(2, 5), rng.randint(2, 5), rot=rng.choice([0, .5]), scale=rng.choice([1, 2]),
                                     off=(rng.choice([0, 1.5]), rng.choice([0, -2])))
        return P, F, rect
    P, F, rect = mesh()
    given = []          # what the caller passed in, and its contents at that time

    def give(x, dt):
        x = np.array(x, dtype=dt)
        given.append((x, x.copy()))
        return x
    pts = np.vstack([common.inside(rng, rect, 5), common.outside(rng, rect, 3)])
    g = UGrid(nodes=give(P, float), faces=give(F, rng.choice([np.int32, np.int64])))

    def answers(g, what, P, F):
        if what == "locate":
            return g.locate_faces(pts)
        if what == "locate one":
            return g.locate_faces(pts[0])
        if what == "simple":
            return g.locate_faces(pts, method="simple", _memo=False)
        if what == "nearest":
            return g.locate_nodes(pts)
        if what == "alphas":
            a = g.interpolation_alphas(pts)
            return np.where(g.locate_faces(pts)[:, None] >= 0, np.ma.filled(a, 0), 0)
        if what == "boundary":
            g.build_boundaries()
            return np.array(sorted(np.asarray(g.boundaries).tolist()))
        loc = what.split()[1]
        v = np.arange(float(len(P) if loc == "node" else len(F))) ** 1.5 - 3
        r = np.ma.masked_invalid(g.interpolate_var_to_points(pts, v, location=loc))
        r = np.ma.array(r, mask=np.ma.getmaskarray(r) | (g.locate_faces(pts, _memo=False) < 0))
        return r.filled(-1e9)
    for step in case["steps"]:
        if step == "nodes":
            Q = P * rng.choice([.5, 2, 1]) + [rng.uniform(-3, 3), 0]
            g.nodes = give(Q, float)
            P = Q
        elif step == "faces":
            k = rng.randrange(len(F)) if rng.random() < .6 else None
            F = np.array([f for i, f in enumerate(F) if i != k or len(F) == 1][::-1])
            g.faces = F.tolist() if rng.random() < .3 else give(F, rng.choice([np.int32, np.int64]))
        elif step == "both":
            Q, G, rect2 = mesh()
            if rng.random() < .5:
                g.faces = None
            else:
                del g.faces
            g.nodes, g.faces = give(Q, float), give(G, np.int32)
            P, F = Q, G
        else:
            for x, old in given:
                if not np.array_equal(x, old):
                    return f"after {case['steps']}: the array {old.tolist()} of the caller was changed to {x.tolist()}"
            a, b = answers(g, step, P, F), answers(UGrid(nodes=P.copy(), faces=F.copy()), step, P, F)
            if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-12, atol=1e-12):
                return f"after {case['steps']}, {step!r}: {np.asarray(a).tolist()} but a new mesh gives {np.asarray(b).tolist()}"
    return None


def bounded(B):
    rng = B.rng
    for c in range(B.n(500, 5000)):
        n = rng.randint(3, 9)
        k, m = rng.randint(1, 4), rng.choice([3, 3, 4])
        lo, hi = rng.choice([(0, n - 1), (0, n - 1), (1, n), (1, n), (1, n), (0, n), (-1, n - 1), (-1, n), (-2, n - 1), (1, n + 1), (2, n), (1, n - 1)])
        F = [[rng.randint(lo, hi) for _ in range(m)] for _ in range(k)]
        if rng.random() < .7:
            F[rng.randrange(k)][rng.randrange(m)] = hi
        if rng.random() < .5:
            F[rng.randrange(k)][rng.randrange(m)] = lo
        B.case("index base", oracle_faces, dict(
            n=n, faces=F, dtype=rng.choice(["int32", "int32", "int64", "int16"]), order=rng.choice("CF"), list=rng.random() < .2, ro=rng.random() < .3,
            how=rng.choice(["init", "lonlat", "set"]), cls=rng.random() < .4))
    for n in (127, 128, 255, 256, 32767, 32768, 65535, 65536):      # where the highest number needs a wider type
        for top in (n - 1, n):
            F = [[1, 2, 3], [top - 2, top - 1, top]]
            B.case("index base", oracle_faces, dict(n=n, faces=F, dtype=rng.choice(["int32", "int64"]), order="C", list=rng.random() < .5, ro=False,
                                                   how=rng.choice(["init", "lonlat", "set"]), cls=False))
    steps = ["nodes", "faces", "both", "locate", "locate one", "simple", "nearest", "alphas", "boundary", "var node", "var face"]
    for c in range(B.n(220, 2500)):
        s = [rng.choice(steps) for _ in range(rng.choice([3, 5, 8]))]
        if rng.random() < .6:       # ask, change, ask again
            q = rng.choice(steps[3:])
            s += [q, rng.choice(steps[:3]), q]
        B.case("history", oracle_history, dict(seed=rng.getrandbits(30), steps=s))


# ------------------------------------------------------------------------------------------------ contracts
def _u(V):
    return V.mod("gridded.pyugrid.ugrid")


def contract_faces(V):
    """faces setter: zero-based faces are taken as they are, one-based faces are renumbered, anything out of range is refused; the
    array of the caller stays as it is and everything derived from the old faces is forgotten"""
    from pyvc.arr import sym_array
    from pyvc.core import And, Not, zi
    from pyvc.verify import dim
    V.functions = ["UGrid.faces (setter)", "UGrid._clear_search_structures"]
    V.assumes = ["integers are mathematical (IND_DT holds every node number)"]
    for m in (3, 4):
        for how in ("init", "lonlat", "set"):
            def run(cx):
                N, nf = dim("N", 1), dim("nf", 1)
                F = sym_array("face", (nf, m), "i")
                cx.ghost.update(N=N, nf=nf, F=F)
                if how == "lonlat":
                    x, y = sym_array("x", (N,), "f"), sym_array("y", (N,), "f")
                    cx.ghost.update(x=x, y=y)
                    return _u(V).UGrid(node_lon=x, node_lat=y, faces=F)
                nodes = sym_array("node", (N, 2), "f")
                cx.ghost.update(nodes=nodes)
                if how == "init":
                    return _u(V).UGrid(nodes=nodes, faces=F)
                g = cx.ghost["g"] = _u(V).UGrid(nodes=nodes)
                g._faces = sym_array("old", (dim("no", 1), m), "i")
                _used(g)
                g.faces = F
                return g

            def post(V, p):
                cx, q = p.ctx, p.ctx.ghost
                tag = f"{m} nodes per face, {how}"
                F, N, nf = q["F"].F, zi(q["N"]), zi(q["nf"])
                f, c = cx.fresh_index(q["nf"], "f").e, cx.fresh_index(m, "c").e
                q["F"].at(f, c)
                if p.outcome == "raise":
                    # refused: some number is out of range (given by the extremum the code has found)
                    V.prove(f"{tag}: only ValueError", p.exc_type == "ValueError" if hasattr(p, "exc_type") else isinstance(p.value, ValueError))
                    bad = [z3.Or(F(a, b) > N, F(a, b) < -1) for a, b in _met(cx, q["F"])]
                    top = [F(a, b) == N for a, b in _met(cx, q["F"])]
                    low = [F(a, b) < 1 for a, b in _met(cx, q["F"])]
                    V.prove(f"{tag}: refused only if out of range", z3.Or(*bad, And(z3.Or(*top), z3.Or(*low))))
                    V.cover(f"{tag}: refused")
                    return
                g = p.value
                R = g.faces
                V.prove(f"{tag}: shape", And(len(R.sshape) == 2, zi(R.sshape[0]) == nf, zi(R.sshape[1]) == m))
                r, x = R.at(f, c).e, F(f, c)
                f2, c2 = cx.fresh_index(q["nf"], "g").e, cx.fresh_index(m, "d").e
                y = q["F"].at(f2, c2).e
                V.prove(f"{tag}: accepted numbers are in range", And(r >= -1, r < N))
                V.prove(f"{tag}: same numbers or one less", z3.Or(r == x, r == x - 1))
                V.prove(f"{tag}: one less only for one-based faces", z3.Implies(r == x - 1, y >= 1))
                V.prove(f"{tag}: all or none", And(z3.Implies(y == N, r == x - 1), z3.Implies(y < 1, r == x)))
                V.prove(f"{tag}: the array of the caller is unchanged", q["F"].at(f, c).e == x)
                V.prove(f"{tag}: no stale connectivity", g._face_face_connectivity is None and g._face_edge_connectivity is None)
                V.prove(f"{tag}: no stale search structures", _clean(g))
                k = cx.fresh_index(q["N"], "k").e
                if how == "lonlat":
                    want = [q["x"].F(k), q["y"].F(k)]
                else:
                    want = [q["nodes"].F(k, z3.IntVal(t)) for t in (0, 1)]
                for t in (0, 1):
                    V.prove(f"{tag}: node coordinate {t}", And(zi(g.nodes.sshape[0]) == N, g.nodes.at(k, t).e == want[t],
                                                           (g.node_lon if t == 0 else g.node_lat).at(k).e == want[t]))
                V.cover(f"{tag}: zero-based", And(r == x, x >= 1))
                V.cover(f"{tag}: one-based", r == x - 1)
            V.verify(run, post, None)


def _used(g):
    """a mesh that has been used: everything it may have built or remembered is there"""
    g._kdtree = g._cell_tree = object()
    g._face_face_connectivity = g._face_edge_connectivity = object()
    g._ind_memo_dict["h"] = g._alpha_memo_dict["h"] = object()


def _clean(g):
    return g._kdtree is None and g._cell_tree is None and not g._ind_memo_dict and not g._alpha_memo_dict


def _met(cx, a):
    """the elements of a that the path has looked at"""
    out, seen = [], set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() == "face" and e.num_args() == 2:
                out.append((e.arg(0), e.arg(1)))
            for x in e.children():
                walk(x)
    for e in list(cx.pc) + list(cx.facts):
        walk(e)
    return out


def contract_nodes(V):
    """constructor and nodes setter: what the mesh holds, and what is forgotten"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    from pyvc.verify import dim
    V.functions = ["UGrid.nodes (setter, deleter)", "UGrid.faces (deleter)", "UGrid.__init__", "UGrid.node_lon", "UGrid.node_lat"]
    for how in ("init", "set", "none", "del nodes", "del faces", "faces none", "twice"):
        def run(cx):
            N, M = dim("N", 1), dim("M", 1)
            nodes, old = sym_array("node", (N, 2), "f"), sym_array("old", (M, 2), "f")
            cx.ghost.update(N=N, nodes=nodes)
            if how == "init":
                return _u(V).UGrid(nodes=nodes)
            if how == "twice":
                try:
                    _u(V).UGrid(nodes=nodes, node_lon=nodes[:, 0])
                except TypeError:
                    return None
            g = _u(V).UGrid(nodes=old)
            g._faces = sym_array("face", (dim("nf", 1), 3), "i")
            _used(g)
            if how == "set":
                g.nodes = nodes
            elif how == "none":
                g.nodes = None
            elif how == "del nodes":
                del g.nodes
            elif how == "faces none":
                g.faces = None
            else:
                del g.faces
            return g

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            if p.outcome == "raise":
                V.prove(f"{how}: no exception", False)
                return
            g = p.value
            if how == "twice":
                V.prove("nodes given in two ways are refused", g is None)
                return
            V.prove(f"{how}: no stale search structures", _clean(g))
            if how in ("init", "set"):
                k = cx.fresh_index(q["N"], "k").e
                for t in (0, 1):
                    V.prove(f"{how}: node coordinate {t}", And(zi(g.nodes.sshape[0]) == zi(q["N"]), g.nodes.at(k, t).e == q["nodes"].F(k, z3.IntVal(t)),
                                                           (g.node_lon if t == 0 else g.node_lat).at(k).e == q["nodes"].F(k, z3.IntVal(t))))
            if how in ("none", "del nodes"):
                V.prove(f"{how}: no nodes", tuple(g.nodes.shape) == (0, 2))
            if how in ("del faces", "faces none"):
                V.prove(f"{how}: no stale connectivity", g._face_face_connectivity is None and g._face_edge_connectivity is None)
            if how in ("del faces", "faces none", "del nodes"):
                V.prove(f"{how}: no faces", g.faces is None)
            V.cover(f"{how}: reached")
        V.verify(run, post, None)


def contract_replace(V):
    """ask, replace the nodes or the faces, ask again: the second answer is the one of the new mesh"""
    from pyvc.arr import new, sym_array
    from pyvc.core import And, Sym, zi
    from pyvc.verify import dim
    V.functions = ["UGrid.locate_faces", "UGrid.build_celltree", "UGrid._get_memoed", "UGrid._add_memo", "UGrid.nodes (setter)",
                   "UGrid.faces (setter)", "UGrid.locate_nodes", "UGrid._build_kdtree"]
    V.assumes = ["CellTree.locate / cKDTree.query are functions of the arrays the tree was built from and the points"]
    for what in ("nodes", "faces", "nearest"):
        def run(cx):
            N, nf, n = dim("N", 3), dim("nf", 1), dim("n", 1)
            ok = [(1, lambda raw, i: And(raw(i).e >= 0, raw(i).e < N))]
            A = sym_array("nodeA", (N, 2), "f"), sym_array("faceA", (nf, 3), "i", axioms=ok)
            B = (sym_array("nodeB", (N, 2), "f"), A[1]) if what != "faces" else (A[0], sym_array("faceB", (nf, 3), "i", axioms=ok))
            P = sym_array("P", (n, 2), "f")
            I, R = z3.IntSort(), z3.RealSort()
            L = {t: z3.Function("L" + t, R, R, I) for t in "AB"}
            f, k, c = (cx.fresh(x, "i").e for x in "fkc")

            def which(nodes, faces):
                """which of the two meshes the arrays are (at a generic element)"""
                same = lambda m: And(zi(nodes.sshape[0]) == N, *[nodes.at(k, t).e == m[0].at(k, t).e for t in (0, 1)],
                                     *([] if faces is None else [faces.at(f, t).e == m[1].at(f, t).e for t in range(3)]))
                cx.fact(And(k >= 0, k < N, f >= 0, f < nf))
                for t, m in (("A", A), ("B", B)):
                    if cx.provable(same(m)):
                        return t
                return None

            class Tree:
                def __init__(self, nodes, faces=None, *a, **kw):
                    self.t = which(nodes, faces)
                    self.nodes = nodes

                def locate(self, pts):
                    rd, F = pts.copy().reader(), L[self.t] if self.t else z3.Function("OTHER", R, R, I)
                    return new((pts.sshape[0],), "i", lambda i: Sym("i", F(rd((i[0], 0)).e, rd((i[0], 1)).e)))

                def query(self, pts, k=1):
                    return None, self.locate(pts)
            cx.ghost.update(CellTree=Tree, KDTree=Tree, L=L, P=P, n=n)
            g = _u(V).UGrid(nodes=A[0])
            g._faces = A[1]
            ask = (lambda: g.locate_nodes(P)) if what == "nearest" else (lambda: g.locate_faces(P))
            one = ask()
            if what == "faces":
                g.faces = B[1]
            else:
                g.nodes = B[0]
            return one, ask(), ask()

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            if p.outcome == "raise":
                V.prove(f"{what}: no exception", isinstance(p.value, ValueError) and what == "faces")
                return
            k = cx.fresh_index(q["n"], "k").e
            x, y = q["P"].at(k, 0).e, q["P"].at(k, 1).e
            for i, (r, t) in enumerate(zip(p.value, "ABB")):
                V.prove(f"{what}: answer {i} is the one of mesh {t}", And(zi(r.sshape[0]) == zi(q["n"]), r.at(k).e == q["L"][t](x, y)))
            V.cover(f"{what}: reached")
        V.verify(run, post, None)


CONTRACTS = [contract_faces, contract_nodes, contract_replace]
