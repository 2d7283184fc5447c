"""C12: topology and coordinates derived from the faces of a mesh."""
import numpy as np
import z3

from pyvc.verify import run_case

ID = "C12"
BOUNDED_FUNCTIONS = ["UGrid.build_face_edge_connectivity with the real k-d tree", "UGrid.build_edges / build_face_face_connectivity / "
                     "build_boundaries on real meshes of triangles and quadrilaterals, repeated and mixed orders of the calls"]


# ------------------------------------------------------------------------------------------------ bounded companion
def _faces(case):
    """nodes, faces: a mesh of triangles or of quadrilaterals, numbered in any order"""
    import random
    from . import common
    rng = random.Random(case["seed"])
    if case["m"] == 3:
        P, F, _ = common.tri_mesh(rng, case["nx"], case["ny"], rot=.3)
    else:
        nx, ny = case["nx"], case["ny"]
        xs, ys = np.meshgrid(np.arange(nx) * 1., np.arange(ny) * 1.)
        P = np.column_stack([xs.ravel(), ys.ravel()])
        F = [[j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i] for j in range(ny - 1) for i in range(nx - 1)]
        for q in F:
            r = rng.randrange(4)
            q[:] = q[r:] + q[:r]
            if rng.random() < .5:
                q.reverse()
        rng.shuffle(F)
        perm = list(range(len(P)))
        rng.shuffle(perm)
        P, F = P[np.argsort(perm)], np.array(perm)[np.array(F)]
    F = np.array(F)
    if case["pad"]:      # nodes that no face uses, so that the node numbers are high
        at = np.sort(rng.sample(range(case["pad"] + len(P)), len(P)))
        if rng.random() < .5:
            at = at[[at.tolist().index(x) for x in rng.sample(at.tolist(), len(at))]]
        Q = np.zeros((case["pad"] + len(P), 2))
        Q[at] = P
        P, F = Q, at[F]
    if case["holes"] and len(F) > 2:
        F = F[[k for k in range(len(F)) if rng.random() > .3] or [0]]
    return rng, P, F


def _expect(F):
    slots = {}
    for f, row in enumerate(F.tolist()):
        for j in range(len(row)):
            a, b = row[j], row[(j + 1) % len(row)]
            slots.setdefault((min(a, b), max(a, b)), []).append((f, j, a, b))
    return slots


def _check(g, P, F, what):
    slots = _expect(F)
    m = F.shape[1]
    if what == "edges":
        E = np.asarray(g.edges)
        got = sorted(map(tuple, E.tolist()))
        if got != sorted(slots):
            return f"edges {got[:6]}... instead of {sorted(slots)[:6]}..."
    elif what == "face_face":
        R = np.full(F.shape, -1)
        for s in slots.values():
            if len(s) == 2:
                (f, j, *_), (h, t, *_) = s
                R[f, j], R[h, t] = h, f
        if not np.array_equal(g.face_face_connectivity, R):
            return f"neighbours {np.asarray(g.face_face_connectivity).tolist()} instead of {R.tolist()} for the faces {F.tolist()}"
    elif what == "boundaries":
        want = sorted((s[0][2], s[0][3]) for s in slots.values() if len(s) == 1)
        got = sorted(map(tuple, np.asarray(g.boundaries).tolist()))
        if got != want:
            return f"boundaries {got} instead of {want}"
    elif what == "face_edge":
        R, E = np.asarray(g.face_edge_connectivity), np.asarray(g.edges)
        for f in range(len(F)):
            for j in range(m):
                if sorted(E[R[f, j]].tolist()) != sorted([int(F[f, j]), int(F[f, (j + 1) % m])]):
                    return f"edge {j} of face {F[f].tolist()} is given as {E[R[f, j]].tolist()}"
    elif what == "lines":
        if not np.array_equal(g.get_lines(), P[np.asarray(g.edges)]):
            return "get_lines does not give the end points of the edges"
    else:
        ids = {"face_coordinates": F, "edge_coordinates": g.edges, "boundary_coordinates": g.boundaries}[what]
        want = np.array([[sum(P[k][c] for k in r) / len(r) for c in (0, 1)] for r in np.asarray(ids).tolist()])
        got = np.asarray(getattr(g, what))
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-12):
            return f"{what}: {got[:3].tolist()} instead of {want[:3].tolist()}"
    return None


def _build(g, what):
    if what == "lines":
        g.get_lines()
    elif what == "face_edge":
        g.build_face_edge_connectivity()
    elif what == "face_face":
        g.build_face_face_connectivity()
    else:
        getattr(g, "build_" + what)()


NEEDS = {"face_edge": ["edges"], "edge_coordinates": ["edges"], "boundary_coordinates": ["boundaries"], "lines": []}


def oracle(case):
    import warnings
    from gridded.pyugrid.ugrid import UGrid
    rng, P, F = _faces(case)
    X = F.astype(case["dtype"])
    if case["base"] and F.max() == len(P) - 1:
        X = X + 1
    if case["order"] == "F":
        X = np.asfortranarray(X)
    if case["list"]:
        X = X.tolist()
    keep = np.array(X).copy()
    P0 = P.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["lonlat"]:
            g = UGrid(node_lon=P[:, 0], node_lat=P[:, 1], faces=X)
        else:
            g = UGrid(nodes=P, faces=X)
    done = set()
    for what in case["calls"]:
        if what == "replace":
            F = F[:-1] if len(F) > 1 else F[:, ::-1].copy()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g.faces = F
            done = set()
            continue
        if what == "user edges":
            E = np.array(sorted(_expect(F)))
            rng.shuffle(order := list(range(len(E))))
            flip = [rng.random() < .5 for _ in E]
            E = np.array([e[::-1] if x else e for e, x in zip(E[order], flip)])
            g.edges = E
            done.add("edges")
            done.discard("face_edge")
            continue
        for need in NEEDS.get(what, []):
            if need not in done:
                _build(g, need)
                done.add(need)
        if what == "lines" and "edges" not in done:
            g.edges = None
        _build(g, what)
        done.add(what)
        msg = _check(g, P, F, what)
        if msg:
            return f"after {case['calls']}: {msg}"
        if not np.array_equal(np.asarray(g.faces), F):
            return f"{what} changed the faces"
    if not np.array_equal(np.array(X), keep) or not np.array_equal(P, P0):
        return "the arrays given by the caller were changed"
    if not np.array_equal(np.asarray(g.nodes), P0):
        return "the nodes were changed"
    return None


def bounded(B):
    rng = B.rng
    calls = ["edges", "face_face", "boundaries", "face_edge", "face_coordinates", "edge_coordinates", "boundary_coordinates", "lines",
             "replace", "user edges"]
    for c in range(B.n(300, 4000)):
        big = c % 60 == 0
        pad = rng.choice([3, 3, 10, 10, 300, 200000]) if c % 3 == 1 else 0
        B.case("mesh", oracle, dict(
            seed=rng.getrandbits(30), m=rng.choice([3, 3, 4]), nx=rng.randint(30, 60) if big else rng.randint(2, 6),
            ny=rng.randint(30, 60) if big else rng.randint(2, 5), holes=rng.random() < .3, dtype=rng.choice(["int32", "int64", "int16", "uint8"])
            if not big and pad < 99 else "int32", pad=pad, base=rng.random() < .3, list=rng.random() < .2, order=rng.choice("CF"), lonlat=rng.random() < .3,
            calls=[rng.choice(calls) for _ in range(rng.choice([1, 2, 4, 8]))]))


# ------------------------------------------------------------------------------------------------ contracts
def _mesh(cx, V, m, nodes=True):
    """a mesh of nf faces with m nodes each over N nodes"""
    from pyvc.arr import sym_array
    from pyvc.core import And
    from pyvc.verify import dim
    N, nf = dim("N", 1), dim("nf", 1)
    F = sym_array("face", (nf, m), "i")
    U = V.mod("gridded.pyugrid.ugrid")
    g = U.UGrid(nodes=sym_array("node", (N, 2), "f"))
    g._faces = F
    cx.ghost.update(N=N, nf=nf, F=F, g=g, m=m)
    return g


class _Slots:
    """the edge slots (face, position) of a mesh; edge j of a face joins its nodes j and j + 1"""

    def __init__(self, cx):
        self.cx, q = cx, cx.ghost
        self.F, self.m, self.nf = q["F"].F, q["m"], q["nf"]

    def node(self, f, j):
        """node j (mod m) of face f, for a symbolic or literal j"""
        m = self.m
        if isinstance(j, int):
            return self.F(f, z3.IntVal(j % m))
        return self.F(f, z3.If(j == m, z3.IntVal(0), j))

    def key(self, f, j):
        a, b = self.node(f, j), self.node(f, j + 1)
        return z3.If(a > b, b, a), z3.If(a > b, a, b)

    def slot(self, f, j, upto=None):
        from pyvc.core import And
        return And(f >= 0, f < (self.nf if upto is None else upto), j >= 0, j < self.m)

    def same(self, k, l):
        from pyvc.core import And
        return And(k[0] == l[0], k[1] == l[1])

    def manifold(self, *slots):
        """an edge belongs to at most two slots: of any three slots with the same edge, two are one"""
        import itertools
        from pyvc.core import And, Or
        for a, b, c in itertools.combinations(slots, 3):
            self.cx.fact(z3.Implies(And(self.slot(*a), self.slot(*b), self.slot(*c), self.same(self.key(*a), self.key(*b)),
                                        self.same(self.key(*b), self.key(*c))),
                                    Or(*[And(x[0] == y[0], x[1] == y[1]) for x, y in ((a, b), (b, c), (a, c))])))


class _EdgeSet:
    """build_edges: after k faces the set holds exactly the edges of the first k faces"""

    def __init__(self, V):
        self.V = V

    def assume(self, cx, st, k):
        from pyvc.core import And, Or
        s, e = _Slots(cx), st.sets[0]
        wf = z3.Function(cx.fresh_name("wf"), *[z3.IntSort()] * 3)
        wj = z3.Function(cx.fresh_name("wj"), *[z3.IntSort()] * 3)

        def trigger(key):
            f, j = wf(*key), wj(*key)
            cx.fact(z3.Implies(e.has(key), And(s.slot(f, j, k), s.same(s.key(f, j), key))))
        e.havoc(2, trigger)
        cx.ghost["member"] = lambda f, j: cx.fact(z3.Implies(s.slot(f, j, k), e.has(s.key(f, j))))
        cx.ghost["witness"] = lambda key: (wf(*key), wj(*key))
        self.old = e.has if False else None
        self.wit, self.k = (wf, wj), k

    def prove(self, cx, st, k, when):
        from pyvc.core import And, Or, simp
        V, s, e = self.V, _Slots(cx), st.sets[0]
        f, j = cx.fresh("f", "i").e, cx.fresh("j", "i").e
        cx.fact(s.slot(f, j))
        if when != "at the start":
            cx.ghost["member"](f, j)
        V.prove(f"edges, {when}: the edges of the faces so far are in the set",
                z3.Implies(f < k, e.has(tuple(simp(x) for x in s.key(f, j)))), soft=True)
        key = cx.fresh("a", "i").e, cx.fresh("b", "i").e
        have = e.has(key)
        if when == "at the start":
            V.prove(f"edges, {when}: nothing else is", z3.Not(have), soft=True)
            return
        wf, wj = self.wit[0](*key), self.wit[1](*key)
        old = And(s.slot(wf, wj, self.k), s.same(s.key(wf, wj), key))
        V.prove(f"edges, {when}: nothing else is", z3.Implies(have, Or(old, *[s.same(s.key(self.k, j), key) for j in range(s.m)])),
                soft=True)


def contract_edges(V):
    """build_edges: the edges are exactly the edges of the faces, lower node first, each once"""
    from pyvc.core import And, simp, zi
    V.functions = ["UGrid.build_edges"]
    V.assumes = ["iteration over a python set yields each member once"]
    for m in (3, 4):
        def run(cx):
            g = _mesh(cx, V, m)
            cx.ghost["invariants"] = [_EdgeSet(V)]
            g.build_edges()
            return g

        def post(V, p):
            cx = p.ctx
            q, s = cx.ghost, _Slots(cx)
            tag = f"{m} nodes per face"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            if q.get("loops_done") != 1 or not q.get("enums"):
                V.undecided.append("build_edges does not fit the stated invariant")
                return
            E, en = p.value.edges, q["enums"][-1]
            V.prove(f"{tag}: pairs of nodes", And(len(E.sshape) == 2, zi(E.sshape[1]) == 2))
            f, j = cx.fresh("f", "i").e, cx.fresh("j", "i").e
            cx.fact(s.slot(f, j))
            q["member"](f, j)
            key = tuple(simp(x) for x in s.key(f, j))
            r = en.rank(key)
            V.prove(f"{tag}: every edge of a face is listed", And(r >= 0, r < zi(E.sshape[0]), E.at(r, 0).e == key[0], E.at(r, 1).e == key[1]))
            t = cx.fresh_index(E.sshape[0], "t").e
            a, b = E.at(t, 0).e, E.at(t, 1).e
            wf, wj = q["witness"](en.at(t))
            V.prove(f"{tag}: every listed edge is one of a face", And(s.slot(wf, wj), s.same(s.key(wf, wj), (a, b))))
            u = cx.fresh_index(E.sshape[0], "u").e
            V.prove(f"{tag}: no edge is listed twice", z3.Implies(And(a == E.at(u, 0).e, b == E.at(u, 1).e), t == u))
            V.prove(f"{tag}: faces unchanged", p.value.faces.at(f, j).e == q["F"].F(f, j))
            V.cover(f"{tag}: reached")
        V.verify(run, post, None)


class _Pending:
    """build_face_face_connectivity: after k faces, an edge met once is pending with its slot, an edge met twice links its two
    slots both ways and is not pending"""

    def __init__(self, V):
        self.V = V

    def ff(self, st, f, j):
        from pyvc.ghost import read
        return read(st.arrays[0], (f, j))

    def holds_slot(self, cx, s, has, val, ff, k, f, j):
        """what holds of a slot of the first k faces"""
        from pyvc.core import And, Not, Or
        key, v = s.key(f, j), ff(f, j)
        pend = val(key)
        mate = Or(*[And(s.same(s.key(v, z3.IntVal(t)), key), Or(v != f, t != j), ff(v, z3.IntVal(t)) == f) for t in range(s.m)])
        return And(z3.Implies(v == -1, And(has(key), pend[0] == f, pend[1] == j)),
                   z3.Implies(v != -1, And(v >= 0, v < k, Not(has(key)), mate)))

    def holds_key(self, s, has, val, ff, k, key):
        """what holds of a pending edge"""
        from pyvc.core import And
        f, j = val(key)
        return z3.Implies(has(key), And(s.slot(f, j, k), s.same(s.key(f, j), key), ff(f, j) == -1))

    def assume(self, cx, st, k):
        from pyvc.core import And, simp
        from pyvc.ghost import havoc_array
        s, d = _Slots(cx), st.dicts[0]
        self.k = k
        cx.ghost["slots"] = slots = []
        d.havoc(2, 2, lambda q: key(q))
        has0, val0 = d.has, d.val
        arr = st.arrays[0]
        havoc_array(arr)
        ff0f = arr.fn

        def ff(f, j):
            return ff0f((simp(f), simp(j))).e
        done = set()

        def slot(f, j):
            """use the invariant at a slot"""
            i = (simp(f).get_id(), simp(j).get_id())
            if i in done:
                return
            done.add(i)
            slots.append((simp(f), simp(j)))
            cx.fact(z3.Implies(s.slot(f, j, k), self.holds_slot(cx, s, has0, val0, ff, k, f, j)))
            cx.fact(z3.Implies(And(s.slot(f, j), f >= k), ff(f, j) == -1))

        def key(q):
            cx.fact(self.holds_key(s, has0, val0, ff, k, q))
        cx.ghost.update(use_slot=slot, use_key=key, ff0=ff, has0=has0, val0=val0)

    def prove(self, cx, st, k, when):
        from pyvc.core import And, Not, Or, simp
        V, s, d, q = self.V, _Slots(cx), st.dicts[0], cx.ghost
        f, j = cx.fresh("f", "i").e, cx.fresh("j", "i").e
        cx.fact(s.slot(f, j))
        ff = lambda f, j: self.ff(st, f, j)
        a = (cx.fresh("a", "i").e, cx.fresh("b", "i").e)
        if when == "at the start":
            V.prove(f"neighbours, {when}: nothing is pending", Not(d.has(a)), soft=True)
            V.prove(f"neighbours, {when}: no neighbour is known", ff(f, j) == -1, soft=True)
            return
        K = [tuple(simp(x) for x in s.key(self.k, z3.IntVal(t))) for t in range(s.m)]
        use, usek = q["use_slot"], q["use_key"]
        use(f, j)
        for t in range(s.m):
            use(self.k, z3.IntVal(t))
        for key in K + [a]:
            usek(key)
        have0, val0, ff0 = q["has0"], q["val0"], q["ff0"]
        base = [(self.k, z3.IntVal(t)) for t in range(s.m)]
        pend = [val0(key) for key in K]
        mates = [(ff0(f, j), z3.IntVal(t)) for t in range(s.m)]
        for x in pend + mates + [val0(a)]:
            use(*x)
        for p in pend:
            s.manifold((f, j), base[pend.index(p)], p)
            for t in range(s.m):
                for u in range(t):
                    s.manifold(base[t], base[u], p)
        for t in range(s.m):
            for u in range(s.m):
                s.manifold((f, j), mates[u], base[t])
                for w in range(t):
                    s.manifold((f, j), base[t], base[w])
        V.prove(f"neighbours, {when}: linked or pending", z3.Implies(f < k, self.holds_slot(cx, s, d.has, d.val or (lambda x: (f, j)), ff, k, f, j)), soft=True)
        V.prove(f"neighbours, {when}: pending edges have one open slot", self.holds_key(s, d.has, d.val or (lambda x: (f, j)), ff, k, a), soft=True)
        V.prove(f"neighbours, {when}: later faces are untouched", z3.Implies(f >= k, ff(f, j) == -1), soft=True)


def contract_neighbours(V, sizes=(3,)):
    """build_face_face_connectivity: entry (f, j) is the face on the other side of edge j of face f, -1 if there is none"""
    from pyvc.core import And, simp, zi
    V.functions = ["UGrid.build_face_face_connectivity"]
    V.assumes = ["precondition: an edge belongs to at most two faces"]
    for m in sizes:
        def run(cx):
            g = _mesh(cx, V, m)
            cx.ghost["invariants"] = [_Pending(V)]
            g.build_face_face_connectivity()
            return g

        def post(V, p):
            cx = p.ctx
            q, s = cx.ghost, _Slots(cx)
            tag = f"{m} nodes per face"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            if q.get("loops_done") != 1:
                V.undecided.append("build_face_face_connectivity does not fit the stated invariant")
                return
            R = p.value.face_face_connectivity
            V.prove(f"{tag}: shape", And(len(R.sshape) == 2, zi(R.sshape[0]) == zi(q["nf"]), zi(R.sshape[1]) == m))
            f, j = cx.fresh("f", "i").e, cx.fresh("j", "i").e
            g, t = cx.fresh("g", "i").e, cx.fresh("t", "i").e
            cx.fact(And(s.slot(f, j), s.slot(g, t)))
            v, w = R.at(f, j).e, R.at(g, t).e
            same = And(s.same(s.key(f, j), s.key(g, t)), z3.Or(f != g, j != t))
            use = q["use_slot"]
            use(f, j), use(g, t)
            for u in range(m):
                s.manifold((f, j), (g, t), (v, z3.IntVal(u)))
            V.prove(f"{tag}: the face across a shared edge", z3.Implies(same, And(v == g, w == f)))
            mates = [And(s.slot(v, z3.IntVal(u)), s.same(s.key(f, j), s.key(v, z3.IntVal(u))), z3.Or(v != f, u != j)) for u in range(m)]
            V.prove(f"{tag}: only faces that share the edge", z3.Implies(v != -1, z3.Or(*mates)))
            V.prove(f"{tag}: faces unchanged", p.value.faces.at(f, j).e == q["F"].F(f, j))
            V.cover(f"{tag}: neighbour", v != -1)
            V.cover(f"{tag}: no neighbour", v == -1)
        V.verify(run, post, None)


class _Boundary:
    """build_boundaries: after k faces the list holds the open edges of the first k faces, each once, in the order of the slots"""

    def __init__(self, V):
        self.V = V

    def assume(self, cx, st, k):
        from pyvc.core import And
        s, b = _Slots(cx), st.lists[0]
        ff = cx.ghost["ff"].F
        self.k = k
        L = cx.fresh("L", "i").e
        cx.fact(L >= 0)
        I = z3.IntSort()
        of, oj = (z3.Function(cx.fresh_name(n), I, I) for n in ("of", "oj"))
        pos = z3.Function(cx.fresh_name("pos"), I, I, I)

        def trigger(p):
            f, j = of(p), oj(p)
            cx.fact(z3.Implies(And(p >= 0, p < L), And(
                s.slot(f, j, k), ff(f, j) == -1, b_el(p)[0] == s.node(f, j), b_el(p)[1] == s.node(f, j + 1), pos(f, j) == p)))
        b.havoc(2, L, trigger)
        b_el = b.el

        def slot(f, j):
            p = pos(f, j)
            cx.fact(z3.Implies(And(s.slot(f, j, k), ff(f, j) == -1), And(p >= 0, p < L, of(p) == f, oj(p) == j)))
            b_el(p)
        cx.ghost.update(use_slot=slot, pos=pos, own=lambda p: (of(p), oj(p)), L0=L)

    def prove(self, cx, st, k, when):
        from pyvc.core import And, simp
        V, s, b, q = self.V, _Slots(cx), st.lists[0], cx.ghost
        if when == "at the start":
            V.prove(f"boundaries, {when}: the list is empty", b.L == 0, soft=True)
            return
        f, j, p = (cx.fresh(x, "i").e for x in "fjp")
        cx.fact(s.slot(f, j))
        ff, L0 = q["ff"].F, q["L0"]
        is_open = [ff(self.k, z3.IntVal(t)) == -1 for t in range(s.m)]
        before = lambda t: z3.Sum([z3.IntVal(0)] + [z3.If(o, 1, 0) for o in is_open[:t]])
        V.prove(f"boundaries, {when}: one entry per open edge", b.L == L0 + before(s.m), soft=True)
        # ghost bookkeeping: the new entries follow in the order of the positions
        pos1, own1 = q["pos"](f, j), q["own"](p)
        for t in range(s.m):
            pos1 = z3.If(And(f == self.k, j == t), L0 + before(t), pos1)
            own1 = tuple(z3.If(And(is_open[t], p == L0 + before(t)), v, o) for v, o in zip((self.k, z3.IntVal(t)), own1))
        q["use_slot"](f, j)
        el = b.el(simp(p))
        of, oj = own1
        V.prove(f"boundaries, {when}: every entry is an open edge", z3.Implies(And(p >= 0, p < b.L), And(
            s.slot(of, oj, k), ff(of, oj) == -1, el[0] == s.node(of, oj), el[1] == s.node(of, oj + 1))), soft=True)
        posk = q["pos"](of, oj)
        for t in range(s.m):
            posk = z3.If(And(of == self.k, oj == t), L0 + before(t), posk)
        V.prove(f"boundaries, {when}: an open edge is listed once", z3.Implies(And(p >= 0, p < b.L), posk == p), soft=True)
        el = b.el(simp(pos1))
        V.prove(f"boundaries, {when}: every open edge so far is listed", z3.Implies(And(f < k, ff(f, j) == -1), And(
            pos1 >= 0, pos1 < b.L, el[0] == s.node(f, j), el[1] == s.node(f, j + 1))), soft=True)


def contract_boundaries(V):
    """build_boundaries: the boundary segments are exactly the edges without a neighbour, in the direction of their face, each
    once"""
    from pyvc.arr import sym_array
    from pyvc.core import And, simp, zi
    V.functions = ["UGrid.build_boundaries", "UGrid.boundaries (setter)"]
    for m in (3, 4):
        def run(cx):
            g = _mesh(cx, V, m)
            ff = sym_array("ff", (cx.ghost["nf"], m), "i")
            g._face_face_connectivity = ff
            cx.ghost.update(ff=ff, invariants=[_Boundary(V)])
            g.build_boundaries()
            return g

        def post(V, p):
            cx = p.ctx
            q, s = cx.ghost, _Slots(cx)
            tag = f"{m} nodes per face"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            if q.get("loops_done") != 1:
                V.undecided.append("build_boundaries does not fit the stated invariant")
                return
            B, ff = p.value.boundaries, q["ff"].F
            V.prove(f"{tag}: pairs of nodes", And(len(B.sshape) == 2, zi(B.sshape[1]) == 2))
            f, j = cx.fresh("f", "i").e, cx.fresh("j", "i").e
            cx.fact(s.slot(f, j))
            q["use_slot"](f, j)
            r = q["pos"](f, j)
            V.prove(f"{tag}: every open edge is listed", z3.Implies(ff(f, j) == -1, And(
                r >= 0, r < zi(B.sshape[0]), B.at(r, 0).e == s.node(f, j), B.at(r, 1).e == s.node(f, j + 1))))
            t = cx.fresh_index(B.sshape[0], "t").e
            a, b = B.at(t, 0).e, B.at(t, 1).e
            of, oj = q["own"](t)
            V.prove(f"{tag}: every listed segment is an open edge of a face",
                    And(s.slot(of, oj), ff(of, oj) == -1, a == s.node(of, oj), b == s.node(of, oj + 1)))
            u = cx.fresh_index(B.sshape[0], "u").e
            B.at(u, 0)
            V.prove(f"{tag}: an open edge is listed once", z3.Implies(And(*[x == y for x, y in zip(q["own"](u), (of, oj))]), t == u))
            V.prove(f"{tag}: neighbours unchanged", p.value.face_face_connectivity.at(f, j).e == ff(f, j))
            V.prove(f"{tag}: faces unchanged", p.value.faces.at(f, j).e == q["F"].F(f, j))
            V.cover(f"{tag}: boundary", And(t == 0, zi(B.sshape[0]) > 0))
        V.verify(run, post, None)


def contract_neighbours_quads(V):
    """build_face_face_connectivity with four nodes per face"""
    contract_neighbours(V, (4,))


def contract_coordinates(V):
    """face, edge and boundary coordinates are the averages of the nodes; get_lines gives the end points of the edges"""
    from pyvc.arr import sym_array
    from pyvc.core import And, zi
    from pyvc.verify import dim
    V.functions = ["UGrid.build_face_coordinates", "UGrid.build_edge_coordinates", "UGrid.build_boundary_coordinates",
                   "UGrid.get_lines", "UGrid.node_lon", "UGrid.node_lat"]
    for what, m in (("face", 3), ("face", 4), ("edge", 2), ("boundary", 2), ("lines", 2), ("nodes", 2)):
        def run(cx):
            N, n = dim("N", 1), dim("n", 1)
            U = V.mod("gridded.pyugrid.ugrid")
            nodes = sym_array("node", (N, 2), "f")
            ids = sym_array("ids", (n, m), "i", axioms=[(1, lambda raw, i: And(raw(i).e >= 0, raw(i).e < N))])
            g = U.UGrid(nodes=nodes)
            cx.ghost.update(N=N, n=n, nodes=nodes, ids=ids)
            if what == "face":
                g._faces = ids
            elif what == "boundary":
                g.boundaries = ids
            else:
                g.edges = ids
            if what == "lines":
                return g.get_lines()
            if what == "nodes":
                return g.node_lon, g.node_lat
            getattr(g, f"build_{what}_coordinates")()
            return getattr(g, f"{what}_coordinates")

        def post(V, p):
            cx, q = p.ctx, p.ctx.ghost
            tag = f"{what} ({m} nodes)"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            r, X = p.value, q["nodes"].F
            if what == "nodes":
                k = cx.fresh_index(q["N"], "k").e
                for c in (0, 1):
                    V.prove(f"node coordinate {c}", And(zi(r[c].sshape[0]) == zi(q["N"]), r[c].at(k).e == X(k, z3.IntVal(c))))
                return
            k = cx.fresh_index(q["n"], "k").e
            V.prove(f"{tag}: one row each", zi(r.sshape[0]) == zi(q["n"]))
            for c in (0, 1):
                pts = [X(q["ids"].F(k, z3.IntVal(t)), z3.IntVal(c)) for t in range(m)]
                if what == "lines":
                    for t in range(2):
                        V.prove(f"end {t}, coordinate {c}", r.at(k, t, c).e == pts[t])
                else:
                    V.prove(f"{tag}: coordinate {c} is the average of the nodes", r.at(k, c).e * m == z3.Sum(pts))
            V.prove(f"{tag}: nodes unchanged", q["nodes"].at(k, 0).e == X(k, z3.IntVal(0)))
            V.cover(f"{tag}: reached")
        V.verify(run, post, None)


def contract_face_edges(V):
    """build_face_edge_connectivity: entry (f, j) is the number of the edge that joins nodes j and j + 1 of face f"""
    from pyvc.arr import new, sym_array
    from pyvc.core import And, Sym, simp, zi
    from pyvc.verify import dim
    V.functions = ["UGrid.build_face_edge_connectivity", "UGrid.face_edge_connectivity (setter)"]
    V.assumes = ["scipy cKDTree.query: the row nearest to the query, so a row equal to the query if there is one",
                 "precondition: every edge of a face is among the edges, in either direction"]
    for m in (3, 4):
        def run(cx):
            g = _mesh(cx, V, m)
            ne = dim("ne", 1)
            e = sym_array("edge", (ne, 2), "i")
            g._edges = e
            at = z3.Function("EDGE", z3.IntSort(), z3.IntSort(), z3.IntSort())     # precondition: where an edge is listed

            class Tree:
                def __init__(self, rows):
                    self.r = rows.copy()
                    self.n = zi(rows.sshape[0])

                def query(self, pts):
                    a = pts.copy().reader()
                    row = self.r.reader()

                    def f(i):
                        q = (a((i[0], 0)).e, a((i[0], 1)).e)
                        r = z3.Function("NEAREST", *[z3.IntSort()] * 3)(*q)
                        t = at(*q)
                        hit = lambda t: And(t >= 0, t < self.n, row((t, 0)).e == q[0], row((t, 1)).e == q[1])
                        cx.fact(And(r >= 0, r < self.n, z3.Implies(hit(t), hit(r))))
                        return Sym("i", r)
                    return new((pts.sshape[0],), "f", lambda i: Sym("f", z3.RealVal(0))), new((pts.sshape[0],), "i", f)
            cx.ghost.update(KDTree=Tree, e=e, ne=ne, at=at)
            g.build_face_edge_connectivity()
            return g

        def post(V, p):
            cx = p.ctx
            q, s = cx.ghost, _Slots(cx)
            tag = f"{m} nodes per face"
            if p.outcome == "raise":
                V.prove(f"{tag}: no exception", False)
                return
            R = p.value.face_edge_connectivity
            V.prove(f"{tag}: shape", And(len(R.sshape) == 2, zi(R.sshape[0]) == zi(q["nf"]), zi(R.sshape[1]) == m))
            f, k = cx.fresh_index(q["nf"], "f").e, cx.fresh_index(q["ne"], "k").e
            for j in range(m):
                a, b = (simp(x) for x in s.key(f, z3.IntVal(j)))
                t = q["at"](a, b)
                E = lambda t: (q["e"].F(t, z3.IntVal(0)), q["e"].F(t, z3.IntVal(1)))
                pair = lambda t: z3.Or(And(E(t)[0] == a, E(t)[1] == b), And(E(t)[1] == a, E(t)[0] == b))
                cx.fact(And(t >= 0, t < zi(q["ne"]), pair(t)))
                r = R.at(f, j).e
                V.prove(f"{tag}: edge {j} of a face joins its nodes", And(r >= 0, r < zi(q["ne"]), pair(r)))
            V.prove(f"{tag}: edges unchanged", p.value.edges.at(k, 0).e == q["e"].F(k, z3.IntVal(0)))
            V.prove(f"{tag}: faces unchanged", p.value.faces.at(f, 1).e == q["F"].F(f, z3.IntVal(1)))
            V.cover(f"{tag}: reached")
        V.verify(run, post, None)


contract_neighbours_quads.thorough = True
CONTRACTS = [contract_neighbours_quads, contract_face_edges, contract_neighbours, contract_edges, contract_boundaries, contract_coordinates]
