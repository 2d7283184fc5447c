"""Symbolic python containers and loops discharged by a stated invariant.

A contract that needs them sets ctx.ghost["invariants"] = [...] (one per symbolic loop that changes a container, in the order
they are met) before it calls the code under test; empty dict / set / list literals and calls of that code then build the
containers below.
"""
import z3

from . import arr as A
from .arr import SList, SArr, SMa, new
from .core import PathDone, And, Not, Or, Sym, Unsupported, ctx, lift, simp, zi, zlt, zsub


def active():
    from . import core
    return core._ctx is not None and bool(core._ctx.ghost.get("invariants"))


def _key(k):
    if isinstance(k, tuple):
        return tuple(simp(zi(x)) for x in k)
    return (simp(zi(k)),)


def _eq(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def _wrap(v):
    return tuple(Sym("i", x) for x in v) if len(v) > 1 else Sym("i", v[0])


class _Ghost:
    _is_symbolic = True

    def __init__(self):
        ctx().ghost.setdefault("containers", []).append(self)
        self.changed = 0

    def __bool__(self):
        raise Unsupported("truth of a symbolic container")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic container")

    def __len__(self):
        raise Unsupported("len of a symbolic container")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"method {n} of a symbolic container")


class GDict(_Ghost):
    """finite map from tuples of integers to tuples of integers; has(key), val(key)"""

    def __init__(self):
        super().__init__()
        self.has, self.val, self.arity = (lambda k: z3.BoolVal(False)), None, None

    def havoc(self, ka, va, trigger=None):
        cx = ctx()
        nm = cx.fresh_name("dict")
        I = z3.IntSort()
        H = z3.Function(nm + "_has", *([I] * ka), z3.BoolSort())
        Vs = [z3.Function(f"{nm}_val{i}", *([I] * ka), I) for i in range(va)]
        seen = {}

        def touch(k):
            i = tuple(x.get_id() for x in k)
            if i not in seen:
                seen[i] = k
                if trigger is not None:
                    trigger(k)
        raw = lambda k: (H(*k), tuple(F(*k) for F in Vs))

        def has(k):
            touch(k)
            return H(*k)

        def val(k):
            touch(k)
            return tuple(F(*k) for F in Vs)
        self.has, self.val, self.raw = has, val, raw

    def _put(self, k, c, v):
        h0, v0 = self.has, self.val
        self.changed += 1
        self.has = lambda q: simp(Or(And(_eq(q, k), c), And(Not(_eq(q, k)), h0(q))))
        if v is not None:
            self.val = lambda q: v if v0 is None else tuple(simp(z3.If(_eq(q, k), a, b)) for a, b in zip(v, v0(q)))

    def _present(self, k):
        return ctx().branch(self.has(k))

    def __setitem__(self, k, v):
        v = tuple(simp(zi(x)) for x in v) if isinstance(v, tuple) else (simp(zi(v)),)
        self._put(_key(k), z3.BoolVal(True), v)

    def __contains__(self, k):
        return self._present(_key(k))

    def get(self, k, default=None):
        k = _key(k)
        return _wrap(self.val(k)) if self._present(k) else default

    def __getitem__(self, k):
        k = _key(k)
        if not self._present(k):
            raise KeyError(k)
        return _wrap(self.val(k))

    _none = object()

    def pop(self, k, default=_none):
        k = _key(k)
        if not self._present(k):
            if default is self._none:
                raise KeyError(k)
            return default
        r = _wrap(self.val(k))
        self._put(k, z3.BoolVal(False), None)
        return r

    def __delitem__(self, k):
        self.pop(k)


class GSet(_Ghost):
    """set of tuples of integers"""

    def __init__(self):
        super().__init__()
        self.has = lambda k: z3.BoolVal(False)

    def havoc(self, ka, trigger=None):
        cx = ctx()
        H = z3.Function(cx.fresh_name("set") + "_has", *([z3.IntSort()] * ka), z3.BoolSort())
        seen = {}

        def has(k):
            i = tuple(x.get_id() for x in k)
            if i not in seen:
                seen[i] = k
                if trigger is not None:
                    trigger(k)
            return H(*k)
        self.has, self.arity = has, ka

    def add(self, k):
        k = _key(k)
        h0 = self.has
        self.changed += 1
        self.has = lambda q: simp(Or(_eq(q, k), h0(q)))

    def __contains__(self, k):
        return ctx().branch(self.has(_key(k)))

    def enum(self):
        return GEnum(self)


class GEnum(SList):
    """the members of a set, each once, in some order"""

    def __init__(self, s):
        cx = ctx()
        I = z3.IntSort()
        nm = cx.fresh_name("enum")
        self.has, self.arity = s.has, s.arity
        self.cnt = z3.Int(nm + "_cnt")
        self.selF = [z3.Function(f"{nm}_{i}", I, I) for i in range(s.arity)]
        self.rankF = z3.Function(nm + "_rank", *([I] * s.arity), I)
        cx.fact(self.cnt >= 0)
        cx.ghost.setdefault("enums", []).append(self)
        self._d, self._k = {}, []
        SList.__init__(self, self.cnt, self.row)

    def at(self, p):
        p = simp(zi(p))
        k = tuple(F(p) for F in self.selF)
        if p.get_id() not in self._d:
            self._d[p.get_id()] = p
            ctx().fact(z3.Implies(And(p >= 0, p < self.cnt), And(self.has(k), self.rankF(*k) == p)))
        return k

    def rank(self, k):
        r = self.rankF(*k)
        ctx().fact(z3.Implies(self.has(k), And(r >= 0, r < self.cnt, *[F(r) == x for F, x in zip(self.selF, k)])))
        return r

    def row(self, p):
        return A.stack_list([Sym("i", x) for x in self.at(p)])


class GList(SList, _Ghost):
    """list of equal-length tuples of integers that is appended to"""

    def __init__(self):
        _Ghost.__init__(self)
        self.L, self.el, self.arity, self.added = z3.IntVal(0), None, None, []
        SList.__init__(self, None, self.row)

    @property
    def dim(self):
        return self.L

    @dim.setter
    def dim(self, v):
        pass

    def slen(self):
        return Sym("i", self.L)

    def havoc(self, ka, L, trigger=None):
        cx = ctx()
        nm = cx.fresh_name("list")
        Fs = [z3.Function(f"{nm}_{i}", z3.IntSort(), z3.IntSort()) for i in range(ka)]
        seen = {}

        def el(p):
            if p.get_id() not in seen:
                seen[p.get_id()] = p
                if trigger is not None:
                    trigger(p)
            return tuple(F(p) for F in Fs)
        self.L, self.el, self.arity, self.added = L, el, ka, []
        self.base = L

    def append(self, v):
        v = _key(tuple(v))
        e0, p = self.el, self.L
        self.changed += 1
        self.arity = len(v)
        self.added.append(v)
        self.L = simp(p + 1)
        self.el = lambda q: v if e0 is None else tuple(simp(z3.If(q == p, a, b)) for a, b in zip(v, e0(q)))

    def row(self, p):
        return A.stack_list([Sym("i", x) for x in self.el(simp(zi(p)))])

    def to_array(self):
        if self.el is None:
            import numpy as np
            return A.from_real(np.array([]))
        L, el = self.L, self.el

        def fn(i):
            v = el(simp(zi(i[0])))
            if isinstance(i[1], int):
                return Sym("i", v[i[1]])
            r = v[0]
            for c in range(1, len(v)):
                r = z3.If(zi(i[1]) == c, v[c], r)
            return Sym("i", r)
        return new((L, self.arity), "i", fn)


def havoc_array(st, trigger=None):
    """forget the contents of an integer array; trigger(idx) states what the invariant says about an element"""
    cx = ctx()
    F = z3.Function(cx.fresh_name("arr"), *([z3.IntSort()] * len(st.shape)), z3.IntSort())
    seen = {}

    def fn(b):
        b = tuple(simp(zi(x)) for x in b)
        k = tuple(x.get_id() for x in b)
        if k not in seen:
            seen[k] = b
            if trigger is not None:
                trigger(b)
        return Sym("i", F(*b))
    st.replace(fn)


def read(st, idx):
    return st.snap()(tuple(idx)).e


class State:
    """what a loop may change: the containers it was given and the arrays it assigns into"""

    def __init__(self, cx, info):
        cs = cx.ghost.get("containers", [])
        self.dicts = [c for c in cs if isinstance(c, GDict)]
        self.sets = [c for c in cs if isinstance(c, GSet)]
        self.lists = [c for c in cs if isinstance(c, GList)]
        self.arrays = []
        for b in info.get("bases", lambda: [])():
            if isinstance(b, SArr) and all(b.store is not a for a in self.arrays):
                self.arrays.append(b.store)


def invariant_loop(it, body, info, dim, elem):
    """Hoare rule: the invariant holds before the loop, every iteration keeps it, and after the loop it holds with all
    iterations done.  The three parts are separate paths."""
    cx = ctx()
    inv = cx.ghost["invariants"][0]
    st = State(cx, info)
    mode = cx.choose(3, "loop")
    if mode == 0:
        inv.prove(cx, st, z3.IntVal(0), "at the start")
        raise PathDone()
    names = [c for c in st.dicts + st.sets + st.lists]
    if mode == 2:
        inv.assume(cx, st, zi(dim))
        cx.fact(zi(dim) >= 0)
        cx.ghost["invariants"] = cx.ghost["invariants"][1:] or [None]
        cx.ghost["loops_done"] = cx.ghost.get("loops_done", 0) + 1
        return
    k = cx.fresh("loop_k", "i").e
    cx.fact(And(k >= 0, zlt(k, dim)))
    cx.index_term(dim, k)
    inv.assume(cx, st, k)
    saved = cx.ghost.get("writelog")
    cx.ghost["writelog"] = log = []
    start = A.Store._n[0]
    n0 = len(cx.ghost.get("containers", []))
    cx.ghost["in_loop"] = 1
    body(elem(k))
    cx.ghost["in_loop"] = 0
    cx.ghost["writelog"] = saved
    for s, _ in log:
        if s.sid <= start and all(s is not a for a in st.arrays):
            raise Unsupported("the loop changes further arrays")
    inv.prove(cx, st, k + 1, "after an iteration")
    raise PathDone()
