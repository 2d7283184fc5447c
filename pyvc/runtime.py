"""Runtime support called from the transformed source of the code under verification."""
import builtins
import datetime as _dt

import numpy as _np
import z3

from . import arr as A
from . import ghost as G
from .arr import SArr, SList, SMa, Store, UniqSet, new, np_any, np_all, toarr, Tok
from .core import (And, Not, Sym, TRUE, Unsupported, conc_int, ctx, is_scalar, ite, lift, norm, scalar_op, simp, zadd,
                   zeq, zi, zlt, zsub)
from .symnp import sym_len


class Poison:
    """value of a variable assigned inside a symbolic loop, as seen by a later iteration or after the loop"""

    def _bad(self, *a, **k):
        raise Unsupported("loop-carried variable in a symbolic loop")

    __getattr__ = _bad
    for _n in ("__call__ __getitem__ __setitem__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ "
               "__rtruediv__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __bool__ __len__ __iter__ __hash__ __index__ "
               "__int__ __float__ __neg__ __iadd__ __contains__ __and__ __or__").split():
        locals()[_n] = _bad
    _is_symbolic = True


POISON = Poison()


class SymIter:
    """symbolic-length iterable: elements get(i), 0 <= i < dim"""
    _is_symbolic = True

    def __init__(self, dim, get):
        self.dim, self.get = dim, get

    def slen(self):
        return Sym("i", zi(self.dim))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic iterable")


def symdim(x):
    if isinstance(x, (SArr, SMa)):
        if x.sshape and conc_int(x.sshape[0]) is None:
            return x.sshape[0]
        return None
    if isinstance(x, (SymIter, SList)):
        return x.dim
    return None


def elem(x, i):
    if isinstance(x, (SymIter, SList)):
        return x.get(i)
    if isinstance(x, (SArr, SMa)):
        rd = x.data if isinstance(x, SMa) else x
        if len(x.sshape) == 1 and isinstance(x, SArr):
            return x.reader()((i,))
        return x[Sym("i", zi(i))]
    raise Unsupported("elem")


def is_symiter(x):
    return isinstance(x, (UniqSet, SymIter, SList)) or symdim(x) is not None


def vc_range(*a):
    if any(isinstance(x, Sym) and conc_int(x) is None for x in a):
        if len(a) == 3 and conc_int(a[2]) == 1:
            a = a[:2]
        if len(a) == 1:
            n = norm(zi(a[0]))
            lo = 0
        elif len(a) == 2:
            lo = norm(zi(a[0]))
            n = zsub(norm(zi(a[1])), lo)
        else:
            raise Unsupported("range step")
        if not isinstance(n, int) and not ctx().provable(zi(n) >= 0):
            n = norm(z3.If(zi(n) >= 0, zi(n), z3.IntVal(0)))
        return SymIter(n, lambda i: Sym("i", zi(zadd(lo, i))))
    return range(*[conc_int(x) if isinstance(x, Sym) else x for x in a])


def vc_enumerate(x, start=0):
    d = symdim(x)
    if d is not None:
        return SymIter(d, lambda i: (Sym("i", zi(zadd(i, start))), elem(x, i)))
    if isinstance(x, UniqSet):
        raise Unsupported("enumerate(unique)")
    return enumerate(x, start)


def vc_zip(*xs, **k):
    ds = [symdim(x) for x in xs]
    if any(d is not None for d in ds):
        d0 = None
        for x, d in zip(xs, ds):
            if d is None:
                raise Unsupported("zip of symbolic and concrete")
            if d0 is None:
                d0 = d
            elif not A.dim_eq(d0, d):
                raise Unsupported("zip of different lengths")
        return SymIter(d0, lambda i: tuple(elem(x, i) for x in xs))
    return zip(*xs, **k)


def vc_len(x):
    return sym_len(x)


def vc_any(x):
    if isinstance(x, (SArr, SMa)):
        if len(x.sshape) != 1:
            raise Unsupported("any() over rows")
        return bool(np_any(x))
    if isinstance(x, SList):
        return bool(np_any(x.to_array()))
    return any(x)


def vc_all(x):
    if isinstance(x, SMa) and x._mask is not None:
        return bool(np_all(x)) and not bool(np_any(x._mask))
    if isinstance(x, (SArr, SMa)):
        return bool(np_all(x))
    if isinstance(x, SList):
        return bool(np_all(x.to_array()))
    return all(x)


def vc_minmax(mode):
    real = builtins.min if mode == "min" else builtins.max

    def f(*a, **k):
        if not A.has_sym(a):
            return real(*a, **k)
        if k:
            raise Unsupported("min/max key")
        xs = a[0] if len(a) == 1 else a
        if isinstance(xs, (SArr, SMa)):
            return A.np_minmax(xs, mode)
        r = xs[0]
        for x in xs[1:]:
            r = scalar_op("minimum" if mode == "min" else "maximum", lift(r), lift(x))
        return r
    return f


def vc_sum(x, start=0):
    if isinstance(x, (SArr, SMa)):
        if conc_int(x.sshape[0]) is None:
            return A.np_sum(x, 0 if len(x.sshape) > 1 else None)
        return builtins.sum([e for e in x], start)
    if isinstance(x, SList):
        raise Unsupported("sum of symbolic list")
    return builtins.sum(x, start)


_KINDTYPES = {"i": (int,), "f": (float,), "b": (bool, int), "t": (_dt.datetime,), "d": (_dt.timedelta,)}


def vc_isinstance(o, c):
    if isinstance(o, Sym):
        cs = c if isinstance(c, tuple) else (c,)
        for x in cs:
            if isinstance(x, tuple):
                if vc_isinstance(o, x):
                    return True
                continue
            real = getattr(x, "_real_type", x)
            if real is object:
                return True
            if real in _KINDTYPES.get(o.kind, ()):
                return True
            if isinstance(real, type):
                nm = {"i": _np.integer, "f": _np.floating, "b": _np.bool_}.get(o.kind)
                if nm is not None and issubclass(real, _np.generic) and (issubclass(real, nm) or real is _np.number
                                                                         or real is _np.generic):
                    return True
                import numbers
                if o.kind in "if" and real in (numbers.Number, numbers.Real):
                    return True
        return False
    return isinstance(o, c)


def vc_int(x=0, *a):
    if isinstance(x, Sym):
        return A.cast(x, "i")
    if isinstance(x, SArr):
        return A.cast(x.item(), "i")
    return int(x, *a)


def vc_float(x=0.0):
    if isinstance(x, Sym):
        return A.cast(x, "f")
    if isinstance(x, SArr):
        return A.cast(x.item(), "f")
    return float(x)


def vc_str(*a, **k):
    if a and isinstance(a[0], (Sym, Tok)):
        return Tok("str", a[0])
    return str(*a, **k)


def vc_bool(x=False):
    return bool(x)


def vc_dict(*a, **k):
    if not a and not k and G.active():
        return G.GDict()
    return dict(*a, **k)


def vc_list(*a):
    if not a and G.active():
        return G.GList()
    if a and isinstance(a[0], G.GSet):
        return a[0].enum()
    if a and is_symiter(a[0]):
        x = a[0]
        if isinstance(x, UniqSet):
            return x
        return SList(symdim(x), lambda i: elem(x, i))
    return list(*a)


def vc_tuple(*a):
    if a and is_symiter(a[0]):
        raise Unsupported("tuple() of symbolic iterable")
    return tuple(*a)


def vc_set(*a):
    if not a and G.active():
        return G.GSet()
    if a and isinstance(a[0], (SArr, SMa)) and symdim(a[0]) is not None:
        u = A.np_unique(a[0])
        return u
    return set(*a)


def vc_sorted(x, **k):
    if isinstance(x, G.GSet) and not k:
        return x.enum()
    if isinstance(x, UniqSet) and not k:
        return x
    if is_symiter(x) or isinstance(x, (SArr, SMa)):
        raise Unsupported("sorted() of symbolic")
    return sorted(x, **k)


def vc_listcomp(it, f):
    if is_symiter(it):
        if isinstance(it, UniqSet):
            raise Unsupported("comprehension over unique set")
        return SList(symdim(it), lambda i: f(elem(it, i)))
    return [f(x) for x in it]


def vc_round(x, n=None):
    if isinstance(x, Sym):
        raise Unsupported("round")
    return round(x) if n is None else round(x, n)


# ------------------------------------------------------------------------ symbolic for loops
def vc_for(it, body, info):
    """`for e in <symbolic iterable>`: discharged with the disjoint-update loop rule (see DESIGN.md).

    For a loop over {value(i) : member(i)} whose iteration for element e only changes store rows i owned by e
    (value(i) == e, or i == e's index for index loops), the contents of row i after the loop equal the effect of
    the single owning iteration on the contents before the loop.  The frame condition is proved for a generic
    element; if it cannot be proved the loop is Unsupported.
    """
    cx = ctx()
    if info.get("impure"):
        raise Unsupported(f"symbolic loop with {info['impure']}")
    if info.get("calls") and not cx.ghost.get("invariants"):
        raise Unsupported(f"symbolic loop with {info['calls']}")
    if cx.ghost.get("invariants") and cx.ghost["invariants"][0] is not None and not cx.ghost.get("in_loop"):
        if symdim(it) is None:
            raise Unsupported("loop over a set")
        return G.invariant_loop(it, body, info, symdim(it), lambda i: elem(it, i))
    targets = []       # arrays the body assigns into: other elements may write where the generic one does not
    for b in info.get("bases", lambda: [])():
        if not isinstance(b, (SArr, SMa)):
            raise Unsupported("symbolic loop writes into a python container")
        if isinstance(b, SMa):
            targets += [b.data.store] + ([b._mask.store] if b._mask is not None else [])
        else:
            targets.append(b.store)
    if isinstance(it, UniqSet):
        dim = it.dim
        if it.masked:
            # a trailing masked entry may be present: iterate it too only if it exists
            if np.ma.masked in it:   # noqa
                raise Unsupported("iteration over the masked entry of unique()")
        member = lambda i: it.member((i,))
        value = lambda i: it.value((i,))
        owns = lambda i, jj, e: scalar_op("eq", it.value((i,)), e).e
        single = True
    else:
        dim = symdim(it)
        member = lambda i: TRUE
        value = lambda i: elem(it, i)
        owns = lambda i, jj, e: zi(i) == zi(jj)
        single = False
    # empty iterable?
    if not bool(A._exists((dim,), lambda i: member(i[0]), "loop_nonempty")):
        return
    ghost = cx.ghost
    depth = ghost.get("in_loop", 0)
    if depth:
        raise Unsupported("nested symbolic loops")
    # ---- generic iteration: discovers modified stores, checks frame, explores exceptions
    jj = cx.fresh("loop_j", "i").e
    cx.fact(And(jj >= 0, zlt(jj, dim), member(jj)))
    cx.index_term(dim, jj)
    if single:
        e = cx.fresh("loop_e", "i")
        cx.fact(scalar_op("eq", value(jj), e).e)
    else:
        e = value(jj)
    start = Store._n[0]
    pre = {}

    def run(element, contents=None):
        """run the body on `element`; contents: dict store->fn to start from; returns dict store->fn after"""
        saved_log = ghost.get("writelog")
        ghost["writelog"] = []
        ghost["in_loop"] = 1
        saved = {}
        try:
            if contents:
                for st, fn in contents.items():
                    saved[st] = (st.fn, st.memo, st.keep)
                    st.fn, st.memo, st.keep = fn, {}, []
            body(element() if element is not e and callable(element) else element)
            mod = {}
            for st, old in ghost["writelog"]:
                if st.sid <= start and st not in mod:
                    mod[st] = old
            after = {st: (st.fn, st.memo, st.keep) for st in set(mod) | set(saved)}
            return mod, after
        finally:
            for st, old in reversed(ghost["writelog"]):
                if st.sid <= start:
                    st.fn, st.memo, st.keep = old, {}, []
            for st, (fn, memo, keep) in saved.items():
                st.fn, st.memo, st.keep = fn, memo, keep
            ghost["writelog"] = saved_log
            ghost["in_loop"] = 0

    def havoc(st, own=None, base=None):
        nm = cx.fresh_name("havoc")
        sort = {"b": z3.BoolSort(), "i": z3.IntSort()}.get(st.kind, z3.RealSort())
        F = z3.Function(nm, *([z3.IntSort()] * len(st.shape)), sort)
        N = z3.Function(nm + "_nan", *([z3.IntSort()] * len(st.shape)), z3.BoolSort()) if st.kind == "f" else None

        pre0 = pre[st]

        def fn(b):
            zs = [zi(x) for x in b]
            h = Sym(st.kind, F(*zs), N(*zs) if N is not None else None)
            # invariant kept by every iteration: rows that belong to no element are as before the loop
            mem = member(b[0])
            if not z3.is_true(mem):
                h = ite(simp(And(zi(b[0]) >= 0, zlt(b[0], dim), mem)), h, pre0(b))
            if own is None:
                return h
            return ite(simp(zeq(b[0], own)), base(b), h)
        return fn

    mod, _ = run(e)
    for st in targets:
        if st not in mod and st.sid <= start and st.shape and (
                A._same(st.shape[0], norm(dim)) or cx.provable(zi(st.shape[0]) == zi(dim))):
            mod[st] = st.fn
    if not mod:
        return
    for st in mod:
        if not st.shape or not A._same(st.shape[0], norm(dim)) and not cx.provable(zi(st.shape[0]) == zi(dim)):
            raise Unsupported("symbolic loop updates an array not indexed by the loop domain")
    pre.update({st: st.snap() for st in mod})
    hv = {st: havoc(st) for st in mod}
    # the loop may iterate over an array that it writes: take the element from the current contents
    mod2, after = run(e if single else (lambda: value(jj)), hv)
    for st in mod2:
        if st not in hv:
            raise Unsupported("loop modifies further state")
    for st in mod:
        i = cx.fresh("frame_i", "i").e
        rest = tuple(cx.fresh("frame_r", "i").e for _ in st.shape[1:])
        b = (i,) + rest
        f2 = after[st][0]
        before, aft = hv[st](b), f2(b)
        same = scalar_op("eq", before, aft).e if before.kind != "f" else And(
            before.e == aft.e, (before.nan if before.nan is not None else False) ==
            (aft.nan if aft.nan is not None else z3.BoolVal(False)))
        foreign = And(i >= 0, zlt(i, dim), z3.Or(Not(member(i)), Not(owns(i, jj, e))))
        if not cx.provable(z3.Implies(foreign, same)):
            raise Unsupported("loop frame condition not provable")

    def install(st):
        base = pre[st]

        def final(b):
            i = b[0]
            if not cx.branch(And(zi(i) >= 0, zlt(i, dim), member(i))):
                return base(b)
            cont = {s: havoc(s, i, pre[s]) for s in mod}
            _, aft = run(lambda: value(i), cont)
            if st not in aft:
                return base(b)
            return aft[st][0](b)
        st.replace(final)
    for st in mod:
        install(st)


np = _np


class _MetaTD(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _dt.timedelta) or (isinstance(o, Sym) and o.kind == "d")

    def __getattr__(cls, n):
        return getattr(_dt.timedelta, n)


class timedelta(metaclass=_MetaTD):
    _real_type = _dt.timedelta

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not A.has_sym(args):
            return _dt.timedelta(*args)
        tot = lift(0.0)
        for v, w in zip(args, (86400, 1, 1e-6, 1e-3, 60, 3600, 604800)):
            if isinstance(v, (int, float)) and v == 0:
                continue
            tot = scalar_op("add", tot, scalar_op("mul", lift(v), lift(float(w))))
        return Sym("d", simp(A.toreal(tot)))


class FakeModule:
    pass


def builtins_dict(importer):
    d = dict(vars(builtins))
    d.update(print=lambda *a, **k: None, len=vc_len, any=vc_any, all=vc_all, range=vc_range, enumerate=vc_enumerate, zip=vc_zip,
             isinstance=vc_isinstance, min=vc_minmax("min"), max=vc_minmax("max"), sum=vc_sum, sorted=vc_sorted,
             round=vc_round, __import__=importer,
             __vc_for__=vc_for, __vc_symiter__=is_symiter, __vc_poison__=POISON, __vc_listcomp__=vc_listcomp,
             __vc_int__=vc_int, __vc_float__=vc_float, __vc_str__=vc_str, __vc_list__=vc_list, __vc_tuple__=vc_tuple,
             __vc_set__=vc_set, __vc_dict__=vc_dict)
    return d
