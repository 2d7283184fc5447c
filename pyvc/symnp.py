"""Shim modules seen by the code under verification in place of numpy, numpy.ma, hashlib ...

A call whose arguments are all concrete goes to the real numpy.  Calls with symbolic arguments go to the
implementations below; anything not modelled raises Unsupported (=> undecided, never an alarm).
The implementations are the *assumed contracts* of numpy.
"""
import types

import numpy as _np
import z3

from . import arr as A
from .arr import (SArr, SList, SMa, UniqSet, cast, elementwise, elementwise1, from_real, full, getitem, has_sym,
                  kind_of_dtype, mask_sel, new, np_all, np_any, np_argminmax, np_clip, np_mean, np_minmax, np_nonzero,
                  np_sum, np_take, np_unique, plain, prod, reshape, squeeze, toarr, ufunc2, unwrap0, bshape, breader,
                  raw_elementwise, dim_eq, _isone, _same)
from .core import (And, FALSE, Not, Or, Sym, TRUE, Unsupported, conc_int, ctx, is_scalar, ite, lift, norm, scalar_op,
                   simp, toreal, truth, zadd, zeq, zi, zle, zlt, zmul, zsub)


def _shape_arg(shape):
    if isinstance(shape, (Sym, int)) or hasattr(shape, "__index__"):
        return (shape,)
    return tuple(shape)


def _symshape(shape):
    return any(isinstance(d, Sym) and conc_int(d) is None for d in _shape_arg(shape))


def _symbolic_small():
    """contracts that store symbolic values into arrays of a fixed size ask for symbolic arrays of every size"""
    try:
        return ctx().ghost.get("symbolic_small", False)
    except Exception:
        return False


# ---------------------------------------------------------------- creation
def _creator(name, default):
    real = getattr(_np, name)

    def f(shape, *args, dtype=None, **kw):
        if name == "full":
            fv, args = args[0] if args else kw.pop("fill_value"), args[1:]
        if args:
            dtype = args[0]
        if not _symshape(shape) and not _symbolic_small() and not (name == "full" and has_sym(fv)):
            sh = tuple(int(d) for d in _shape_arg(shape))
            if name == "full":
                return real(sh, fv, dtype=dtype)
            if name == "empty":
                # contents of np.empty are arbitrary
                return _np.zeros(sh, dtype=dtype or float)
            return real(sh, dtype=dtype or float)
        k = kind_of_dtype(dtype) if dtype is not None else (None if name == "full" else "f")
        sh = _shape_arg(shape)
        if name == "full":
            a = toarr(fv)
            if a.ndim == 0 and A.narrow_of(dtype) is None:
                return full(sh, a.at(), k)
            rd = breader(a, A.ndshape(sh))
            nw = A.narrow_of(dtype)
            return new(sh, k or a.kind, lambda i: cast(rd(i), k or a.kind, nw), nw)
        if name == "empty":
            if k == "O":
                raise Unsupported("empty object array")
            cx = ctx()
            nm = cx.fresh_name("empty")
            r = A.sym_array(nm, A.ndshape(sh), k, nan=(k == "f"))
            r.store.narrow = A.narrow_of(dtype)
            return r
        r = full(sh, 0 if name == "zeros" else 1, k)
        r.store.narrow = A.narrow_of(dtype)
        return r
    return f


zeros = _creator("zeros", 0)
ones = _creator("ones", 1)
empty = _creator("empty", None)
full_ = _creator("full", None)


def _like(name):
    real = getattr(_np, name)

    def f(a, *args, dtype=None, **kw):
        if not has_sym(a) and not has_sym(args) and not has_sym(kw):
            if dtype is not None:
                kw["dtype"] = dtype
            return real(a, *args, **kw)
        if kw.get("shape") is not None:
            raise Unsupported("like shape")
        b = toarr(a)
        args = list(args)
        if name == "full_like":
            fv = args.pop(0) if args else kw["fill_value"]
        if args:
            dtype = args[0]
        k = kind_of_dtype(dtype) if dtype is not None else b.kind
        v = {"zeros_like": 0, "ones_like": 1, "empty_like": 0}.get(name)
        r = full(b.sshape, v if name != "full_like" else fv, k)
        r.store.narrow = A.narrow_of(dtype) if dtype is not None else getattr(getattr(b, "store", None), "narrow", None)
        if isinstance(b, SMa):
            return SMa(r, b._mask.copy() if b._mask is not None else None)
        return r
    return f


def _array(x, dtype=None, copy=None, order=None, subok=False, ndmin=0, keep_ma=False, **kw):
    if not has_sym(x):
        return None
    if isinstance(x, UniqSet):
        return x
    if not isinstance(x, (SArr, SMa, list, tuple, SList)) and not is_scalar(x) and not hasattr(x, "__sarr__"):
        raise Unsupported(f"array of {type(x)}")
    a = toarr(x)
    if isinstance(a, SMa) and not (subok or keep_ma):
        a = a.data
    k = kind_of_dtype(dtype) if dtype is not None else None
    if k is not None and k != "O" and (k != a.kind or (A.narrow_of(dtype) is not None and not isinstance(a, SMa)
                                                       and a.store.narrow is None)):
        return a.astype(dtype)
    if copy:
        return a.copy()
    return a


def array(x, dtype=None, copy=True, **kw):
    r = _array(x, dtype, copy if copy is not None else True, **kw)
    return _np.array(x, dtype=dtype, **kw) if r is None else r


def asarray(x, dtype=None, **kw):
    r = _array(x, dtype, False)
    return _np.asarray(x, dtype=dtype, **kw) if r is None else r


def asanyarray(x, dtype=None, **kw):
    r = _array(x, dtype, False, keep_ma=True)
    return _np.asanyarray(x, dtype=dtype, **kw) if r is None else r


def arange(*args, **kw):
    if not has_sym(args):
        return _np.arange(*args, **kw)
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    else:
        start, stop = args[:2]
        step = args[2] if len(args) > 2 else 1
    if conc_int(step) != 1:
        raise Unsupported("arange step")
    n = zsub(norm(zi(stop)), norm(zi(start)))
    if not isinstance(n, int) and not ctx().provable(zi(n) >= 0):
        n = norm(z3.If(zi(n) >= 0, zi(n), z3.IntVal(0)))
    r = new((n,), "i", lambda i: Sym("i", zi(zadd(norm(zi(start)), i[0]))))
    return r


# ---------------------------------------------------------------- generic wrappers
def sym_or_real(name, impl, real=None):
    real = real or getattr(_np, name)

    def f(*a, **k):
        if not has_sym(a) and not has_sym(k):
            return real(*a, **k)
        return impl(*a, **k)
    f.__name__ = name
    return f


class Ufunc:
    def __init__(self, name, op, nin):
        self.__name__ = name
        self.op, self.nin = op, nin
        self.real = getattr(_np, name)

    def __call__(self, *a, out=None, where=None, dtype=None, **k):
        if not has_sym(a):
            if out is not None:
                k["out"] = out
            if where is not None:
                k["where"] = where
            if dtype is not None:
                k["dtype"] = dtype
            return self.real(*a, **k)
        A._noopts(k, ("order", "subok", "casting"))
        if dtype is not None and kind_of_dtype(dtype) == "i":
            raise Unsupported("ufunc with integer dtype")
        if where is not None:
            raise Unsupported("ufunc where=")
        if self.nin == 1:
            r = elementwise1(self.op, a[0])
        else:
            r = ufunc2(self.op, a[0], a[1])
        if len(a) > self.nin:
            out = a[self.nin]
        if out is not None:
            A._assign(plain(out), plain(r))
            return out
        return r

    def reduce(self, *a, **k):
        if not has_sym(a):
            return self.real.reduce(*a, **k)
        raise Unsupported("ufunc.reduce")


def where(c, *xy):
    if not has_sym(c) and not has_sym(xy):
        return _np.where(c, *xy)
    if not xy:
        return np_nonzero(toarr(c))
    x, y = xy
    c, x, y = toarr(c), toarr(x), toarr(y)
    c, x, y = plain(c), plain(x), plain(y)   # np.where drops masks
    sh = bshape(c.sshape, x.sshape, y.sshape)
    rc, rx, ry = breader(c, sh), breader(x, sh), breader(y, sh)
    k = A.promote(x.kind, y.kind)
    return unwrap0(new(sh, k, lambda i: ite(truth(rc(i)).e, cast(rx(i), k), cast(ry(i), k))))


# ---------------------------------------------------------------- searching (library contracts)
def _sorted_dir(b, strict_needed=False):
    """'asc' / 'desc' if provably monotonic (1-d), else None"""
    cx = ctx()
    n = b.sshape[0]
    key = ("mono", id(b.store.fn), id(b.toB), len(cx.pc))
    if key in cx._memo:
        return cx._memo[key]
    rd = b.reader()
    i, j = cx.fresh("mi", "i").e, cx.fresh("mj", "i").e
    inb = And(i >= 0, i < j, zlt(j, n))
    x, y = rd((i,)), rd((j,))
    if cx.provable(z3.Implies(inb, scalar_op("le", x, y).e)):
        r = "asc"
    elif cx.provable(z3.Implies(inb, scalar_op("ge", x, y).e)):
        r = "desc"
    else:
        r = None
    cx._keep.append(b)
    cx._memo[key] = r
    return r


def _index_fn(name, nd):
    """the result of a search over an array is a function of the array index: reading an element twice gives one value"""
    return z3.Function(ctx().fresh_name(name), *([z3.IntSort()] * max(nd, 1)), z3.IntSort())


def _digit(x, brd, n, right, direction, d=None):
    """contract of np.digitize for one value: returns Sym int"""
    cx = ctx()
    d = cx.fresh("dig", "i").e if d is None else d
    cx.fact(And(d >= 0, zle(d, n)))
    lo, hi = brd((norm(d - 1),)), brd((norm(d),))
    x = cast(x, "f") if lift(x).kind in "ib" else lift(x)
    nan = x.nan if x.nan is not None else FALSE
    if direction == "asc":
        c1, c2 = ("lt", "le") if right else ("le", "lt")
        f = And(z3.Implies(d > 0, scalar_op(c1, lo, x).e), z3.Implies(zlt(d, n), scalar_op(c2, x, hi).e))
    else:
        # numpy: right=False : bins[i-1] > x >= bins[i];  right=True : bins[i-1] >= x > bins[i]
        c1, c2 = ("ge", "gt") if right else ("gt", "ge")
        f = And(z3.Implies(d > 0, scalar_op(c1, lo, x).e), z3.Implies(zlt(d, n), scalar_op(c2, x, hi).e))
    if not z3.is_false(nan):
        raise Unsupported("digitize of possibly-NaN values")
    cx.fact(f)
    return Sym("i", d)


def digitize(x, bins, right=False):
    if not has_sym(x) and not has_sym(bins):
        return _np.digitize(x, bins, right)
    b = plain(bins)
    if b.ndim != 1:
        raise ValueError("object of too small depth for desired array")
    dr = _sorted_dir(b)
    if dr is None:
        raise Unsupported("digitize with bins not provably monotonic")
    if dr == "desc" and not ctx().provable(zi(b.sshape[0]) >= 2):
        raise Unsupported("digitize: direction of a one-element bin array")
    right = bool(right)
    n = b.sshape[0]
    brd = b.reader()
    if is_scalar(x):
        return _digit(lift(x), brd, n, right, dr)
    xa = plain(x)
    xr = xa.reader()
    F = _index_fn("dig", len(xa.sshape))

    def fn(i):
        return _digit(xr(i), brd, n, right, dr, F(*[zi(q) for q in i]) if i else F(z3.IntVal(0)))
    return new(xa.sshape, "i", fn)   # Store memoises per index


def searchsorted(a, v, side="left", sorter=None):
    if not has_sym(a) and not has_sym(v):
        return _np.searchsorted(a, v, side=side, sorter=sorter)
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    b = plain(a)
    dr = _sorted_dir(b)
    n = b.sshape[0]
    brd = b.reader()

    def one(x, d=None):
        cx = ctx()
        d = cx.fresh("ss", "i").e if d is None else d
        cx.fact(And(d >= 0, zle(d, n)))
        if dr == "asc":
            lo, hi = brd((norm(d - 1),)), brd((norm(d),))
            c1, c2 = ("lt", "le") if side == "left" else ("le", "lt")
            cx.fact(And(z3.Implies(d > 0, scalar_op(c1, lo, x).e), z3.Implies(zlt(d, n), scalar_op(c2, x, hi).e)))
        return Sym("i", d)
    if is_scalar(v):
        return one(lift(v))
    va = plain(v)
    vr = va.reader()
    F = _index_fn("ss", len(va.sshape))
    return new(va.sshape, "i", lambda i: one(vr(i), F(*[zi(q) for q in i]) if i else F(z3.IntVal(0))))


class vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.f, self.excluded, self.signature = pyfunc, excluded or (), signature
        self.kw = dict(otypes=otypes, excluded=excluded, signature=signature)

    def __call__(self, *args, **kw):
        if not has_sym(args) and not has_sym(kw):
            f = self.f
            if f is digitize:
                f = _np.digitize
            return _np.vectorize(f, **{k: v for k, v in self.kw.items() if v is not None})(*args, **kw)
        if self.signature is None:
            arrs = [toarr(a) for a in args]
            sh = bshape(*[plain(a).sshape for a in arrs])
            rds = [breader(plain(a), sh) for a in arrs]
            return SList_nd(sh, lambda i: self.f(*[r(i) for r in rds], **kw))
        sig_in, sig_out = self.signature.replace(" ", "").split("->")
        parts = sig_in[1:-1].split("),(")
        if sig_out != "()":
            raise Unsupported("vectorize signature")
        arrs = [plain(a) for a in args]
        nd = [0 if p == "" else len(p.split(",")) for p in parts]
        outer = bshape(*[a.sshape[:a.ndim - d] for a, d in zip(arrs, nd)])

        def call(i):
            xs = []
            for a, d in zip(arrs, nd):
                o = a.sshape[:a.ndim - d]
                sub = tuple(0 if _isone(dd) and not _isone(oo) else ii
                            for ii, dd, oo in zip(i[len(outer) - len(o):], o, outer[len(outer) - len(o):]))
                if d == 0:
                    xs.append(a.reader()(sub))
                else:
                    rd = a.reader()
                    xs.append(new(a.sshape[a.ndim - d:], a.kind, (lambda rd, sub: lambda j: rd(sub + tuple(j)))(rd, sub)))
            return self.f(*xs, **kw)
        return SList_nd(outer, call)


def SList_nd(shape, call):
    """array whose entries are call(idx) (pure); kind from a generic index"""
    ks = tuple(ctx().fresh("vz", "i").e for _ in shape)
    v = lift(call(ks))
    return new(shape, v.kind, lambda i: cast(call(i), v.kind))


# ---------------------------------------------------------------- joining
def _join(arrs, axis, allow_ma):
    arrs = [toarr(a) for a in arrs]
    ma = any(isinstance(a, SMa) for a in arrs)
    ps = [plain(a) for a in arrs]
    nd = ps[0].ndim
    if any(p.ndim != nd for p in ps):
        raise ValueError("all the input array dimensions must match")
    axis = axis % nd
    kind = ps[0].kind
    for p in ps[1:]:
        kind = A.promote(kind, p.kind)
        for d in range(nd):
            if d != axis and not dim_eq(p.sshape[d], ps[0].sshape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs, tot = [], 0
    for p in ps:
        offs.append(tot)
        tot = zadd(tot, p.sshape[axis])
    sh = list(ps[0].sshape)
    sh[axis] = tot

    def mkfn(rds, k):
        def fn(i):
            x = i[axis]
            r = None
            for n in range(len(rds) - 1, -1, -1):
                lo = offs[n]
                end = zadd(lo, ps[n].sshape[axis])
                if isinstance(x, int) and isinstance(lo, int) and isinstance(end, int):
                    if lo <= x < end:
                        return cast(rds[n](tuple(i[:axis]) + (x - lo,) + tuple(i[axis + 1:])), k)
                    continue
                v = cast(rds[n](tuple(i[:axis]) + (zsub(x, lo),) + tuple(i[axis + 1:])), k)
                r = v if r is None else ite(simp(zlt(x, end)), v, r)
            return r
        return fn
    d = new(sh, kind, mkfn([p.reader() for p in ps], kind))
    if ma:
        if allow_ma:
            if any(A.getm(a) is not None for a in arrs):
                mr = [a.mreader() if isinstance(a, SMa) else (lambda i: lift(False)) for a in arrs]
                return SMa(d, new(sh, "b", mkfn(mr, "b")))
            return SMa(d, None)
        return SMa(d, None)   # np.concatenate on masked arrays loses masks
    return d


def concatenate(arrs, axis=0, **k):
    if has_sym(arrs):
        A._noopts(k)
    if not has_sym(arrs):
        return _np.concatenate(arrs, axis=axis, **k)
    if axis is None:
        arrs, axis = [reshape(toarr(a), (-1,)) for a in arrs], 0
    return _join(list(arrs), axis, False)


def _cols(arrs):
    out = []
    for a in arrs:
        a = toarr(a)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = getitem(a, (slice(None), None)) if not isinstance(a, SMa) else a[:, None]
        out.append(a)
    return out


def column_stack(arrs):
    if not has_sym(arrs):
        return _np.column_stack(arrs)
    return _join(_cols(arrs), 1, False)


def ma_column_stack(arrs):
    if isinstance(arrs, SList) or not has_sym(list(arrs)):
        if isinstance(arrs, SList):
            raise Unsupported("column_stack of symbolic list")
        return _np.ma.column_stack(arrs)
    r = _join(_cols(arrs), 1, True)
    return r if isinstance(r, SMa) else SMa(r, None)


def ma_concatenate(arrs, axis=0):
    if not has_sym(arrs):
        return _np.ma.concatenate(arrs, axis=axis)
    r = _join(list(arrs), axis, True)
    return r if isinstance(r, SMa) else SMa(r, None)


def stack(arrs, axis=0, **k):
    if has_sym(arrs):
        A._noopts(k)
    if not has_sym(arrs):
        return _np.stack(arrs, axis=axis, **k)
    arrs = [toarr(a) for a in arrs]
    nd = arrs[0].ndim + 1
    ax = axis % nd
    ex = [a[(slice(None),) * ax + (None,)] for a in arrs]
    return _join(ex, ax, False)


def vstack(arrs, **k):
    if has_sym(arrs):
        A._noopts(k)
    if not has_sym(arrs):
        return _np.vstack(arrs)
    out = []
    for a in arrs:
        a = toarr(a)
        out.append(a[None, :] if a.ndim == 1 else a)
    return _join(out, 0, False)


def dstack(arrs):
    if not has_sym(arrs):
        return _np.dstack(arrs)
    arrs = [plain(a) for a in arrs]
    if any(a.ndim != 2 for a in arrs):
        raise Unsupported("dstack of other than 2-D arrays")
    return stack(arrs, 2)


def roll(a, shift, axis=None):
    """along an axis of literal length"""
    if not has_sym(a):
        return _np.roll(a, shift, axis)
    b = toarr(a)
    if axis is None:
        if b.ndim != 1:
            raise Unsupported("roll of the flattened array")
        axis = 0
    if not isinstance(axis, int) or not isinstance(shift, int):
        raise Unsupported("roll along several or symbolic axes")
    axis %= b.ndim
    n = b.sshape[axis]
    if not isinstance(n, int):
        raise Unsupported("roll along an axis of symbolic length")
    s = shift % n if n else 0
    if s == 0:
        return b.copy()
    at = lambda sl: b[(slice(None),) * axis + (sl,)]
    return _join([at(slice(n - s, None)), at(slice(None, n - s))], axis, isinstance(b, SMa))


def sort_pairs(b):
    """ascending along the last axis, of length 2"""
    rd = b.copy().reader()
    ax = b.ndim - 1

    def fn(idx):
        x, y = rd(tuple(idx[:ax]) + (0,)), rd(tuple(idx[:ax]) + (1,))
        if b.kind not in ("i", "b"):
            raise Unsupported("sort of real pairs")      # nan order
        k = zi(idx[ax])
        return Sym(b.kind, z3.If((x.e > y.e) == (k == 0), y.e, x.e))
    return A.new(b.sshape, b.kind, fn)


def hstack(arrs, **k):
    if has_sym(arrs):
        A._noopts(k)
    if not has_sym(arrs):
        return _np.hstack(arrs)
    arrs = [toarr(a) for a in arrs]
    return _join(arrs, 0 if arrs[0].ndim == 1 else 1, False)


def append(a, v, axis=None):
    if not has_sym(a) and not has_sym(v):
        return _np.append(a, v, axis)
    if axis is None:
        return concatenate([toarr(a).ravel(), toarr(v).ravel() if not is_scalar(v) else toarr(v).reshape(1)], 0)
    return concatenate([a, v], axis)


def take_along_axis(a, idx, axis=-1):
    if not has_sym(a) and not has_sym(idx):
        return _np.take_along_axis(a, idx, axis)
    b, i = toarr(a), plain(idx)
    axis = axis % b.ndim

    def ta(x):
        x = plain(x)
        sh = list(x.sshape)
        for d in range(x.ndim):
            if d != axis:
                sh[d] = bshape((x.sshape[d],), (i.sshape[d],))[0]
        sh[axis] = i.sshape[axis]
        rd, ird = x.reader(), breader(i, tuple(sh))
        A._bounds(i, x.sshape[axis])

        def fn(t):
            v = ird(t)
            j = v.e
            if not i.tag.get("nonneg"):
                j = z3.If(j < 0, j + zi(x.sshape[axis]), j)
            out = list(t)
            out[axis] = norm(j)
            return rd(tuple(out))
        return new(tuple(sh), x.kind, fn)
    d = ta(b)
    if isinstance(b, SMa):
        return SMa(d, ta(b._mask) if b._mask is not None else None)
    return d


def ravel_multi_index(multi, dims, mode="raise", order="C"):
    if not has_sym(multi) and not has_sym(dims):
        return _np.ravel_multi_index(multi, dims, mode=mode)
    if isinstance(multi, (SArr, SMa)):
        parts = [toarr(multi)[i] for i in range(conc_int(multi.sshape[0]))]
    else:
        parts = [toarr(m) for m in multi]
    parts = [plain(p) for p in parts]
    dims = [norm(d) for d in dims]
    if len(parts) != len(dims):
        raise ValueError("parameter multi_index must be a sequence of length %d" % len(dims))
    sh = bshape(*[p.sshape for p in parts])
    rds = [breader(p, sh) for p in parts]
    if mode == "raise":
        for p, d in zip(parts, dims):
            A._bounds(p, d)
    elif mode not in ("clip", "wrap"):
        raise Unsupported("ravel_multi_index mode")

    def fn(i):
        f = 0
        for rd, d in zip(rds, dims):
            e = rd(i).e
            if mode == "clip":
                e = z3.If(e < 0, z3.IntVal(0), z3.If(e >= zi(d), zi(d) - 1, e))
            elif mode == "wrap":
                z = zi(d)
                e = z3.If(z3.And(e >= 0, e < z), e, z3.If(z3.And(e < 0, e >= -z), e + z,
                                                          z3.If(z3.And(e >= z, e < 2 * z), e - z, e % z)))
            f = zadd(zmul(f, d), norm(e))
        return Sym("i", zi(f))
    r = new(sh, "i", fn)
    # numpy keeps the class of the indices but not their mask
    return SMa(r, None) if isinstance(multi, SMa) else r


def indices(dimensions, dtype=int, sparse=False):
    if not has_sym(dimensions):
        return _np.indices(dimensions, dtype, sparse)
    dims = tuple(norm(d) for d in dimensions)
    if sparse:
        raise Unsupported("sparse indices")

    def fn(i):
        q = i[0]
        if isinstance(q, int):
            return Sym("i", zi(i[1 + q]))
        e = zi(i[len(dims)])
        for j in range(len(dims) - 2, -1, -1):
            e = z3.If(zi(q) == j, zi(i[1 + j]), e)
        return Sym("i", e)
    return new((len(dims),) + dims, "i", fn)


def unravel_index(ind, shape, order="C"):
    if not has_sym(ind) and not has_sym(shape):
        return _np.unravel_index(ind, shape, order)
    if len(shape) != 2:
        raise Unsupported("unravel_index")
    a = plain(toarr(ind))
    d = zi(norm(shape[1]))
    A._bounds(a, norm(zi(norm(shape[0])) * d)) if a.ndim else None
    rd = a.reader()
    out = []
    for q in (0, 1):
        out.append(new(a.sshape, "i", lambda i, q=q: Sym("i", A.int_divmod(rd(i).e, d)[q])))
    return tuple(out)


def dot(a, b, out=None):
    """matrix product with a literal inner dimension"""
    if not has_sym(a) and not has_sym(b):
        return _np.dot(a, b)
    a, b = toarr(a), toarr(b)
    if isinstance(a, SMa) or isinstance(b, SMa):
        a, b = plain(a), plain(b)
    if a.ndim not in (1, 2) or b.ndim not in (1, 2):
        raise Unsupported("dot")
    m = conc_int(a.sshape[-1])
    m2 = conc_int(b.sshape[0])
    if m is None or m2 is None:
        raise Unsupported("dot with a symbolic inner dimension")
    if m != m2:
        raise ValueError("shapes not aligned")
    ra, rb = a.reader(), b.reader()
    sa, sb = tuple(a.sshape[:-1]), tuple(b.sshape[1:])

    def fn(i):
        t = None
        for q in range(m):
            x = scalar_op("mul", ra(tuple(i[:len(sa)]) + (q,)), rb((q,) + tuple(i[len(sa):])))
            t = x if t is None else scalar_op("add", t, x)
        return t
    k = "f" if "f" in (a.kind, b.kind) else "i"
    r = new(sa + sb, k, fn)
    return r if r.ndim else r.at()


def tile(a, reps):
    if not has_sym(a):
        return _np.tile(a, reps)
    a = plain(a)
    r = conc_int(reps)
    if r is None or a.ndim != 1:
        raise Unsupported("tile")
    return _join([a] * r, 0, False)


def broadcast_to(a, shape, **k):
    A._noopts(k)
    if not has_sym(a) and not has_sym(shape):
        return _np.broadcast_to(a, shape)
    a = plain(a)
    sh = A.ndshape(_shape_arg(shape))
    b = bshape(a.sshape, sh)
    rd = breader(a, sh)
    return new(sh, a.kind, rd)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return _np.isclose(a, b, rtol, atol, equal_nan)
    a, b = toarr(a), toarr(b)
    diff = elementwise1("abs", ufunc2("sub", a, b))
    lim = ufunc2("add", atol, ufunc2("mul", rtol, elementwise1("abs", b)))
    return ufunc2("le", diff, lim)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return _np.allclose(a, b, rtol, atol, equal_nan)
    r = np_all(isclose(a, b, rtol, atol, equal_nan))
    return bool(r)


def array_equal(a, b, **k):
    if not has_sym(a) and not has_sym(b):
        return _np.array_equal(a, b, **k)
    a, b = plain(a), plain(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.sshape, b.sshape):
        if not dim_eq(x, y):
            return False
    return bool(np_all(toarr(raw_elementwise("eq", a, b))))


def sort(a, axis=-1, **k):
    if not has_sym(a):
        return _np.sort(a, axis=axis, **k)
    b = plain(a)
    if not k and axis in (-1, b.ndim - 1) and b.ndim >= 1 and isinstance(b.sshape[-1], int) and b.sshape[-1] == 2 and b.kind in "ib":
        return sort_pairs(b)
    if b.ndim != 1:
        raise Unsupported("sort nd")
    cx = ctx()
    nm = cx.fresh_name("sorted")
    # contract: ascending permutation of b.  If b is ascending the result is b itself; otherwise (there is a
    # descent) the result differs from b somewhere.
    n = b.sshape[0]
    rd = b.reader()
    i, j = cx.fresh("si", "i").e, cx.fresh("sj", "i").e
    desc = And(i >= 0, i < j, zlt(j, n), scalar_op("gt", rd((i,)), rd((j,))).e)
    if cx._check(desc) == z3.unsat:
        return b.copy()
    if cx.branch(cx.fresh("unsorted", "b").e):
        cx.add_pc(desc)
        cx.index_term(n, i)
        cx.index_term(n, j)
        if not cx.feasible(TRUE):
            from .core import Infeasible
            raise Infeasible()
        s = A.sym_array(nm, (n,), b.kind, axioms=[A.ascending(strict=False)])
        # the sorted array cannot coincide with b at both i and j
        s.reader()((i,)), s.reader()((j,))
        return s
    # sorted: pairwise fact over the used indices of the source
    cx.add_universal((n, n), lambda t: z3.Implies(zi(t[0]) < zi(t[1]),
                                                  scalar_op("le", rd((t[0],)), rd((t[1],))).e))
    cx.ghost.setdefault("sorted_stores", []).append((b, rd))
    return b.copy()


def diff(a, n=1, axis=-1, **k):
    if not has_sym(a):
        return _np.diff(a, n=n, axis=axis, **k)
    a = toarr(a)
    if n != 1:
        raise Unsupported("diff n")
    ax = axis % a.ndim
    lead = (slice(None),) * ax
    return a[lead + (slice(1, None),)] - a[lead + (slice(None, -1),)]


def sym_len(x):
    if isinstance(x, (SArr, SMa)):
        if not x.sshape:
            raise TypeError("len() of unsized object")
        d = x.sshape[0]
        return d if isinstance(d, int) else Sym("i", d)
    if hasattr(x, "slen"):
        return x.slen()
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType):       # a method of the code under contract: its answer may be symbolic
        n = f(x)
        return n if isinstance(n, Sym) else len(x)
    return len(x)


# ---------------------------------------------------------------- module objects
class _MetaND(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_np.ndarray, SArr, SMa))


class ndarray(metaclass=_MetaND):
    def __new__(cls, *a, **k):
        return _np.ndarray(*a, **k)


class _MetaMA(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_np.ma.MaskedArray, SMa))

    def __getattr__(cls, n):
        return getattr(_np.ma.MaskedArray, n)


class MaskedArray(metaclass=_MetaMA):
    def __new__(cls, data=None, mask=_np.ma.nomask, dtype=None, copy=False, fill_value=None, keep_mask=True,
                hard_mask=None, **kw):
        if not has_sym(data) and not has_sym(mask):
            return _np.ma.MaskedArray(data, mask=mask, dtype=dtype, copy=copy, fill_value=fill_value,
                                      keep_mask=keep_mask, hard_mask=hard_mask, **kw)
        d = toarr(data)
        dm = A.getm(d)
        hard = d._hard if isinstance(d, SMa) else False
        fv = d._fill if isinstance(d, SMa) else None
        d = plain(d)
        k = kind_of_dtype(dtype) if dtype is not None else None
        if k and k != d.kind:
            d = d.astype(dtype)
        elif copy:
            d = d.copy()
        if mask is _np.ma.nomask:
            m = dm
            if copy and m is not None:
                m = m.copy()
        else:
            if isinstance(mask, (bool, _np.bool_)) or (isinstance(mask, Sym)):
                m = full(d.sshape, mask)
            else:
                mm = plain(mask)
                if mm.ndim == d.ndim and all(dim_eq(x, y) for x, y in zip(mm.sshape, d.sshape)):
                    m = mm.astype(bool, copy=False) if mm.kind == "b" and not copy else mm.astype(bool)
                else:
                    bs = bshape(mm.sshape, d.sshape)
                    if len(bs) != d.ndim:
                        raise _np.ma.MaskError("Mask and data not compatible")
                    rd = breader(mm, d.sshape)
                    m = new(d.sshape, "b", lambda i: truth(rd(i)))
            if dm is not None and keep_mask:
                m = toarr(raw_elementwise("or", dm, m))
        if hard_mask is not None:
            hard = hard_mask
        return SMa(d, m, fill_value if fill_value is not None else fv, hard)


class Shim(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(self._real, n)
        if isinstance(v, type) or not callable(v):
            return v

        def guard(*a, **k):
            if has_sym(a) or has_sym(k):
                raise Unsupported(f"{self.__name__}.{n}")
            return v(*a, **k)
        guard.__name__ = n
        return guard


def _meth(name, real=None):
    def impl(a, *args, **k):
        return getattr(toarr(a), name)(*args, **k)
    return sym_or_real(name, impl, real)


def _is_masked(x):
    if not has_sym(x):
        return _np.ma.is_masked(x)
    if isinstance(x, SMa) and x._mask is not None:
        return bool(np_any(x._mask))
    return False


def _filled(a, fill_value=None):
    if not has_sym(a) and not has_sym(fill_value):
        return _np.ma.filled(a, fill_value)
    a = toarr(a)
    return a.filled(fill_value) if isinstance(a, SMa) else a


def _getmaskarray(a):
    if not has_sym(a):
        return _np.ma.getmaskarray(a)
    a = toarr(a)
    if isinstance(a, SMa) and a._mask is not None:
        return a._mask
    return full(a.sshape, False)


def _ma_creator(name):
    base = {"zeros": zeros, "ones": ones, "empty": empty}[name]
    real = getattr(_np.ma, name)

    def f(shape, dtype=float, **k):
        if not _symshape(shape):
            if name == "empty":
                return _np.ma.zeros(tuple(int(d) for d in _shape_arg(shape)), dtype=dtype)
            return real(tuple(int(d) for d in _shape_arg(shape)), dtype=dtype)
        return SMa(base(shape, dtype=dtype), None)
    return f


def _masked_all(shape, dtype=float):
    if not _symshape(shape):
        return _np.ma.masked_all(tuple(int(d) for d in _shape_arg(shape)), dtype)
    return SMa(empty(shape, dtype=dtype), full(_shape_arg(shape), True))


def _masked_where(cond, a, copy=True):
    if not has_sym(cond) and not has_sym(a):
        return _np.ma.masked_where(cond, a, copy)
    c = toarr(cond)
    cd = plain(c)
    a = toarr(a)
    r = SMa(plain(a).copy() if copy else plain(a), None, hard=getattr(a, "_hard", False))
    m = A._mask_or(A.getm(a), cd, a.sshape)
    r._mask = m
    return r


def _masked_cmp(op):
    def f(a, v, copy=True):
        return _masked_where(ufunc2(op, plain(a), v), a, copy)
    return f


def _masked_invalid(a, copy=True):
    if not has_sym(a):
        return _np.ma.masked_invalid(a, copy)
    a = toarr(a)
    return _masked_where(elementwise1("isnan", plain(a)), a, copy)


def _set_fill_value(a, v):
    if isinstance(a, (SMa,)):
        a._fill = v
    elif isinstance(a, _np.ndarray):
        _np.ma.set_fill_value(a, v)


def _ma_where(c, x=None, y=None):
    if not has_sym((c, x, y)):
        return _np.ma.where(c) if x is None else _np.ma.where(c, x, y)
    if x is None:
        return np_nonzero(toarr(c))
    def masked(v):
        """getmaskarray, and True for the constant numpy.ma.masked"""
        if v is _np.ma.masked:
            return True
        m = getattr(v, "_mask", None) if isinstance(v, SMa) else None
        if isinstance(v, _np.ma.MaskedArray):
            m = _np.ma.getmaskarray(v)
        return False if m is None else m

    def data(v, other):
        if v is _np.ma.masked:
            return data(other, 0.0)
        return v if not isinstance(v, (SMa, _np.ma.MaskedArray)) else plain(v)
    cd = _filled(c, False)
    xm, ym, cm = masked(x), masked(y), masked(c)
    d = where(cd, data(x, y), data(y, x))
    if xm is False and ym is False and cm is False:
        return SMa(toarr(d), None)
    m = where(cd, xm, ym)
    if cm is not False:
        m = where(cm, True, m)
    return SMa(toarr(d), toarr(m))


def build_ma():
    over = dict(
        MaskedArray=MaskedArray, masked_array=MaskedArray, isMaskedArray=lambda x: isinstance(x, MaskedArray),
        isMA=lambda x: isinstance(x, MaskedArray),
        is_masked=_is_masked, masked=_np.ma.masked, nomask=_np.ma.nomask, filled=_filled,
        zeros=_ma_creator("zeros"), ones=_ma_creator("ones"), empty=_ma_creator("empty"), masked_all=_masked_all,
        column_stack=ma_column_stack, concatenate=ma_concatenate, masked_where=_masked_where,
        masked_less=_masked_cmp("lt"), masked_greater=_masked_cmp("gt"), masked_equal=_masked_cmp("eq"),
        masked_invalid=_masked_invalid, set_fill_value=_set_fill_value, where=_ma_where,
        getmaskarray=_getmaskarray,
        getmask=lambda a: (a.mask if isinstance(a, SMa) else (_np.ma.nomask if has_sym(a) else _np.ma.getmask(a))),
        getdata=lambda a, subok=True: (plain(a) if has_sym(a) else _np.ma.getdata(a)),
        compressed=lambda a: (toarr(a).compressed() if has_sym(a) else _np.ma.compressed(a)),
        array=lambda data, dtype=None, copy=False, order=None, mask=_np.ma.nomask, fill_value=None, keep_mask=True,
        **k: MaskedArray(data, mask=mask, dtype=dtype, copy=copy, fill_value=fill_value, keep_mask=keep_mask, **k),
        asarray=lambda a, dtype=None, **k: MaskedArray(a, dtype=dtype) if has_sym(a) else _np.ma.asarray(a, dtype),
        sqrt=sym_or_real("sqrt", lambda a: elementwise1("sqrt", toarr(a) if isinstance(toarr(a), SMa) else SMa(toarr(a), None)), _np.ma.sqrt),
        hypot=lambda a, b: (ufunc2("hypot", a if isinstance(toarr(a), SMa) else SMa(toarr(a), None), b) if has_sym(a) or has_sym(b) else _np.ma.hypot(a, b)),
        take=sym_or_real("take", lambda a, i, axis=None, **k: np_take(
            a if isinstance(toarr(a), SMa) else SMa(toarr(a), None), i, axis), _np.ma.take),
        sum=sym_or_real("sum", np_sum, _np.ma.sum),
    )
    return Shim("numpy.ma", _np.ma, over)


def build_np():
    over = {}
    over.update(
        ndarray=ndarray, ma=build_ma(), zeros=zeros, ones=ones, empty=empty, full=full_,
        zeros_like=_like("zeros_like"), ones_like=_like("ones_like"), full_like=_like("full_like"),
        empty_like=_like("empty_like"), array=array, asarray=asarray, asanyarray=asanyarray,
        ascontiguousarray=asarray, arange=arange, where=where, digitize=digitize, searchsorted=searchsorted,
        vectorize=vectorize, concatenate=concatenate, column_stack=column_stack, stack=stack, dstack=dstack, roll=roll, vstack=vstack,
        hstack=hstack, append=append, take_along_axis=take_along_axis, ravel_multi_index=ravel_multi_index, tile=tile,
        indices=indices, unravel_index=unravel_index, dot=dot, matmul=dot,
        broadcast_to=broadcast_to, isclose=isclose, allclose=allclose, array_equal=array_equal, sort=sort, diff=diff,
        any=sym_or_real("any", np_any), all=sym_or_real("all", np_all), sum=sym_or_real("sum", np_sum),
        mean=sym_or_real("mean", np_mean),
        min=sym_or_real("min", lambda a, axis=None, **k: np_minmax(a, "min", axis, **k)),
        max=sym_or_real("max", lambda a, axis=None, **k: np_minmax(a, "max", axis, **k)),
        amin=sym_or_real("amin", lambda a, axis=None, **k: np_minmax(a, "min", axis, **k)),
        amax=sym_or_real("amax", lambda a, axis=None, **k: np_minmax(a, "max", axis, **k)),
        argmin=sym_or_real("argmin", lambda a, axis=None, **k: np_argminmax(a, "min", axis, **k)),
        argmax=sym_or_real("argmax", lambda a, axis=None, **k: np_argminmax(a, "max", axis, **k)),
        take=sym_or_real("take", np_take), clip=sym_or_real("clip", np_clip),
        nonzero=sym_or_real("nonzero", np_nonzero), unique=sym_or_real("unique", np_unique),
        flatnonzero=sym_or_real("flatnonzero", lambda a: np_nonzero(reshape(toarr(a), (-1,)))[0]),
        count_nonzero=sym_or_real("count_nonzero", lambda a: np_sum(toarr(a).astype(bool))),
        squeeze=sym_or_real("squeeze", lambda a, axis=None: squeeze(toarr(a), axis)),
        reshape=sym_or_real("reshape", lambda a, s, **k: reshape(toarr(a), s)),
        ravel=sym_or_real("ravel", lambda a, **k: toarr(a).ravel()),
        transpose=sym_or_real("transpose", lambda a, axes=None: toarr(a).transpose(*(axes or ()))),
        copy=sym_or_real("copy", lambda a, **k: plain(a).copy()),
        shape=sym_or_real("shape", lambda a: toarr(a).shape),
        ndim=sym_or_real("ndim", lambda a: toarr(a).ndim),
        size=sym_or_real("size", lambda a: toarr(a).size),
        expand_dims=sym_or_real("expand_dims", lambda a, axis: toarr(a)[(slice(None),) * (axis % (toarr(a).ndim + 1)) + (None,)]),
        atleast_1d=sym_or_real("atleast_1d", lambda a: toarr(a) if toarr(a).ndim else toarr(a).reshape(1)),
        flip=sym_or_real("flip", lambda a, axis=0: toarr(a)[(slice(None),) * axis + (slice(None, None, -1),)]),
        isscalar=lambda x: isinstance(x, Sym) or _np.isscalar(x),
        put=sym_or_real("put", lambda a, i, v, **k: a.put(i, v)),
    )
    for nm, op in dict(isnan="isnan", isinf="isinf", isfinite="isfinite", logical_not="logical_not", invert="invert",
                       sqrt="sqrt", abs="abs", absolute="abs", fabs="abs", negative="neg", sin="sin", cos="cos",
                       floor="floor", ceil="ceil", sign="sign", real="real", radians="radians", deg2rad="radians", degrees="degrees", rad2deg="degrees",
                       square="square").items():
        try:
            over[nm] = Ufunc(nm, op, 1)
        except AttributeError:
            pass
    for nm, op in dict(add="add", subtract="sub", multiply="mul", divide="div", true_divide="div", power="pow",
                       logical_and="logical_and", logical_or="logical_or", logical_xor="logical_xor",
                       bitwise_or="or", bitwise_and="and", bitwise_xor="xor", minimum="minimum", maximum="maximum",
                       equal="eq", not_equal="ne", less="lt", less_equal="le", greater="gt", greater_equal="ge",
                       mod="mod", floor_divide="floordiv", remainder="mod", arctan2="arctan2", hypot="hypot").items():
        over[nm] = Ufunc(nm, op, 2)
    return Shim("numpy", _np, over)
