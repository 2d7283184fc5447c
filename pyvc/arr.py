"""Symbolic ndarray / MaskedArray with symbolic shapes.

An array is a (mutable) store holding a function  index-tuple -> Sym ; views map indices to the
base store, so in-place updates through views behave as in numpy.
"""
import numpy as _np
import z3

from .core import (And, FALSE, Not, Or, Sym, TRUE, Unsupported, UsedArray, conc_int, ctx, ite, lift, mk, norm,
                   realval, scalar_op, scalar_un, simp, toreal, truth, zadd, zeq, zi, zle, zlt, zmul, zsub, is_scalar)

_NPDT = {"b": _np.dtype(bool), "i": _np.dtype("int64"), "f": _np.dtype("float64"),
         "t": _np.dtype(object), "d": _np.dtype(object)}


def DT(kind):
    return _NPDT[kind]


def kind_of_dtype(dt):
    if dt is None:
        return None
    if dt is float or dt is int or dt is bool:
        return {float: "f", int: "i", bool: "b"}[dt]
    try:
        d = _np.dtype(dt)
    except TypeError:
        raise Unsupported(f"dtype {dt}")
    if d.kind == "f":
        return "f"
    if d.kind in "iu":
        return "i"
    if d.kind == "b":
        return "b"
    if d.kind == "O":
        return "O"
    raise Unsupported(f"dtype {dt}")


_R32 = {}


def narrow_of(dt):
    """None, or what storing into a type narrower than the mathematical one does to a value: 8- and 16-bit integers wrap
    around, single precision rounds to something unknown"""
    if dt is None or dt is float or dt is int or dt is bool:
        return None
    try:
        d = _np.dtype(dt)
    except TypeError:
        return None
    if d.kind in "iu" and d.itemsize <= 2:
        n = 1 << (8 * d.itemsize)
        lo = -(n >> 1) if d.kind == "i" else 0

        def wrap(s):
            if s.kind != "i":
                return s
            e = s.e
            if z3.is_int_value(e):
                return Sym("i", z3.IntVal((e.as_long() - lo) % n + lo))
            return Sym("i", z3.If(z3.And(e >= lo, e < lo + n), e, (e - lo) % n + lo))
        return wrap
    if d.kind == "f" and d.itemsize <= 4:
        f = _R32.setdefault(d.itemsize, z3.Function(f"round_f{d.itemsize}", z3.RealSort(), z3.RealSort()))

        def rnd(s):
            if s.kind != "f" or (z3.is_rational_value(s.e) and _np.dtype(d).type(float(s.e.as_fraction())) == s.e.as_fraction()):
                return s
            return Sym("f", f(s.e), s.nan)
        return rnd
    return None


def cast(s, kind, narrow=None):
    if narrow is not None:
        return narrow(cast(s, kind))
    s = lift(s)
    if kind is None or s.kind == kind or kind == "O":
        return s
    if kind == "f":
        if s.kind in "td":
            raise TypeError("float() argument must be a number")
        return Sym("f", toreal(s), s.nan)
    if kind == "i":
        if s.kind == "b":
            return Sym("i", zi(s))
        if s.kind == "f":
            e = s.e
            t = z3.ToInt(e)
            r = z3.If(e >= 0, t, z3.If(z3.ToReal(t) == e, t, t + 1))
            if s.nan is not None and not z3.is_false(s.nan):
                r = z3.If(s.nan, ctx().fresh("nan2int", "i").e, r)
            return Sym("i", simp(r))
    if kind == "b":
        return truth(s)
    raise Unsupported(f"cast {s.kind}->{kind}")


def promote(ka, kb):
    if ka == kb:
        return ka
    for k in "fi":
        if k in (ka, kb) and set((ka, kb)) <= set("bif"):
            return k
    raise Unsupported(f"promote {ka},{kb}")


def _key(idx):
    return tuple(x if isinstance(x, int) else ("z", x.get_id()) for x in idx)


class Store:
    __slots__ = ("fn", "kind", "shape", "writeable", "memo", "keep", "sid", "narrow")
    _n = [0]

    def __init__(self, fn, kind, shape):
        self.fn = fn
        self.kind = kind
        self.shape = shape
        self.writeable = True
        self.narrow = None
        self.memo = {}
        self.keep = []
        Store._n[0] += 1
        self.sid = Store._n[0]

    def snap(self):
        """immutable reader of the current contents"""
        fn, memo, keep, kind = self.fn, self.memo, self.keep, self.kind

        def read(idx):
            idx = tuple(norm(x) for x in idx)
            k = _key(idx)
            if k not in memo:
                keep.append(idx)
                memo[k] = fn(idx)
            return memo[k]
        return read

    def replace(self, fn):
        log = ctx().ghost.get("writelog")
        if log is not None:
            log.append((self, self.fn))
        self.fn = fn
        self.memo = {}
        self.keep = []


def _shape_syms(shape):
    return tuple(d if isinstance(d, int) else Sym("i", d) for d in shape)


def ndshape(shape):
    return tuple(norm(d) for d in shape)


def new(shape, kind, fn, narrow=None):
    shape = ndshape(shape)
    st = Store(fn, kind, shape)
    st.narrow = narrow
    return SArr(st, shape)


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    c = simp(zi(a) == zi(b))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if ctx().provable(c):
        return True
    return ctx().branch(c)


def prod(ds):
    r = 1
    for d in ds:
        r = zmul(r, d)
    return r


def _clip_index(i, n):
    """clip slice bound i (python int / z3) into 0..n"""
    cx = ctx()
    ci, cn = conc_int(i), conc_int(n)
    if ci is not None and cn is not None:
        if ci < 0:
            ci = max(ci + cn, 0)
        return min(ci, cn)
    if ci is not None:
        if ci == 0:
            return 0
        if ci < 0:
            e = zi(n) + ci
            if cx.provable(e >= 0):
                return norm(e)
            return norm(z3.If(e >= 0, e, z3.IntVal(0)))
        if cx.provable(zi(n) >= ci):
            return ci
        return norm(z3.If(zi(n) >= ci, z3.IntVal(ci), zi(n)))
    e = zi(i)
    if not cx.provable(e >= 0):
        e = z3.If(e < 0, z3.If(e + zi(n) >= 0, e + zi(n), z3.IntVal(0)), e)
    if cx.provable(e <= zi(n)):
        return norm(e)
    return norm(z3.If(e <= zi(n), e, zi(n)))


def _slice(sl, n):
    """-> (start, step, length) with python-int step"""
    step = 1 if sl.step is None else conc_int(sl.step)
    if step is None or step == 0:
        raise Unsupported("symbolic slice step")
    cn = conc_int(n)
    vals = [sl.start, sl.stop]
    if cn is not None and all(v is None or conc_int(v) is not None for v in vals):
        s = slice(*[None if v is None else conc_int(v) for v in vals], step)
        a, b, c = s.indices(cn)
        return a, c, len(range(a, b, c))
    if step == 1:
        a = 0 if sl.start is None else _clip_index(sl.start, n)
        b = n if sl.stop is None else _clip_index(sl.stop, n)
        ln = zsub(b, a)
        if not isinstance(ln, int) and not ctx().provable(zi(ln) >= 0):
            ln = norm(z3.If(zi(ln) >= 0, zi(ln), z3.IntVal(0)))
        elif isinstance(ln, int):
            ln = max(ln, 0)
        return a, 1, ln
    if step == -1 and sl.start is None and sl.stop is None:
        return zsub(n, 1), -1, n
    if step > 1 and sl.start is None and sl.stop is None:
        return 0, step, norm((zi(n) + (step - 1)) / step)
    raise Unsupported("slice")


def _norm_idx(i, n):
    """a scalar index into a dim: bounds check (IndexError path) and negative wrap"""
    ci, cn = conc_int(i), conc_int(n)
    if ci is not None and cn is not None:
        if not -cn <= ci < cn:
            raise IndexError(f"index {ci} is out of bounds for axis with size {cn}")
        return ci + cn if ci < 0 else ci
    e, m = zi(i), zi(n)
    if not ctx().branch(z3.And(e >= -m, e < m)):
        raise IndexError("index out of bounds")
    if ci is not None:
        return ci if ci >= 0 else norm(m + ci)
    if ctx().provable(e >= 0):
        return norm(e)
    return norm(z3.If(e < 0, e + m, e))


# --------------------------------------------------------------------------- boolean selections
class MaskSel:
    """the order-preserving enumeration of the True positions of a mask (dims = shape of the mask)"""

    flat = None             # the enumeration of the flattened mask, if that is in use too

    def __init__(self, fn, dims, expr):
        cx = ctx()
        self.fn = fn            # idx -> z3 Bool
        self.dims = dims
        self.expr = expr        # canonical form at placeholder index
        nm = cx.fresh_name("sel")
        self.cnt = z3.Int(nm + "_cnt")
        self.selF = [z3.Function(f"{nm}_{d}", z3.IntSort(), z3.IntSort()) for d in range(len(dims))]
        self.rankF = z3.Function(nm + "_rank", *([z3.IntSort()] * (len(dims) + 1)))
        tot = prod(dims)
        cx.fact(And(self.cnt >= 0, self.cnt <= zi(tot)))
        self._s = {}
        self._r = {}
        self._keep = []
        self._first()

    def _first(self):
        # cnt > 0 -> position 0 exists (gives models a witness)
        cx = ctx()
        idx = tuple(F(z3.IntVal(0)) for F in self.selF)
        cx.fact(z3.Implies(self.cnt > 0, And(*[And(i >= 0, zlt(i, d)) for i, d in zip(idx, self.dims)],
                                             self.fn(idx))))
        # no position is selected when cnt == 0
        cx.add_universal(self.dims, lambda t: z3.Implies(self.fn(tuple(t)), self.cnt > 0))

    def sel(self, j):
        j = norm(j)
        if not isinstance(j, int) and z3.is_app(j) and j.num_args() and j.decl().eq(self.rankF):
            return tuple(norm(a) for a in j.children())
        k = _key((j,))
        if k not in self._s:
            zj = zi(j)
            idx = tuple(F(zj) for F in self.selF)
            self._keep.append(zj)
            self._s[k] = idx
            cx = ctx()
            cx.fact(z3.Implies(z3.And(zj >= 0, zj < self.cnt),
                               And(*[And(i >= 0, zlt(i, d)) for i, d in zip(idx, self.dims)], self.fn(idx),
                                   self.rankF(*idx) == zj)))
        return self._s[k]

    def rank(self, idx):
        idx = tuple(norm(i) for i in idx)
        if len(idx) == 1 and not isinstance(idx[0], int) and z3.is_app(idx[0]) and idx[0].num_args() \
                and idx[0].decl().eq(self.selF[0]):
            return norm(idx[0].arg(0))
        k = _key(idx)
        if k not in self._r:
            zs = [zi(i) for i in idx]
            r = self.rankF(*zs)
            self._keep.append(zs)
            self._r[k] = r
            inb = And(*[And(z >= 0, zlt(z, d)) for z, d in zip(zs, self.dims)])
            if self.flat is not None:
                ctx().fact(z3.Implies(And(inb, self.fn(tuple(idx))), r == self.flat.rank((zs[0] * zi(self.dims[1]) + zs[1],))))
            ctx().fact(z3.Implies(And(inb, self.fn(tuple(idx))), z3.And(
                r >= 0, r < self.cnt, *[F(r) == z for F, z in zip(self.selF, zs)])))
        return self._r[k]


def _placeholders(n):
    return tuple(z3.Int(f"__ph{i}") for i in range(n))


def mask_sel(m):
    """m: SArr kind b"""
    cx = ctx()
    rd = m.reader()
    dims = m.sshape

    def fn(idx):
        return truth(rd(idx)).e
    ph = _placeholders(len(dims))
    expr = simp(fn(ph))
    reg = cx.ghost.setdefault("masksels", [])
    same = [s for s in reg if len(s.dims) == len(dims) and all(_same(a, b) for a, b in zip(s.dims, dims))]
    for s in same:
        if s.expr.eq(expr):
            return s
    for s in same:
        kk = tuple(cx.fresh("mq", "i").e for d in dims)
        inb = And(*[And(k >= 0, zlt(k, d)) for k, d in zip(kk, dims)])
        if cx.provable(z3.Implies(inb, s.fn(kk) == fn(kk))):
            return s
    s = MaskSel(fn, dims, expr)
    # the same mask, flattened (or unflattened): as many positions, enumerated in the same order
    for o in reg:
        flat, nd = (s, o) if len(dims) == 1 else (o, s)
        if len(flat.dims) != 1 or len(nd.dims) != 2:
            continue
        if not cx.provable(zi(flat.dims[0]) == zi(prod(nd.dims))):
            continue
        kk = tuple(cx.fresh("mq", "i").e for d in nd.dims)
        inb = And(*[And(k >= 0, zlt(k, d)) for k, d in zip(kk, nd.dims)])
        if not all(cx.provable(zi(d) > 0) for d in nd.dims):
            continue
        cx.fact(inb)          # fresh constants; the index range is not empty
        if cx.provable(flat.fn((zi(kk[0]) * zi(nd.dims[1]) + kk[1],)) == nd.fn(kk)):
            cx.fact(flat.cnt == nd.cnt)
            nd.flat = flat
            break
    reg.append(s)
    return s


def _same(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


# --------------------------------------------------------------------------- SArr
def arraylike(x):
    return isinstance(x, (SArr, SMa, _np.ndarray, list, tuple))


def has_sym(x):
    if isinstance(x, (Sym, SArr, SMa, UniqSet, SList)):
        return True
    if isinstance(x, (list, tuple, set)):
        return any(has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    if isinstance(x, slice):
        return has_sym(x.start) or has_sym(x.stop) or has_sym(x.step)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return any(has_sym(y) for y in x.ravel())
    return bool(getattr(x, "_is_symbolic", False))


class SArr:
    _is_sarr = True
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, store, shape, toB=None, fromB=None, tag=None):
        self.store = store
        self.sshape = ndshape(shape)
        self.toB = toB
        self.fromB = fromB
        self.tag = tag or {}

    # ---- reading
    def reader(self):
        rd = self.store.snap()
        if self.toB is None:
            return rd
        toB = self.toB
        return lambda idx: rd(toB(idx))

    def at(self, *idx):
        return self.reader()(tuple(norm(i) for i in idx))

    @property
    def kind(self):
        return self.store.kind

    @property
    def dtype(self):
        return DT(self.kind)

    @property
    def shape(self):
        return _shape_syms(self.sshape)

    @shape.setter
    def shape(self, shp):
        r = reshape(self, shp)
        self.sshape, self.toB, self.fromB = r.sshape, r.toB, r.fromB

    @property
    def ndim(self):
        return len(self.sshape)

    @property
    def size(self):
        p = prod(self.sshape)
        return p if isinstance(p, int) else Sym("i", p)

    @property
    def flags(self):
        st = self.store

        class F:
            writeable = st.writeable
        return F()

    def setflags(self, write=None, **kw):
        if write is not None:
            if write is False:
                self.ro = True
                self.store.writeable = False
            else:
                self.store.writeable = True

    def __len__(self):
        n = conc_int(self.sshape[0])
        if n is None:
            raise Unsupported("len() of a symbolic-length array via C API")
        return n

    def __iter__(self):
        n = conc_int(self.sshape[0]) if self.sshape else None
        if n is None:
            raise Unsupported("native iteration over symbolic-length array")
        for i in range(n):
            yield self[i]

    def __contains__(self, x):
        return bool(np_any(elementwise("eq", self, x)))

    def __bool__(self):
        if all(conc_int(d) == 1 for d in self.sshape):
            return bool(self.at(*([0] * self.ndim)))
        p = prod(self.sshape)
        if ctx().branch(zi(p) == 1):
            return bool(self.at(*([0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<SArr {self.kind} {self.sshape}>"

    def __format__(self, s):
        return repr(self)

    # ---- views
    def view_of(self, shape, toV, fromV):
        """toV: new idx -> self idx ; fromV: self idx -> (cond, new idx)"""
        if self.toB is None:
            return SArr(self.store, shape, toV, fromV)
        t0, f0 = self.toB, self.fromB

        def toB(idx):
            return t0(toV(idx))

        def fromB(b):
            c, v = f0(b)
            c2, w = fromV(v)
            return And(c, c2), w
        return SArr(self.store, shape, toB, fromB)

    def view(self, *a, **k):
        if a and a[0] is not None and not isinstance(a[0], type):
            raise Unsupported("view dtype")
        return self.view_of(self.sshape, lambda i: i, lambda i: (TRUE, i))

    def copy(self, *a, **k):
        rd = self.reader()
        return new(self.sshape, self.kind, rd, self.store.narrow)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def sort(self, axis=-1, **k):
        from .symnp import sort
        setitem(self, Ellipsis, sort(self, axis, **k))

    def _write(self, cond, val):
        """cond(idx)->z3 Bool, val(idx)->Sym over self's index space"""
        if not self.store.writeable or getattr(self, "ro", False):
            raise ValueError("assignment destination is read-only")
        old = self.store.snap()
        kind, narrow = self.store.kind, self.store.narrow
        fromB = self.fromB

        def fn(b):
            if fromB is None:
                c, v = TRUE, b
            else:
                c, v = fromB(b)
            c = And(c, cond(v))
            c = simp(c) if not (z3.is_true(c) or z3.is_false(c)) else c
            if z3.is_false(c):
                return old(b)
            return ite(c, cast(val(v), kind, narrow), old(b))
        self.store.replace(fn)

    # ---- methods
    def astype(self, dt, copy=True, **kw):
        k = kind_of_dtype(dt)
        nw = narrow_of(dt)
        if k == "O" or (k == self.kind and not copy and nw is None):
            return self.copy() if copy else self
        rd = self.reader()
        return new(self.sshape, k, lambda i: cast(rd(i), k, nw), nw)

    def reshape(self, *shp, **kw):
        if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        return reshape(self, shp)

    def ravel(self, *a, **k):
        return reshape(self, (-1,))

    def flatten(self, *a, **k):
        return reshape(self, (-1,)).copy()

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a % self.ndim for a in axes)
        inv = [axes.index(i) for i in range(self.ndim)]
        return self.view_of(tuple(self.sshape[a] for a in axes),
                            lambda idx: tuple(idx[inv[i]] for i in range(len(idx))),
                            lambda b: (TRUE, tuple(b[a] for a in axes)))

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def fill(self, v):
        v = lift(v)
        self._write(lambda i: TRUE, lambda i: v)

    def put(self, indices, values, mode="raise"):
        put(self, indices, values)

    def any(self, axis=None, **k): return np_any(self, axis, **k)
    def all(self, axis=None, **k): return np_all(self, axis, **k)
    def sum(self, axis=None, **k): return np_sum(self, axis, **k)
    def mean(self, axis=None, **k): return np_mean(self, axis, **k)
    def min(self, axis=None, **k): return np_minmax(self, "min", axis, **k)
    def max(self, axis=None, **k): return np_minmax(self, "max", axis, **k)
    def argmin(self, axis=None, **k): return np_argminmax(self, "min", axis)
    def argmax(self, axis=None, **k): return np_argminmax(self, "max", axis)
    def take(self, ind, axis=None, **k): return np_take(self, ind, axis=axis)
    def clip(self, lo=None, hi=None, **k): return np_clip(self, lo, hi)
    def nonzero(self): return np_nonzero(self)
    def tobytes(self): return Tok("bytes", self.copy())
    def item(self, *a):
        if all(conc_int(d) == 1 for d in self.sshape):
            return self.at(*([0] * self.ndim))
        raise Unsupported("item")
    def tolist(self):
        if self.ndim == 0:
            return self.at()
        n = conc_int(self.sshape[0])
        if n is None:
            raise Unsupported("tolist")
        return [self[i].tolist() if self.ndim > 1 else self.at(i) for i in range(n)]

    def filled(self, *a):
        raise AttributeError("'numpy.ndarray' object has no attribute 'filled'")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(_np.ndarray, name):
            raise Unsupported(f"ndarray.{name}")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")

    # ---- operators
    def _b(self, o, op, rev=False):
        if isinstance(o, SMa) and not isinstance(self, SMa):
            return NotImplemented if not rev else elementwise(op, o, self)
        if not (is_scalar(o) or arraylike(o)):
            return NotImplemented
        return elementwise(op, o, self) if rev else elementwise(op, self, o)

    def _ib(self, o, op):
        r = elementwise(op, self, o)
        if isinstance(r, SMa):
            r = r.data
        if len(r.sshape) != len(self.sshape) or not all(dim_eq(a, b) for a, b in zip(r.sshape, self.sshape)):
            raise ValueError("non-broadcastable output operand")
        if self.kind == "i" and r.kind == "f" or self.kind == "b" and r.kind in "if":
            raise TypeError("Cannot cast ufunc output")   # numpy UFuncTypeError
        rd = r.reader()
        self._write(lambda i: TRUE, rd)
        return self

    def __add__(s, o): return s._b(o, "add")
    def __radd__(s, o): return s._b(o, "add", True)
    def __sub__(s, o): return s._b(o, "sub")
    def __rsub__(s, o): return s._b(o, "sub", True)
    def __mul__(s, o): return s._b(o, "mul")
    def __rmul__(s, o): return s._b(o, "mul", True)
    def __truediv__(s, o): return s._b(o, "div")
    def __rtruediv__(s, o): return s._b(o, "div", True)
    def __floordiv__(s, o): return s._b(o, "floordiv")
    def __mod__(s, o): return s._b(o, "mod")
    def __pow__(s, o): return s._b(o, "pow")
    def __and__(s, o): return s._b(o, "and")
    def __rand__(s, o): return s._b(o, "and", True)
    def __or__(s, o): return s._b(o, "or")
    def __ror__(s, o): return s._b(o, "or", True)
    def __xor__(s, o): return s._b(o, "xor")
    def __eq__(s, o): return s._b(o, "eq")
    def __ne__(s, o): return s._b(o, "ne")
    def __lt__(s, o): return s._b(o, "lt")
    def __le__(s, o): return s._b(o, "le")
    def __gt__(s, o): return s._b(o, "gt")
    def __ge__(s, o): return s._b(o, "ge")
    def __neg__(s): return elementwise1("neg", s)
    def __abs__(s): return elementwise1("abs", s)
    def __invert__(s): return elementwise1("invert", s)
    def __iadd__(s, o): return s._ib(o, "add")
    def __isub__(s, o): return s._ib(o, "sub")
    def __imul__(s, o): return s._ib(o, "mul")
    def __itruediv__(s, o): return s._ib(o, "div")
    def __ior__(s, o): return s._ib(o, "or")
    def __iand__(s, o): return s._ib(o, "and")


def from_real(a):
    """real (concrete) ndarray -> SArr"""
    a = _np.asarray(a)
    if a.dtype.kind == "O":
        items = {}
        kinds = set()
        for i in _np.ndindex(*a.shape):
            v = a[i]
            if isinstance(v, (SArr, SMa)):
                raise Unsupported("object array of arrays")
            items[i] = lift(v)
            kinds.add(items[i].kind)
        if len(kinds) > 1:
            if kinds <= set("bif"):
                k = "f" if "f" in kinds else "i"
                items = {i: cast(v, k) for i, v in items.items()}
                kinds = {k}
            else:
                raise Unsupported("mixed object array")
        kind = kinds.pop() if kinds else "f"
    elif a.dtype.kind in "biuf":
        items = {i: lift(a[i].item()) for i in _np.ndindex(*a.shape)}
        kind = {"b": "b", "i": "i", "u": "i", "f": "f"}[a.dtype.kind]
    else:
        raise Unsupported(f"dtype {a.dtype}")
    return new(a.shape, kind, lambda idx: _pick(items, a.shape, idx))


def _pick(items, shape, idx):
    if all(isinstance(i, int) for i in idx):
        if idx in items:
            return items[idx]
        return next(iter(items.values())) if items else lift(0)
    r = None
    for i in _np.ndindex(*shape):
        v = items[i]
        if r is None:
            r = v
            continue
        c = And(*[zeq(a, b) for a, b in zip(idx, i)])
        r = ite(simp(c), v, r)
    if r is None:
        return lift(0)
    return r


def toarr(x):
    """anything array-like -> SArr or SMa"""
    if isinstance(x, (SArr, SMa)):
        return x
    if isinstance(x, SList):
        return x.to_array()
    if isinstance(x, UniqSet):
        raise Unsupported("unique set used as an array")
    if is_scalar(x):
        s = lift(x)
        return new((), s.kind, lambda i: s)
    if isinstance(x, _np.ma.MaskedArray):
        m = x.mask
        d = from_real(x.data)
        if m is _np.ma.nomask:
            return SMa(d, None)
        return SMa(d, from_real(_np.array(m)))
    if isinstance(x, _np.ndarray):
        return from_real(x)
    if isinstance(x, (list, tuple)):
        return stack_list(x)
    if hasattr(x, "__sarr__"):
        return x.__sarr__()
    raise Unsupported(f"toarr {type(x)}")


def plain(x):
    """SArr of data (dropping any mask)"""
    a = toarr(x)
    return a.data if isinstance(a, SMa) else a


def stack_list(xs):
    xs = list(xs)
    if not xs:
        return from_real(_np.zeros((0,)))
    if any(isinstance(x, str) for x in xs):
        raise Unsupported("string array")
    items = [plain(x) for x in xs]
    sh = items[0].sshape
    kind = items[0].kind
    for it in items[1:]:
        if len(it.sshape) != len(sh) or not all(dim_eq(a, b) for a, b in zip(it.sshape, sh)):
            raise ValueError("inhomogeneous shape")
        kind = promote(kind, it.kind)
    rds = [it.reader() for it in items]

    def fn(idx):
        i, rest = idx[0], tuple(idx[1:])
        if isinstance(i, int):
            return cast(rds[i](rest), kind)
        r = cast(rds[0](rest), kind)
        for j in range(1, len(rds)):
            r = ite(zi(i) == j, cast(rds[j](rest), kind), r)
        return r
    return new((len(items),) + tuple(sh), kind, fn)


# --------------------------------------------------------------------------- broadcasting
def bshape(*shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if _isone(x):
                continue
            if _isone(cur):
                cur = x
                continue
            if _same(cur, x):
                continue
            if not dim_eq(cur, x):
                # one of them might be 1
                if ctx().branch(zi(x) == 1):
                    continue
                if ctx().branch(zi(cur) == 1):
                    cur = x
                    continue
                raise ValueError("operands could not be broadcast together")
            if isinstance(x, int):
                cur = x
        out.append(cur)
    return tuple(out)


def _isone(d):
    return isinstance(d, int) and d == 1


def breader(a, shape):
    """reader of `a` broadcast to shape"""
    rd = a.reader()
    s = a.sshape
    off = len(shape) - len(s)
    ones = []
    for i, d in enumerate(s):
        if isinstance(d, int):
            ones.append(d == 1)
        else:
            t = shape[i + off]
            ones.append(False if _same(d, t) else (None if not ctx().provable(zi(d) == zi(t)) else False))
    if all(o is False for o in ones) and off == 0:
        return rd

    def fn(idx):
        out = []
        for i, o in enumerate(ones):
            if o is True:
                out.append(0)
            elif o is False:
                out.append(idx[i + off])
            else:
                out.append(norm(z3.If(zi(s[i]) == 1, z3.IntVal(0), zi(idx[i + off]))))
        return rd(tuple(out))
    return fn


_BOOLOPS = {"eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_or", "logical_xor", "isclose"}


def _rkind(op, ka, kb):
    if op in _BOOLOPS:
        return "b"
    if ka in "td" or kb in "td":
        if op == "sub" and ka == "t" and kb == "t":
            return "d"
        if op in ("add", "sub") and "t" in (ka, kb):
            return "t"
        if op == "div" and (ka, kb) == ("d", "d"):
            return "f"
        if op in ("add", "sub", "mul"):
            if op in ("add", "sub") and (ka in "bif" or kb in "bif"):
                raise TypeError(f"unsupported operand type(s) for {op}")
            return "d"
        raise Unsupported("time op")
    if op in ("div", "arctan2", "hypot"):
        return "f"
    if op in ("and", "or", "xor"):
        if ka == kb == "b":
            return "b"
        raise Unsupported("bitwise int")
    k = promote(ka, kb)
    if k == "b" and op == "sub":
        raise TypeError("numpy boolean subtract")
    if k == "b" and op in ("floordiv", "mod", "pow"):
        return "i"
    return k


def raw_elementwise(op, a, b):
    """ndarray semantics on SArr"""
    a, b = toarr(a), toarr(b)
    shape = bshape(a.sshape, b.sshape)
    ra, rb = breader(a, shape), breader(b, shape)
    kind = _rkind(op, a.kind, b.kind)
    r = new(shape, kind, lambda i: cast(scalar_op(op, ra(i), rb(i)), kind))
    return unwrap0(r)


def unwrap0(r):
    if isinstance(r, SArr) and r.ndim == 0:
        return r.at()
    return r


def elementwise(op, a, b):
    """python operator semantics (numpy or numpy.ma)"""
    a, b = toarr(a), toarr(b)
    if isinstance(a, SMa) or isinstance(b, SMa):
        return ma_elementwise(op, a, b)
    return raw_elementwise(op, a, b)


def raw_elementwise1(op, a):
    a = toarr(a)
    rd = a.reader()
    kind = {"isnan": "b", "isinf": "b", "isfinite": "b", "logical_not": "b", "sqrt": "f", "sin": "f", "cos": "f", "radians": "f", "degrees": "f",
            "floor": "f", "ceil": "f"}.get(op, a.kind)
    return unwrap0(new(a.sshape, kind, lambda i: cast(scalar_un(op, rd(i)), kind)))


def elementwise1(op, a):
    a = toarr(a)
    if isinstance(a, SMa):
        d = toarr(raw_elementwise1(op, a.data))
        m = a._mask
        if op == "sqrt":
            neg = toarr(raw_elementwise("lt", a.data, 0))
            m = neg if m is None else toarr(raw_elementwise("or", m, neg))
        return SMa(d, m.copy() if m is not None else None, fill_value=a._fill)
    return raw_elementwise1(op, a)


# --------------------------------------------------------------------------- masked arrays
class _MaskedConst:
    """np.ma.masked"""
    _is_symbolic = False

    def __bool__(self): return False
    def __repr__(self): return "masked"


class SMa:
    """numpy.ma.MaskedArray"""
    _is_sarr = True
    __array_ufunc__ = None
    __array_priority__ = 2e6

    def __init__(self, data, mask=None, fill_value=None, hard=False):
        self.data_ = data
        self._mask = mask
        self._fill = fill_value
        self._hard = hard

    @property
    def data(self):
        return self.data_

    @property
    def kind(self): return self.data.kind
    @property
    def sshape(self): return self.data.sshape
    @property
    def shape(self): return self.data.shape
    @shape.setter
    def shape(self, s):
        self.data.shape = s
        if self._mask is not None:
            self._mask.shape = s
    @property
    def ndim(self): return self.data.ndim
    @property
    def size(self): return self.data.size
    @property
    def dtype(self): return self.data.dtype
    @property
    def hardmask(self): return self._hard

    @property
    def fill_value(self):
        return self._fill

    @fill_value.setter
    def fill_value(self, v):
        self._fill = v

    def set_fill_value(self, v=None):
        self._fill = v

    def reader(self): return self.data.reader()
    def mreader(self):
        if self._mask is None:
            return lambda i: lift(False)
        return self._mask.reader()
    def at(self, *i): return self.data.at(*i)
    def mat(self, *i): return self.mreader()(tuple(norm(x) for x in i)).e

    @property
    def mask(self):
        if self._mask is None:
            return _np.ma.nomask
        return self._mask.view()

    @mask.setter
    def mask(self, v):
        if v is _np.ma.masked or isinstance(v, _MaskedConst):
            v = True
        if self._mask is None:
            if v is None or v is _np.ma.nomask or v is False:
                return
            _noloop()
            self._mask = full(self.sshape, False)
        if is_scalar(v):
            s = truth(lift(v))
            val = lambda i: s
        else:
            p = plain(v)
            if len(p.sshape) == len(self.sshape) and all(dim_eq(a, b) for a, b in zip(p.sshape, self.sshape)):
                rd = p.reader()
                val = lambda i: truth(rd(i))
            elif p.ndim == 0 or all(_isone(d) for d in p.sshape):
                s = truth(p.at(*([0] * p.ndim)))
                val = lambda i: s
            else:
                raise Unsupported("mask assignment with different shape")
        if self._hard:
            old = self._mask.reader()
            v0 = val
            val = lambda i: scalar_op("or", old(i), v0(i))
        self._mask._write(lambda i: TRUE, val)

    def harden_mask(self): self._hard = True; return self
    def soften_mask(self): self._hard = False; return self
    def unshare_mask(self):
        if self._mask is not None:
            self._mask = self._mask.copy()
        return self

    def __getitem__(self, key):
        if isinstance(key, SMa):
            key = key.data
        d = getitem(self.data, key)
        if isinstance(d, Sym):
            if self._mask is None:
                return d
            m = getitem(self._mask, key)
            if bool(m):
                return _np.ma.masked
            return d
        return SMa(d, getitem(self._mask, key) if self._mask is not None else None, self._fill, self._hard)

    def __setitem__(self, key, val):
        if isinstance(key, SMa):
            key = key.data
        if val is _np.ma.masked or isinstance(val, _MaskedConst):
            if self._mask is None:
                _noloop()
                self._mask = full(self.sshape, False)
            setitem(self._mask, key, True)
            return
        v = toarr(val)
        vm = v._mask if isinstance(v, SMa) else None
        vd = v.data if isinstance(v, SMa) else v
        if self._mask is None:
            setitem(self.data, key, vd)
            if vm is not None:
                _noloop()
                self._mask = full(self.sshape, False)
                setitem(self._mask, key, vm)
            return
        if not self._hard:
            setitem(self.data, key, vd)
            setitem(self._mask, key, vm if vm is not None else False)
            return
        # hard mask: only unmasked entries take the value; mask can only grow
        mr = self._mask.copy().reader()
        tmp = self.data.copy()
        setitem(tmp, key, vd)
        tr = tmp.reader()
        self.data._write(lambda i: Not(mr(i).e), tr)
        if vm is not None:
            t2 = full(self.sshape, False)
            setitem(t2, key, vm)
            t2r = t2.reader()
            self._mask._write(lambda i: TRUE, lambda i: scalar_op("or", mr(i), t2r(i)))

    def view(self, *a, **k):
        return SMa(self.data.view(), self._mask, self._fill, self._hard)

    def copy(self, *a, **k):
        return SMa(self.data.copy(), self._mask.copy() if self._mask is not None else None, self._fill, self._hard)

    def __deepcopy__(self, memo): return self.copy()

    def filled(self, fill_value=None):
        if self._mask is None:
            return self.data
        f = self._fill if fill_value is None else fill_value
        if f is None:
            f = {"f": 1e20, "i": 999999, "b": True}.get(self.kind)
        rd, mr = self.data.reader(), self._mask.reader()
        s = cast(f, self.kind)
        return new(self.sshape, self.kind, lambda i: ite(mr(i).e, s, rd(i)))

    def compressed(self):
        if self._mask is None:
            return reshape(self.data, (-1,)).copy()
        inv = toarr(raw_elementwise1("invert", self._mask))
        c = conc_int(self.sshape[1]) if len(self.sshape) == 2 else None
        if c is not None and 1 <= c <= 8 and conc_int(self.sshape[0]) is None:
            # every row is entirely kept or entirely dropped: the kept rows, flattened
            cx = ctx()
            k = cx.fresh_index(self.sshape[0], "row").e
            rd = inv.reader()
            if all(cx.provable(rd((k, 0)).e == rd((k, j)).e) for j in range(1, c)):
                return reshape(getitem(self.data, getitem(inv, (slice(None), 0))), (-1,))
        return getitem(self.data, inv)

    def astype(self, dt, **k):
        return SMa(self.data.astype(dt), self._mask.copy() if self._mask is not None else None, self._fill, self._hard)

    def _map(self, f):
        d = f(self.data)
        return SMa(d, f(self._mask) if self._mask is not None else None, self._fill, self._hard)

    def reshape(self, *s, **k): return self._map(lambda a: a.reshape(*s))
    def ravel(self, *a, **k): return self._map(lambda x: x.ravel())
    def flatten(self, *a, **k): return self._map(lambda x: x.flatten())
    def squeeze(self, axis=None): return self._map(lambda x: x.squeeze(axis))
    def transpose(self, *a): return self._map(lambda x: x.transpose(*a))
    @property
    def T(self): return self._map(lambda x: x.T)

    def __len__(self): return len(self.data)

    def __iter__(self):
        n = conc_int(self.sshape[0])
        if n is None:
            raise Unsupported("native iteration over symbolic-length array")
        for i in range(n):
            yield self[i]

    def put(self, indices, values, mode="raise"):
        v = toarr(values)
        vm = v._mask if isinstance(v, SMa) else None
        if self._hard and self._mask is not None:
            raise Unsupported("put on hard mask")
        put(self.data, indices, plain(v))
        if self._mask is None and vm is None:
            return
        if self._mask is None:
            _noloop()
            self._mask = full(self.sshape, False)
        put(self._mask, indices, vm if vm is not None else False)

    def setflags(self, **k):
        self.data.setflags(**k)

    @property
    def flags(self): return self.data.flags

    def fill(self, v): self.data.fill(v)
    def any(self, axis=None, **k): return np_any(self, axis, **k)
    def all(self, axis=None, **k): return np_all(self, axis, **k)
    def sum(self, axis=None, **k): return np_sum(self, axis, **k)
    def min(self, axis=None, **k): return np_minmax(self, "min", axis, **k)
    def max(self, axis=None, **k): return np_minmax(self, "max", axis, **k)
    def argmin(self, axis=None, **k): return self._arg("min", axis, k)
    def argmax(self, axis=None, **k): return self._arg("max", axis, k)

    def _arg(self, mode, axis, k):
        _noopts(k)
        if self._mask is not None:
            raise Unsupported("argmin of masked data")
        return np_argminmax(self.data, mode, axis)
    def nonzero(self):
        return np_nonzero(toarr(self).filled(0) if self._mask is not None else self.data)
    def tobytes(self, fill_value=None): return Tok("bytes", self.filled(fill_value).copy())
    def __bool__(self):
        return bool(self.data)
    def __repr__(self): return f"<SMa {self.kind} {self.sshape}>"
    def __format__(self, s): return repr(self)
    def __hash__(self): return id(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(_np.ma.MaskedArray, name):
            raise Unsupported(f"MaskedArray.{name}")
        raise AttributeError(f"'MaskedArray' object has no attribute '{name}'")

    def _b(self, o, op, rev=False):
        if not (is_scalar(o) or arraylike(o)):
            return NotImplemented
        return elementwise(op, o, self) if rev else elementwise(op, self, o)

    def _ib(self, o, op):
        # numpy.ma in-place: mask |= other's mask ; data op= where(mask(other), identity, other)
        o = toarr(o)
        om = o._mask if isinstance(o, SMa) else None
        if op == "div":
            raise Unsupported("masked in-place division")
        smr = self._mask.reader() if self._mask is not None else (lambda i: lift(False))
        if om is not None:
            omr = breader(om, self.sshape)
            if self._mask is None:
                self._mask = full(self.sshape, False)
            self._mask._write(omr and (lambda i: omr(i).e), lambda i: lift(True))
            smr = self._mask.reader()
        ident = {"add": 0, "sub": 0, "mul": 1}.get(op)
        if ident is None:
            raise Unsupported(f"masked in-place {op}")
        # other_data = where(self._mask, identity, other)
        od = plain(o)
        r = toarr(raw_elementwise(op, self.data, od))
        rr = r.reader()
        self.data._write(lambda i: Not(smr(i).e), rr)
        return self

    __add__ = SArr.__add__; __radd__ = SArr.__radd__; __sub__ = SArr.__sub__; __rsub__ = SArr.__rsub__
    __mul__ = SArr.__mul__; __rmul__ = SArr.__rmul__; __truediv__ = SArr.__truediv__
    __rtruediv__ = SArr.__rtruediv__; __floordiv__ = SArr.__floordiv__; __mod__ = SArr.__mod__
    __pow__ = SArr.__pow__; __and__ = SArr.__and__; __rand__ = SArr.__rand__; __or__ = SArr.__or__
    __ror__ = SArr.__ror__; __xor__ = SArr.__xor__
    __eq__ = SArr.__eq__; __ne__ = SArr.__ne__; __lt__ = SArr.__lt__; __le__ = SArr.__le__
    __gt__ = SArr.__gt__; __ge__ = SArr.__ge__; __neg__ = SArr.__neg__; __abs__ = SArr.__abs__
    __invert__ = SArr.__invert__
    __iadd__ = SArr.__iadd__; __isub__ = SArr.__isub__; __imul__ = SArr.__imul__; __itruediv__ = SArr.__itruediv__


def _noloop():
    if ctx().ghost.get("in_loop"):
        raise Unsupported("mask created inside a symbolic loop")


def _mask_or(a, b, shape):
    """masks (SArr or None) -> SArr or None, broadcast to shape"""
    if a is None and b is None:
        return None
    ra = breader(a, shape) if a is not None else (lambda i: lift(False))
    rb = breader(b, shape) if b is not None else (lambda i: lift(False))
    return new(shape, "b", lambda i: scalar_op("or", ra(i), rb(i)))


def getm(a):
    return a._mask if isinstance(a, SMa) else None


def ma_elementwise(op, a, b):
    ad, bd = plain(a), plain(b)
    am, bm = getm(a), getm(b)
    r = toarr(raw_elementwise(op, ad, bd))
    shape = r.sshape
    fill = a._fill if isinstance(a, SMa) else b._fill
    if op in ("eq", "ne", "lt", "le", "gt", "ge"):
        m = _mask_or(am, bm, shape)
        if m is None:
            return SMa(r, None, None)
        if op in ("eq", "ne"):
            mr, rr = m.reader(), r.reader()
            ra = breader(am, shape) if am is not None else (lambda i: lift(False))
            rb = breader(bm, shape) if bm is not None else (lambda i: lift(False))
            r = new(shape, "b", lambda i: ite(mr(i).e, scalar_op(op, ra(i), rb(i)), rr(i)))
        return SMa(r, m.copy())
    m = _mask_or(am, bm, shape)
    if op == "div":
        rr = r.reader()
        rb = breader(bd, shape)
        m0 = m.reader() if m is not None else (lambda i: lift(False))
        m = new(shape, "b", lambda i: Sym("b", simp(Or(m0(i).e, scalar_un("isnan", cast(rr(i), "f")).e,
                                                      cast(rb(i), "f").e == 0))))
    if m is not None:
        # masked entries keep the left operand's data
        mr, rr, ra = m.reader(), r.reader(), breader(ad, shape)
        k = r.kind
        try:
            cast(lift(0), k)
            r = new(shape, k, lambda i: ite(mr(i).e, cast(ra(i), k), rr(i)))
        except Unsupported:
            pass
    return SMa(r, m, fill)


def ufunc2(op, a, b, out=None):
    """np.<ufunc>(a, b) called directly"""
    a, b = toarr(a), toarr(b)
    if isinstance(a, SMa) or isinstance(b, SMa):
        r = toarr(raw_elementwise(op, plain(a), plain(b)))
        m = _mask_or(getm(a), getm(b), r.sshape)
        if op == "div":
            return ma_elementwise(op, a, b)
        return SMa(r, m)
    return raw_elementwise(op, a, b)


# --------------------------------------------------------------------------- creation
def full(shape, v, kind=None):
    s = lift(v)
    if kind and kind != "O":
        s = cast(s, kind)
    return new(shape, s.kind, lambda i: s)


# --------------------------------------------------------------------------- indexing
def _expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(plain(k) if isinstance(k, SMa) else k for k in key)
    key = tuple(toarr(list(k)) if isinstance(k, tuple) else toarr(k) if isinstance(k, (list, _np.ndarray, SList)) else k for k in key)
    out = []
    for k in key:
        if isinstance(k, SArr) and k.ndim == 0:
            k = k.at()
        out.append(k)
    key = tuple(out)
    if any(isinstance(k, UniqSet) for k in key):
        raise Unsupported("index by unique set")
    nd = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.kind == "b":
            nd += k.ndim
        elif isinstance(k, (bool, _np.bool_)) or (isinstance(k, Sym) and k.kind == "b"):
            raise Unsupported("scalar boolean index")
        else:
            nd += 1
    if nd > a.ndim:
        raise IndexError("too many indices for array")
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + (slice(None),) * (a.ndim - nd) + key[p + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - nd)
    return key


def getitem(a, key):
    key = _expand_key(a, key)
    if any(isinstance(k, SArr) for k in key):
        return fancy_get(a, key)
    # basic view
    shape, plan, bd = [], [], 0   # plan entries for each base dim
    newdim = 0
    for k in key:
        if k is None:
            shape.append(1)
            newdim += 1
            continue
        n = a.sshape[bd]
        if isinstance(k, slice):
            st, step, ln = _slice(k, n)
            plan.append(("s", st, step, len(shape), ln))
            shape.append(ln)
        else:
            plan.append(("i", _norm_idx(k, n)))
        bd += 1

    nshape = len(shape)
    if nshape == 0:
        return a.reader()(tuple(p[1] for p in plan))

    def toV(idx):
        out = []
        for p in plan:
            if p[0] == "i":
                out.append(p[1])
            else:
                _, st, step, pos, ln = p
                i = idx[pos]
                out.append(zadd(st, i) if step == 1 else zadd(st, zmul(step, i)))
        return tuple(out)

    def fromV(b):
        cond, idx = TRUE, [0] * nshape
        for p, x in zip(plan, b):
            if p[0] == "i":
                cond = And(cond, zeq(x, p[1]))
            else:
                _, st, step, pos, ln = p
                if step == 1:
                    i = zsub(x, st)
                elif step == -1:
                    i = zsub(st, x)
                else:
                    d = zsub(x, st)
                    if isinstance(d, int):
                        cond = And(cond, z3.BoolVal(d % step == 0))
                        i = d // step
                    elif step > 0:
                        cond = And(cond, zi(d) % step == 0)
                        i = norm(zi(d) / step)
                    else:
                        raise Unsupported("write through strided view")
                idx[pos] = i
                if not (isinstance(st, int) and st == 0 and step == 1 and False):
                    cond = And(cond, zle(0, i), zlt(i, ln))
        return cond, tuple(idx)
    r = a.view_of(tuple(shape), toV, fromV)
    return r


def _full_slice(k):
    return isinstance(k, slice) and k == slice(None)


def fancy_plan(a, key):
    """resolve fancy key -> (result shape, fn(result idx)->base idx, sels) for reads"""
    # replace boolean arrays by selections
    items = []      # per base-consuming key: ('adv', reader, shape) | ('sl', start, step, len) | ('new',)
    bd = 0
    sels = []
    for k in key:
        if k is None:
            items.append(("new",))
            continue
        if isinstance(k, SArr) and k.kind == "b":
            for d in range(k.ndim):
                if not dim_eq(k.sshape[d], a.sshape[bd + d]):
                    raise IndexError("boolean index did not match indexed array")
            ms = mask_sel(k)
            sels.append(ms)
            for d in range(k.ndim):
                items.append(("adv", (lambda ms, d: lambda i: Sym("i", zi(ms.sel(i[0])[d])))(ms, d), (ms.cnt,), bd, True))
                bd += 1
            continue
        if isinstance(k, SArr):
            if k.kind != "i":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            safe = k.tag.get("insel")
            _bounds(k, a.sshape[bd])
            items.append(("adv", _wrap_reader(k, a.sshape[bd]), k.sshape, bd, False))
            bd += 1
        elif isinstance(k, slice):
            items.append(("sl",) + _slice(k, a.sshape[bd]) + (bd,))
            bd += 1
        else:
            i = _norm_idx(k, a.sshape[bd])
            items.append(("adv", (lambda i: lambda _: Sym("i", zi(i)))(i), (), bd, True))
            bd += 1
    adv = [it for it in items if it[0] == "adv"]
    bsh = bshape(*[it[2] for it in adv])
    pos = [n for n, it in enumerate(items) if it[0] == "adv"]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    shape, where_b = [], None
    slots = []
    for n, it in enumerate(items):
        if it[0] == "adv":
            if where_b is None and contiguous:
                where_b = len(shape)
                shape.extend(bsh)
        elif it[0] == "new":
            shape.append(1)
        else:
            slots.append((len(shape), it))
            shape.append(it[3])
    if not contiguous:
        where_b = 0
        shape = list(bsh) + shape
        slots = [(p + len(bsh), it) for p, it in slots]
    nb = len(bsh)
    bds = []
    for it in adv:
        s = it[2]
        off = nb - len(s)
        ones = [_isone(d) and not _isone(bsh[i + off]) for i, d in enumerate(s)]
        bds.append((it[3], it[1], off, ones))

    def toBase(idx):
        b = [None] * a.ndim
        bi = tuple(idx[where_b:where_b + nb])
        for (d, rd, off, ones) in bds:
            sub = tuple(0 if o else x for o, x in zip(ones, bi[off:]))
            b[d] = norm(rd(sub).e)
        for p, it in slots:
            _, st, step, ln, d = it
            b[d] = zadd(st, zmul(step, idx[p]))
        return tuple(b)
    return tuple(shape), toBase, items, sels, where_b, bsh


def _wrap_reader(k, n):
    rd = k.reader()
    if k.tag.get("nonneg"):
        return rd

    def fn(i):
        v = rd(i)
        e = simp(v.e)
        if z3.is_int_value(e):
            c = e.as_long()
            return v if c >= 0 else Sym("i", zi(zadd(n, c)))
        return Sym("i", z3.If(e < 0, e + zi(n), e)) if not _nonneg(e) else v
    return fn


def _nonneg(e):
    cx = ctx()
    key = ("nn", e.get_id(), len(cx.pc))
    if key not in cx._memo:
        cx._keep.append(e)
        cx._memo[key] = cx.provable(e >= 0)
    return cx._memo[key]


def _bounds(k, n):
    """numpy raises IndexError when some index is out of bounds"""
    cx = ctx()
    rd = k.reader()
    if all(isinstance(d, int) for d in k.sshape):
        for i in _np.ndindex(*k.sshape):
            e = rd(i).e
            c = simp(And(e >= -zi(n), e < zi(n)))
            if z3.is_true(c):
                continue
            if not cx.branch(c):
                raise IndexError("index out of bounds")
        return
    ks = tuple(cx.fresh("bq", "i").e for d in k.sshape)
    inb = And(*[And(j >= 0, zlt(j, d)) for j, d in zip(ks, k.sshape)])
    e = rd(ks).e
    good = And(e >= -zi(n), e < zi(n))
    if cx.provable(z3.Implies(inb, good)):
        k.tag["nonneg"] = cx.provable(z3.Implies(inb, e >= 0))
        return
    if cx.branch(cx.fresh("oob", "b").e):
        cx.add_pc(And(inb, Not(good)))
        for j, d in zip(ks, k.sshape):
            cx.index_term(d, j)
        if not cx.feasible(TRUE):
            from .core import Infeasible
            raise Infeasible()
        raise IndexError("index out of bounds")
    cx.add_universal(k.sshape, lambda t: And(rd(tuple(t)).e >= -zi(n), rd(tuple(t)).e < zi(n)))


def fancy_get(a, key):
    shape, toBase, items, sels, where_b, bsh = fancy_plan(a, key)
    rd = a.reader()
    r = new(shape, a.kind, lambda idx: rd(toBase(idx)))
    if len(sels) == 1 and a.ndim >= 1 and len(key) == a.ndim:
        r.tag["compressed_by"] = sels[0]
    return r


def setitem(a, key, val):
    key = _expand_key(a, key)
    v = plain(val) if not is_scalar(val) else toarr(val)
    if not any(isinstance(k, SArr) for k in key):
        if all(not isinstance(k, slice) and k is not None for k in key):
            idx = tuple(_norm_idx(k, n) for k, n in zip(key, a.sshape))
            if v.ndim != 0:
                if all(_isone(d) for d in v.sshape):
                    s = v.at(*([0] * v.ndim))
                else:
                    raise ValueError("setting an array element with a sequence.")
            else:
                s = v.at()
            a._write(lambda i: And(*[zeq(x, y) for x, y in zip(i, idx)]), lambda i: s)
            return
        w = getitem(a, key)
        _assign(w, v)
        return
    # boolean mask(s)
    bk = [k for k in key if isinstance(k, SArr)]
    if len(bk) == 1 and bk[0].kind == "b":
        m = bk[0]
        p = [i for i, k in enumerate(key) if k is m][0]
        rest_before, rest_after = key[:p], key[p + 1:]
        if all(_full_slice(k) for k in rest_before + rest_after) or all(
                (_full_slice(k) or not isinstance(k, (SArr, slice)) and k is not None) for k in rest_before + rest_after):
            # a[mask, c] etc.
            fixed = {}
            nb = len(rest_before)
            for i, k in enumerate(rest_before):
                if not _full_slice(k):
                    fixed[i] = _norm_idx(k, a.sshape[i])
            for i, k in enumerate(rest_after):
                d = nb + m.ndim + i
                if not _full_slice(k):
                    fixed[d] = _norm_idx(k, a.sshape[d])
            for d in range(m.ndim):
                if not dim_eq(m.sshape[d], a.sshape[nb + d]):
                    raise IndexError("boolean index did not match indexed array")
            mr = m.reader()
            free = [d for d in range(a.ndim) if d not in fixed and not nb <= d < nb + m.ndim]
            if v.ndim == 0:
                s = v.at()
                val_fn = lambda i: s
            else:
                ms = mask_sel(m)
                tshape = [a.sshape[d] for d in free if d < nb] + [ms.cnt] + [a.sshape[d] for d in free if d > nb]
                bs = bshape(tuple(tshape), v.sshape)
                if len(bs) != len(tshape):
                    raise ValueError("shape mismatch")
                vr = breader(v, tuple(tshape))

                def val_fn(i):
                    idx = [i[d] for d in free if d < nb] + [ms.rank(tuple(i[nb:nb + m.ndim]))] + \
                          [i[d] for d in free if d > nb]
                    return vr(tuple(idx))

            def cond(i):
                c = truth(mr(tuple(i[nb:nb + m.ndim]))).e
                for d, x in fixed.items():
                    c = And(c, zeq(i[d], x))
                return c
            a._write(cond, val_fn)
            return
    if len(bk) == 1 and bk[0].kind == "i" and bk[0].ndim == 1:
        k = bk[0]
        p = [i for i, q in enumerate(key) if q is k][0]
        others = key[:p] + key[p + 1:]
        ms = k.tag.get("sel")
        if ms is not None and all(_full_slice(q) for q in others) and p == 0:
            m = new(ms.dims, "b", lambda i: Sym("b", ms.fn(tuple(i))))
            return setitem(a, (m,) + others, val)
        n = conc_int(k.sshape[0])
        if n is not None and n <= 64:
            for j in range(n):
                kk = key[:p] + (k.at(j),) + key[p + 1:]
                vv = v
                if v.ndim == a.ndim - sum(1 for q in others if not isinstance(q, slice) and q is not None):
                    axis = sum(1 for q in key[:p] if isinstance(q, slice))
                    vv = v[(slice(None),) * axis + (0 if _isone(v.sshape[axis]) else j,)]
                setitem(a, kk, vv)
            return
    raise Unsupported("fancy assignment")


def _assign(w, v):
    """w[...] = v"""
    if isinstance(w, Sym):
        raise Unsupported("assign to scalar")
    vs = v.sshape
    while len(vs) > len(w.sshape) and _isone(vs[0]):
        v = v[0] if v.ndim > 1 else v
        vs = v.sshape if isinstance(v, SArr) else ()
    v = toarr(v)
    bs = bshape(w.sshape, v.sshape)
    if len(bs) != len(w.sshape):
        raise ValueError("could not broadcast input array")
    for x, y in zip(bs, w.sshape):
        if not _same(x, y) and not dim_eq(x, y):
            raise ValueError("could not broadcast input array")
    vr = breader(v.copy(), w.sshape)
    w._write(lambda i: TRUE, vr)


def put(a, indices, values):
    v = plain(values)
    ind = plain(indices)
    flat = a if a.ndim == 1 else reshape(a, (-1,))
    if v.ndim != 0:
        v = reshape(v, (-1,)) if v.ndim != 1 else v
        if conc_int(v.sshape[0]) == 1 and conc_int(ind.sshape[0]) != 1:
            v = v[0]
    setitem(flat, ind, v)


# --------------------------------------------------------------------------- shapes
def reshape(a, shp):
    if isinstance(a, SMa):
        return a.reshape(*(shp if isinstance(shp, (tuple, list)) else (shp,)))
    if not isinstance(shp, (tuple, list)):
        shp = (shp,)
    shp = [norm(x) for x in shp]
    src = list(a.sshape)
    if any(isinstance(x, int) and x == -1 for x in shp):
        p = [i for i, x in enumerate(shp) if isinstance(x, int) and x == -1][0]
        rest = [x for i, x in enumerate(shp) if i != p]
        # cancel common dims structurally
        s2 = [d for d in src if not _isone(d)]
        for r in rest:
            if _isone(r):
                continue
            for d in s2:
                if _same(d, r):
                    s2.remove(d)
                    break
            else:
                cr = conc_int(r)
                tot = conc_int(prod(s2))
                if cr is not None and tot is not None:
                    if cr == 0 or tot % cr:
                        raise ValueError("cannot reshape array")
                    s2 = [tot // cr]
                else:
                    q = None
                    for d in s2:
                        if not isinstance(d, int) and cr is not None:
                            pass
                        if ctx().provable(zi(d) == zi(r)):
                            q = d
                            break
                    if q is None:
                        tot = prod(s2)
                        if cr is not None:
                            # symbolic total: need divisibility
                            if not ctx().branch(zi(tot) % cr == 0):
                                raise ValueError("cannot reshape array")
                            s2 = [norm(zi(tot) / cr)]
                        else:
                            raise Unsupported("reshape with unknown quotient")
                    else:
                        s2.remove(q)
        shp[p] = prod(s2)
    else:
        pass
    # strip ones and compare
    sa = [(i, d) for i, d in enumerate(src) if not _isone(d)]
    sb = [(i, d) for i, d in enumerate(shp) if not _isone(d)]
    if len(sa) == len(sb) and all(_same(x[1], y[1]) or ctx().provable(zi(x[1]) == zi(y[1])) for x, y in zip(sa, sb)):
        pairs = [(x[0], y[0]) for x, y in zip(sa, sb)]

        def toV(idx):
            out = [0] * len(src)
            for i, j in pairs:
                out[i] = idx[j]
            return tuple(out)

        def fromV(b):
            out = [0] * len(shp)
            for i, j in pairs:
                out[j] = b[i]
            return TRUE, tuple(out)
        return a.view_of(tuple(shp), toV, fromV)
    # general row-major reshape
    ta, tb = prod(src), prod(shp)
    if not dim_eq(ta, tb):
        raise ValueError(f"cannot reshape array of size {ta} into shape {shp}")

    def flat_index(idx, dims):
        f = 0
        for i, d in zip(idx, dims):
            f = zadd(zmul(f, d), i)
        return f

    def unflat(f, dims):
        out = []
        for d in reversed(dims[1:]):
            if isinstance(f, int) and isinstance(d, int):
                out.append(f % d if d else 0)
                f = f // d if d else 0
            else:
                qr = int_divmod(zi(f), zi(d))
                out.append(norm(qr[1]))
                f = norm(qr[0])
        out.append(f)
        return tuple(reversed(out))
    # special case: merging trailing structure (n, c) -> (n*c,) etc. with literal inner dims is fine;
    # symbolic inner dims give nonlinear terms
    # common trailing dimensions keep their index
    srct, shpt = tuple(src), tuple(shp)
    t = 0
    while t < min(len(srct), len(shpt)) - 1 and _same(srct[-1 - t], shpt[-1 - t]):
        t += 1
    ls, lp = len(srct) - t, len(shpt) - t
    return a.view_of(tuple(shp), lambda idx: unflat(flat_index(idx[:lp], shpt[:lp]), srct[:ls]) + tuple(idx[lp:]),
                     lambda b: (TRUE, unflat(flat_index(b[:ls], srct[:ls]), shpt[:lp]) + tuple(b[ls:])))


def int_divmod(f, d):
    cx = ctx()
    k = ("divmod", f.get_id(), d.get_id(), len(cx.pc))
    c = cx._memo.get(k)
    if c is None:
        r = None
        if not z3.is_int_value(f):
            from .ring import int_divmod as poly
            r = poly(cx, f, d)
            if r is None and not z3.is_int_value(d) and cx.provable(d > 0):
                r = _quot_rem(cx, f, d)
        if r is None:
            r = (f / d, f % d)
        c = cx._memo[k] = (r, f, d)
    return c[0]


def _quot_rem(cx, f, d):
    """quotient and remainder of f by d > 0 as functions with their defining facts"""
    I = z3.IntSort()
    q, r = z3.Function("QUOT", I, I, I)(f, d), z3.Function("REM", I, I, I)(f, d)
    cx.fact(And(f == q * d + r, r >= 0, r < d, z3.Implies(f >= 0, q >= 0)))
    for a in cx.ghost.get("dims", []):
        for x in (a - 1, a, a + 1):       # f < x d  ->  f / d < x
            cx.fact(z3.Implies(f < x * d, q < x))
    return q, r


def squeeze(a, axis=None):
    if isinstance(a, SMa):
        return a.squeeze(axis)
    if axis is None:
        keep = []
        for i, d in enumerate(a.sshape):
            if isinstance(d, int):
                if d != 1:
                    keep.append(i)
            elif not ctx().branch(zi(d) == 1):
                keep.append(i)
    else:
        ax = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
        ax = [x % a.ndim for x in ax]
        for x in ax:
            if not dim_eq(a.sshape[x], 1):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        keep = [i for i in range(a.ndim) if i not in ax]
    n = a.ndim

    def toV(idx):
        out = [0] * n
        for p, i in enumerate(keep):
            out[i] = idx[p]
        return tuple(out)
    return a.view_of(tuple(a.sshape[i] for i in keep), toV, lambda b: (TRUE, tuple(b[i] for i in keep)))


# --------------------------------------------------------------------------- reductions
def _exists(dims, pred, name):
    """symbolic truth of  exists idx in dims. pred(idx)  -- decided by forking"""
    cx = ctx()
    cd = [conc_int(d) for d in dims]
    if all(c is not None for c in cd):
        tot = 1
        for c in cd:
            tot *= c
        if tot <= 64:
            return Sym("b", simp(Or(*[pred(i) for i in _np.ndindex(*cd)])))
    # try to prove it cannot / must happen at a generic index
    ks = tuple(cx.fresh(name, "i").e for d in dims)
    inb = And(*[And(k >= 0, zlt(k, d)) for k, d in zip(ks, dims)])
    p = pred(ks)
    if z3.is_false(simp(p)) or cx._check(And(inb, p)) == z3.unsat:
        return Sym("b", FALSE)
    b = cx.fresh(name + "_exists", "b").e
    if cx.branch(b):
        for k, d in zip(ks, dims):
            cx.index_term(d, k)
        cx.fact(And(inb, p))
        if cx._check() == z3.unsat:
            from .core import Infeasible
            raise Infeasible()
        return Sym("b", TRUE)
    cx.add_universal(dims, lambda t: Not(pred(tuple(t))))
    return Sym("b", FALSE)


def _noopts(kw, harmless=("order", "subok", "copy")):
    """options that would change the meaning are not silently dropped"""
    for k, v in kw.items():
        if v is None or k in harmless or type(v).__name__ == "_NoValueType":
            continue
        raise Unsupported(f"option {k}={v!r}")


def _reducer(f):
    """reductions: keepdims; every other option is refused"""
    def g(a, *args, keepdims=False, **kw):
        _noopts(kw)
        r = f(a, *args)
        if keepdims is True:
            ax = args[-1] if args and (args[-1] is None or isinstance(args[-1], int)) else None
            if ax is None:
                raise Unsupported("keepdims without an axis")
            nd = toarr(a).ndim
            r = r[(slice(None),) * (ax % nd) + (None,)]
        return r
    g.__name__ = f.__name__
    return g


def np_any(a, axis=None, keepdims=False, **kw):
    return _red_any(a, axis, keepdims=keepdims, **kw)


def np_all(a, axis=None, keepdims=False, **kw):
    return _red_all(a, axis, keepdims=keepdims, **kw)


def np_sum(a, axis=None, keepdims=False, **kw):
    return _red_sum(a, axis, keepdims=keepdims, **kw)


def np_mean(a, axis=None, keepdims=False, **kw):
    return _red_mean(a, axis, keepdims=keepdims, **kw)


def np_minmax(a, mode, axis=None, keepdims=False, **kw):
    return _red_minmax(a, mode, axis, keepdims=keepdims, **kw)


@_reducer
def _red_any(a, axis=None):
    a = toarr(a)
    mr = a.mreader() if isinstance(a, SMa) else None
    rd = a.reader()
    if axis is None:
        return _exists(a.sshape, lambda i: And(truth(rd(i)).e, Not(mr(i).e) if mr else TRUE), "any")
    return _reduce_axis(a, axis, "b", lambda xs: Sym("b", simp(Or(*[truth(x).e for x in xs]))))


@_reducer
def _red_all(a, axis=None):
    a = toarr(a)
    mr = a.mreader() if isinstance(a, SMa) else None
    rd = a.reader()
    if axis is None:
        return scalar_un("invert", _exists(a.sshape, lambda i: And(Not(truth(rd(i)).e), Not(mr(i).e) if mr else TRUE),
                                           "all"))
    return _reduce_axis(a, axis, "b", lambda xs: Sym("b", simp(And(*[truth(x).e for x in xs]))))


def _reduce_axis(a, axis, kind, f, maskmode="any"):
    axis = axis % a.ndim
    n = conc_int(a.sshape[axis])
    if n is None or n > 64:
        raise Unsupported("reduction along symbolic axis")
    rest = a.sshape[:axis] + a.sshape[axis + 1:]
    rd = a.reader()
    if isinstance(a, SMa) and a._mask is not None:
        mr = a._mask.reader()

        def fnm(idx):
            els = []
            for j in range(n):
                i = tuple(idx[:axis]) + (j,) + tuple(idx[axis:])
                els.append((mr(i).e, rd(i)))
            return els
        if kind == "sum":
            k = "f" if a.kind == "f" else "i"
            zero = lift(0.0) if k == "f" else lift(0)

            def val(idx):
                r = zero
                for m, v in fnm(idx):
                    r = scalar_op("add", r, ite(m, zero, cast(v, k)))
                return r
            d = new(rest, k, val)
        else:
            raise Unsupported("masked axis reduction")
        m = new(rest, "b", lambda idx: Sym("b", simp(And(*[m for m, v in fnm(idx)]))))
        return SMa(d, m)
    k = kind if kind != "sum" else ("f" if a.kind == "f" else "i")

    def fn(idx):
        xs = [rd(tuple(idx[:axis]) + (j,) + tuple(idx[axis:])) for j in range(n)]
        if kind == "sum":
            r = cast(lift(0), k)
            for x in xs:
                r = scalar_op("add", r, cast(x, k))
            return r
        return f(xs)
    r = new(rest, k, fn)
    if isinstance(a, SMa):
        return SMa(r, None)
    return unwrap0(r)


@_reducer
def _red_sum(a, axis=None):
    a = toarr(a)
    if axis is None:
        if all(conc_int(d) is not None for d in a.sshape) and not (isinstance(a, SMa) and a._mask is not None):
            r = lift(0.0) if a.kind == "f" else lift(0)
            rd = a.reader()
            for i in _np.ndindex(*[conc_int(d) for d in a.sshape]):
                r = scalar_op("add", r, cast(rd(i), r.kind))
            return r
        if a.kind == "b" and a.ndim == 1:
            return Sym("i", mask_sel(plain(a)).cnt)
        raise Unsupported("sum over symbolic extent")
    return _reduce_axis(a, axis, "sum", None)


@_reducer
def _red_mean(a, axis=None):
    a = toarr(a)
    s = np_sum(a, axis)
    if axis is None:
        return s / a.size
    return s / a.shape[axis]


def _extremum(a, mode):
    """fresh value that is an extremum of `a` (all dims), and its index"""
    cx = ctx()
    a = plain(a) if not (isinstance(a, SMa) and a._mask is not None) else a
    if isinstance(a, SMa):
        raise Unsupported("masked extremum")
    rd = a.reader()
    # empty -> ValueError
    if not cx.branch(zi(prod(a.sshape)) > 0):
        raise ValueError("zero-size array to reduction operation")
    key = ("ext", mode, id(a.store.fn), _key(a.sshape), id(a.toB))
    if key in cx._memo:
        return cx._memo[key]
    idx = tuple(cx.fresh_index(d, "am").e for d in a.sshape)
    v = rd(idx)
    op = "le" if mode == "min" else "ge"

    def uni(t):
        t = tuple(t)
        other = rd(t)
        c = scalar_op(op, v, other).e
        if a.ndim == 1:
            # first extremum: strictly better than everything before
            strict = scalar_op("lt" if mode == "min" else "gt", v, other).e
            c = And(c, z3.Implies(zi(t[0]) < zi(idx[0]), strict))
        return c
    cx.add_universal(a.sshape, uni)
    src = a.store_used() if hasattr(a, "store_used") else None
    for d, s in zip(a.sshape, [0] * a.ndim):
        cx.index_term(d, z3.IntVal(0))
        cx.index_term(d, zi(zsub(d, 1)))
    cx._keep.append(a)
    cx._memo[key] = (v, idx)
    return v, idx


@_reducer
def _red_minmax(a, mode, axis=None):
    a = toarr(a)
    if axis is not None:
        k = a.kind
        return _reduce_axis(a, axis, k, lambda xs: _fold(xs, "minimum" if mode == "min" else "maximum"))
    cd = [conc_int(d) for d in a.sshape]
    if all(c is not None for c in cd) and not isinstance(a, SMa):
        rd = a.reader()
        xs = [rd(i) for i in _np.ndindex(*cd)]
        if not xs:
            raise ValueError("zero-size array to reduction operation")
        return _fold(xs, "minimum" if mode == "min" else "maximum")
    return _extremum(a, mode)[0]


def _fold(xs, op):
    r = xs[0]
    for x in xs[1:]:
        r = scalar_op(op, r, x)
    return r


def np_argminmax(a, mode, axis=None, **kw):
    _noopts(kw)
    a = toarr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmin axis")
    cd = [conc_int(d) for d in a.sshape]
    if all(c is not None for c in cd) and a.ndim == 1:
        rd = plain(a).reader()
        if cd[0] == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        best, bi = rd((0,)), lift(0)
        for i in range(1, cd[0]):
            x = rd((i,))
            c = scalar_op("lt" if mode == "min" else "gt", x, best).e
            best, bi = ite(c, x, best), ite(c, lift(i), bi)
        c = conc_int(bi.e)
        return c if c is not None else bi
    if a.ndim != 1:
        raise Unsupported("argmin nd")
    v, idx = _extremum(a, mode)
    return Sym("i", idx[0])


def np_take(a, ind, axis=None, mode="raise", **kw):
    _noopts(kw)
    a = toarr(a)
    if isinstance(a, SMa):
        ma = a
        d = np_take(a.data, ind, axis, mode)
        if a._mask is None:
            i = toarr(ind) if not is_scalar(ind) else ind
            if isinstance(i, SMa) and i._mask is not None:
                return SMa(d, i._mask.copy())
            return SMa(d, None) if not isinstance(d, Sym) else d
        m = np_take(a._mask, ind, axis, mode)
        i = toarr(ind)
        if isinstance(i, SMa) and i._mask is not None:
            m = toarr(raw_elementwise("or", m, i._mask))
        return SMa(d, m, a._fill) if not isinstance(d, Sym) else d
    if mode != "raise":
        raise Unsupported("take mode")
    i = toarr(ind)
    im = getm(i)
    i = plain(i)
    if axis is None and a.ndim == 2 and conc_int(a.sshape[1]) is None:
        r = _take_flat(a, i)
        if r is not None:
            return r
    if axis is None:
        a = a if a.ndim == 1 else reshape(a, (-1,))
        axis = 0
    key = (slice(None),) * axis + (i if i.ndim else i.at(),)
    r = getitem(a, key)
    # np.take(ndarray, maskedarray) returns a plain ndarray
    return r


def _take_flat(a, i):
    """take from a matrix with a symbolic number of columns by flat index: decompose the index as row * columns + column"""
    from .ring import int_divmod as poly
    cx = ctx()
    ny, nx = a.sshape
    rd = i.reader()
    ks = tuple(cx.fresh("tk", "i").e for d in i.sshape)
    inb = And(*[And(k >= 0, zlt(k, d)) for k, d in zip(ks, i.sshape)])
    qr = poly(cx, rd(ks).e, zi(nx), inb)
    if qr is None or not cx.provable(z3.Implies(inb, And(qr[0] >= 0, qr[0] < zi(ny)))):
        return None
    av = a.reader()
    return new(i.sshape, a.kind, lambda t: av(tuple(resubst(e, [(k, zi(x)) for k, x in zip(ks, t)]) for e in qr)))


def resubst(e, pairs):
    """substitute, and divide again where a quotient or remainder gets other operands"""
    e = z3.substitute(e, *pairs)
    seen, todo, apps = set(), [e], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() in ("QUOT", "REM"):
            apps.append(x)
        todo.extend(x.children())
    if apps:
        e = z3.substitute(e, *[(x, int_divmod(x.arg(0), x.arg(1))[x.decl().name() == "REM"]) for x in apps])
    return e


def np_clip(a, lo, hi, **kw):
    _noopts(kw)
    r = toarr(a)
    if lo is not None:
        r = ufunc2("maximum", r, lo)
    if hi is not None:
        r = ufunc2("minimum", r, hi)
    return r


def np_nonzero(a):
    a = toarr(a)
    if isinstance(a, SMa):
        a = a.filled(0) if a._mask is not None else a.data
    rd = a.reader()
    m = a if a.kind == "b" else new(a.sshape, "b", lambda i: truth(rd(i)))
    ms = mask_sel(m)
    out = []
    for d in range(a.ndim):
        r = new((ms.cnt,), "i", (lambda d: lambda i: Sym("i", zi(ms.sel(i[0])[d])))(d))
        if a.ndim == 1:
            r.tag["sel"] = ms
        r.tag["nonneg"] = True
        out.append(r)
    return tuple(out)


# --------------------------------------------------------------------------- tokens (hashing / memo keys)
class Tok:
    """opaque injective token built from values (bytes of an array, sha1 digests, str(time) ...)"""
    _is_symbolic = True

    def __init__(self, tag, *args):
        self.tag = tag
        self.args = args

    def encode(self, *a):
        return Tok("enc", self)

    def hexdigest(self):
        return Tok("hex", self)

    digest = hexdigest

    def __hash__(self):
        return hash(("tok",))

    def __repr__(self):
        return f"Tok({self.tag})"

    def __eq__(self, o):
        return bool(tok_eq(self, o))

    def __ne__(self, o):
        return not self.__eq__(o)


def tok_eq(a, b):
    if a is b:
        return True
    if isinstance(a, Tok) and isinstance(b, Tok):
        if a.tag != b.tag or len(a.args) != len(b.args):
            return False
        return all(bool(tok_eq(x, y)) for x, y in zip(a.args, b.args))
    if isinstance(a, (SArr, SMa)) and isinstance(b, (SArr, SMa)):
        # equality of raw bytes: same kind, same number of elements, same flat content
        if a.kind != b.kind:
            return False
        fa, fb = plain(a), plain(b)
        if fa.ndim == fb.ndim and all(_same(x, y) for x, y in zip(fa.sshape, fb.sshape)):
            r = toarr(raw_elementwise("eq", fa, fb))
            return bool(np_all(r))
        if not dim_eq(prod(fa.sshape), prod(fb.sshape)):
            return False
        r = toarr(raw_elementwise("eq", reshape(fa, (-1,)), reshape(fb, (-1,))))
        return bool(np_all(r))
    if isinstance(a, Sym) or isinstance(b, Sym):
        if is_scalar(a) and is_scalar(b):
            return bool(scalar_op("eq", lift(a), lift(b)))
        return False
    if isinstance(a, (SArr, SMa)) or isinstance(b, (SArr, SMa)) or isinstance(a, Tok) or isinstance(b, Tok):
        return False
    return a == b


# --------------------------------------------------------------------------- unique sets and lazy lists
class UniqSet:
    """np.unique of a 1-d array of symbolic length: the set {value(i) : 0<=i<n, member(i)}
    (plus possibly one trailing masked entry)"""
    _is_symbolic = True

    def __init__(self, dim, value, member, masked):
        self.dim, self.value, self.member, self.masked = dim, value, member, masked
        self._any = None

    def anymasked(self):
        if self._any is None:
            self._any = bool(_exists((self.dim,), lambda i: Not(self.member(i)), "anymasked"))
        return self._any

    def __contains__(self, x):
        if x is _np.ma.masked:
            return self.masked and self.anymasked()
        return bool(_exists((self.dim,), lambda i: And(self.member(i), scalar_op("eq", self.value(i), x).e), "inuniq"))

    def __getitem__(self, key):
        if isinstance(key, slice) and key.start in (None, 0) and key.stop == -1 and key.step is None and self.masked:
            # drops the trailing (masked) entry: valid only when some entry is masked
            if self.anymasked():
                return UniqSet(self.dim, self.value, self.member, False)
        raise Unsupported("indexing a unique set")

    def compressed(self):
        return UniqSet(self.dim, self.value, self.member, False)

    def __iter__(self):
        raise Unsupported("native iteration over unique set")

    def __len__(self):
        raise Unsupported("len(unique)")

    def slen(self):
        """contract of len(np.unique(a)): n iff all entries are pairwise distinct"""
        cx = ctx()
        n = self.dim
        i, j = cx.fresh("ui", "i").e, cx.fresh("uj", "i").e
        dup = And(i >= 0, i < j, zlt(j, n), self.member((i,)), self.member((j,)),
                  scalar_op("eq", self.value((i,)), self.value((j,))).e)
        if self.masked or not z3.is_true(self.member((i,))):
            raise Unsupported("len(unique) of masked data")
        if cx._check(dup) == z3.unsat:
            return n if isinstance(n, int) else Sym("i", n)
        if cx.branch(cx.fresh("dups", "b").e):
            cx.add_pc(dup)
            cx.index_term(n, i)
            cx.index_term(n, j)
            if not cx.feasible(TRUE):
                from .core import Infeasible
                raise Infeasible()
            u = cx.fresh("nuniq", "i")
            cx.fact(And(u.e >= 1, zlt(u.e, n)))
            return u
        val = self.value
        cx.add_universal((n, n), lambda t: z3.Implies(zi(t[0]) < zi(t[1]),
                                                      Not(scalar_op("eq", val((t[0],)), val((t[1],))).e)))
        return n if isinstance(n, int) else Sym("i", n)


def np_unique(a, **kw):
    if kw:
        raise Unsupported("unique with options")
    a = toarr(a)
    if a.ndim != 1:
        raise Unsupported("unique of nd array")
    rd = a.reader()
    if isinstance(a, SMa) and a._mask is not None:
        mr = a._mask.reader()
        return UniqSet(a.sshape[0], rd, lambda i: Not(mr(i).e), True)
    ms = a.tag.get("compressed_by") if isinstance(a, SArr) else None
    if ms is not None and len(ms.dims) == 1:
        # value at position i of the uncompressed domain
        return UniqSet(ms.dims[0], lambda i: rd((ms.rank(i),)), lambda i: ms.fn(tuple(i)), False)
    return UniqSet(a.sshape[0], rd, lambda i: TRUE, False)


class SList:
    """list comprehension over a symbolic-length iterable"""
    _is_symbolic = True

    def __init__(self, dim, get):
        self.dim, self.get = dim, get

    def slen(self):
        return Sym("i", zi(self.dim))

    def to_array(self):
        k = ctx().fresh("lst", "i")
        v = self.get(k.e)
        if is_scalar(v):
            kind = lift(v).kind
            return new((self.dim,), kind, lambda i: lift(self.get(i[0])))
        a = toarr(v)
        if isinstance(a, SMa):
            a = a.data
        sh = a.sshape
        return new((self.dim,) + tuple(sh), a.kind, lambda i: plain(self.get(i[0])).reader()(tuple(i[1:])))


# --------------------------------------------------------------------------- symbolic inputs
def sym_array(name, shape, kind="f", nan=False, axioms=()):
    """uninterpreted input array; `axioms`: list of (arity, fn(reader, *idxtuples)->z3 Bool)"""
    cx = ctx()
    shape = ndshape(shape)
    sort = {"b": z3.BoolSort(), "i": z3.IntSort()}.get(kind, z3.RealSort())
    F = z3.Function(name, *([z3.IntSort()] * len(shape)), sort) if shape else None
    N = z3.Function(name + "_nan", *([z3.IntSort()] * len(shape)), z3.BoolSort()) if nan else None
    ua = UsedArray(name)
    cx.arrays.append(ua)

    def raw(idx):
        zs = [zi(i) for i in idx]
        return Sym(kind, F(*zs) if shape else z3.Const(name, sort), N(*zs) if nan else None)

    def fn(idx):
        ua.use(tuple(zi(i) for i in idx))
        return raw(idx)
    for ar, f in axioms:
        ua.axioms.append((ar, (lambda f: lambda *t: f(raw, *t))(f)))
    a = new(shape, kind, fn)
    a.used = ua
    a.F = F
    a.name = name
    cx.inputs[name] = ("array", a, shape, kind, F, N)
    return a


def ascending(strict=True):
    def f(raw, i, j):
        (i,), (j,) = i, j
        a, b = raw((i,)), raw((j,))
        return z3.Implies(i < j, a.e < b.e if strict else a.e <= b.e)
    return (2, f)


def descending(strict=True):
    def f(raw, i, j):
        (i,), (j,) = i, j
        a, b = raw((i,)), raw((j,))
        return z3.Implies(i < j, a.e > b.e if strict else a.e >= b.e)
    return (2, f)
