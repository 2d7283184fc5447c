"""pyvc core: symbolic values, path exploration and obligations.

The verifier executes the *real* functions of /repo/gridded (see loader.py) under CPython with
symbolic inputs.  Every `if` on a symbolic condition forks; every path ends in an outcome
(returned value or raised exception).  Postconditions become SMT queries  path /\\ facts /\\ not post.
"""
import itertools
import time as _time
import z3


class Unsupported(BaseException):
    """The code left the subset the verifier understands (=> undecided, never an alarm)."""


class Infeasible(BaseException):
    """Current path condition is unsatisfiable."""


class PathDone(BaseException):
    """this path only served to discharge obligations inside a loop"""


class BudgetExceeded(BaseException):
    pass


_ctx = None


def ctx():
    if _ctx is None:
        raise Unsupported("symbolic operation outside a verification context")
    return _ctx


def active():
    return _ctx is not None


# --------------------------------------------------------------------------- z3 helpers
def zi(x):
    """python int / Sym / z3 -> z3 Int expr"""
    if isinstance(x, Sym):
        if x.kind == "b":
            return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
        if x.kind != "i":
            raise Unsupported("float used as an index")
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if hasattr(x, "__index__") and not isinstance(x, z3.ExprRef):
        return z3.IntVal(int(x))
    return x


def simp(e):
    return z3.simplify(e)


def conc_int(x):
    """return python int if x denotes a literal integer, else None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Sym):
        x = x.e
    if isinstance(x, z3.ExprRef):
        if z3.is_int_value(x):
            return x.as_long()
        s = simp(x)
        if z3.is_int_value(s):
            return s.as_long()
        return None
    if hasattr(x, "__index__"):
        return int(x)
    return None


def norm(x):
    """normal form of an index/dimension: python int when literal, else simplified z3 Int"""
    c = conc_int(x)
    if c is not None:
        return c
    if isinstance(x, Sym):
        x = x.e
    return simp(x)


def zadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return norm(zi(a) + zi(b))


def zsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return norm(zi(a) - zi(b))


def zmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return norm(zi(a) * zi(b))


def zlt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a < b)
    return zi(a) < zi(b)


def zle(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a <= b)
    return zi(a) <= zi(b)


def zeq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return zi(a) == zi(b)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return z3.BoolVal(False)
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return x
        ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return z3.BoolVal(True)
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return x
        ys.append(x)
    if not ys:
        return z3.BoolVal(False)
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def Not(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


# --------------------------------------------------------------------------- Sym
KINDS = "biftd"  # bool, int, float(real + nan flag), datetime, timedelta


def realval(x):
    """exact real value of a python float (its binary value as a rational)"""
    if isinstance(x, int):
        return z3.RealVal(x)
    n, d = float(x).as_integer_ratio()
    return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)


_nanfn = None


def lift(x):
    """python / numpy scalar -> Sym"""
    import math
    import datetime as _dt
    if isinstance(x, Sym):
        return x
    if isinstance(x, z3.ExprRef):
        if z3.is_bool(x):
            return Sym("b", x)
        if z3.is_int(x):
            return Sym("i", x)
        if z3.is_real(x):
            return Sym("f", x)
        raise Unsupported("z3 sort")
    tn = type(x).__name__
    if isinstance(x, bool) or tn in ("bool_", "bool"):
        return Sym("b", z3.BoolVal(bool(x)))
    if isinstance(x, int):
        return Sym("i", z3.IntVal(x))
    if isinstance(x, float):
        if math.isnan(x):
            return Sym("f", z3.RealVal(0), TRUE)
        if math.isinf(x):
            # a constant beyond every float; arithmetic on it is not interpreted further
            ctx().fact(INF > realval(1e308))
            return Sym("f", INF if x > 0 else -INF)
        return Sym("f", realval(x))
    if isinstance(x, _dt.datetime):
        return Sym("t", realval((x - _dt.datetime(2000, 1, 1)).total_seconds()))
    if isinstance(x, _dt.timedelta):
        return Sym("d", realval(x.total_seconds()))
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        k = x.dtype.kind
        if k == "b":
            return lift(bool(x))
        if k in "iu":
            return lift(int(x))
        if k == "f":
            return lift(float(x))
    raise Unsupported(f"cannot lift {type(x)}")


def is_scalar(x):
    import datetime as _dt
    return isinstance(x, (Sym, bool, int, float, _dt.datetime, _dt.timedelta)) or (
        hasattr(x, "dtype") and getattr(x, "shape", None) == () and not hasattr(x, "_is_sarr"))


def _num2(a, b):
    """unify numeric kinds, returns (kind, ea, eb, nan)"""
    nan = FALSE
    for x in (a, b):
        if x.nan is not None:
            nan = Or(nan, x.nan)
    ka, kb = a.kind, b.kind
    if "f" in (ka, kb):
        return "f", toreal(a), toreal(b), nan
    return "i", zi(a), zi(b), FALSE


def toreal(a):
    if a.kind == "f":
        return a.e
    if a.kind == "b":
        return z3.If(a.e, z3.RealVal(1), z3.RealVal(0))
    if a.kind == "i":
        c = conc_int(a.e)
        if c is not None:
            return z3.RealVal(c)
        return z3.ToReal(a.e)
    raise Unsupported(f"toreal {a.kind}")


def mk(kind, e, nan=None):
    """build a Sym"""
    return Sym(kind, e, nan if nan is not None and not z3.is_false(nan) else None)


def ite(c, a, b):
    """c: z3 Bool; a, b: Sym (or liftable)"""
    if isinstance(c, Sym):
        c = c.e
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a, b = lift(a), lift(b)
    if a.kind != b.kind:
        if set((a.kind, b.kind)) <= set("bif"):
            k, ea, eb, _ = _num2(a, b) if "f" in (a.kind, b.kind) or "i" in (a.kind, b.kind) else (None,) * 4
            nan = z3.If(c, a.nan if a.nan is not None else FALSE, b.nan if b.nan is not None else FALSE) \
                if (a.nan is not None or b.nan is not None) else None
            return mk(k, z3.If(c, ea, eb), nan)
        raise Unsupported(f"ite kinds {a.kind}/{b.kind}")
    if a.nan is None and b.nan is None:
        if a.e.eq(b.e):
            return a
        return Sym(a.kind, z3.If(c, a.e, b.e))
    na = a.nan if a.nan is not None else FALSE
    nb = b.nan if b.nan is not None else FALSE
    return Sym(a.kind, z3.If(c, a.e, b.e), z3.If(c, na, nb))


class Sym:
    """symbolic scalar"""
    __slots__ = ("kind", "e", "nan")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, kind, e, nan=None):
        self.kind = kind
        self.e = e
        self.nan = nan

    # ----- conversions
    def __bool__(self):
        if self.kind == "b":
            return ctx().branch(self.e)
        if self.kind in "if":
            c = self.e != 0
            if self.nan is not None:
                c = Or(self.nan, c)
            return ctx().branch(c)
        return True

    def __index__(self):
        c = conc_int(self.e) if self.kind in "ib" else None
        if c is None:
            raise Unsupported("symbolic int needed as concrete index")
        return c

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __hash__(self):
        # array dimensions may be part of memo keys (pts.shape): constant hash, equality decided by __eq__
        if self.kind == "i" and any(self.e.eq(d) for d in ctx().ghost.get("dims", [])):
            return 7919
        raise Unsupported("hash of symbolic value")

    def __repr__(self):
        return f"<{self.kind}:{self.e}>"

    def __format__(self, spec):
        return f"<sym {self.kind}>"

    __str__ = __repr__

    @property
    def dtype(self):
        from . import arr
        return arr.DT(self.kind)

    shape = ()
    ndim = 0

    def isoformat(self, *a):
        return "<sym time>"

    def total_seconds(self):
        if self.kind != "d":
            raise AttributeError("total_seconds")
        return Sym("f", self.e)

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **kw):
        from . import arr
        return arr.cast(self, arr.kind_of_dtype(dt), arr.narrow_of(dt))

    # ----- arithmetic
    def _other(self, o):
        if isinstance(o, Sym):
            return o
        if is_scalar(o):
            return lift(o)
        return None

    def _bin(self, o, op, rev=False):
        o2 = self._other(o)
        if o2 is None:
            from . import arr
            if arr.arraylike(o):
                a, b = (o, self) if rev else (self, o)
                return arr.elementwise(op, a, b)
            return NotImplemented
        a, b = (o2, self) if rev else (self, o2)
        return scalar_op(op, a, b)

    def __add__(s, o): return s._bin(o, "add")
    def __radd__(s, o): return s._bin(o, "add", True)
    def __sub__(s, o): return s._bin(o, "sub")
    def __rsub__(s, o): return s._bin(o, "sub", True)
    def __mul__(s, o): return s._bin(o, "mul")
    def __rmul__(s, o): return s._bin(o, "mul", True)
    def __truediv__(s, o): return s._bin(o, "div")
    def __rtruediv__(s, o): return s._bin(o, "div", True)
    def __floordiv__(s, o): return s._bin(o, "floordiv")
    def __rfloordiv__(s, o): return s._bin(o, "floordiv", True)
    def __mod__(s, o): return s._bin(o, "mod")
    def __rmod__(s, o): return s._bin(o, "mod", True)
    def __pow__(s, o): return s._bin(o, "pow")
    def __and__(s, o): return s._bin(o, "and")
    def __rand__(s, o): return s._bin(o, "and", True)
    def __or__(s, o): return s._bin(o, "or")
    def __ror__(s, o): return s._bin(o, "or", True)
    def __xor__(s, o): return s._bin(o, "xor")
    def __rxor__(s, o): return s._bin(o, "xor", True)
    def __eq__(s, o):
        r = s._bin(o, "eq")
        return False if r is NotImplemented else r
    def __ne__(s, o):
        r = s._bin(o, "ne")
        return True if r is NotImplemented else r
    def __lt__(s, o): return s._bin(o, "lt")
    def __le__(s, o): return s._bin(o, "le")
    def __gt__(s, o): return s._bin(o, "gt")
    def __ge__(s, o): return s._bin(o, "ge")
    def __neg__(s): return scalar_un("neg", s)
    def __pos__(s): return s
    def __abs__(s): return scalar_un("abs", s)
    def __invert__(s): return scalar_un("invert", s)


_CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
        "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}

INF = z3.Real("inf!")


def _mentions(e, c):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        st.extend(x.children())
    return False


_divnan = z3.Function("div0_is_nan", z3.RealSort(), z3.BoolSort())


def _is_zero_const(e):
    e = simp(e)
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def scalar_op(op, a, b):
    a, b = lift(a), lift(b)
    ka, kb = a.kind, b.kind
    if "t" in (ka, kb) or "d" in (ka, kb):
        return _time_op(op, a, b)
    if op in _CMP:
        if ka == "b" and kb == "b" and op in ("eq", "ne"):
            return Sym("b", simp(a.e == b.e) if op == "eq" else simp(Not(a.e == b.e)))
        k, ea, eb, nan = _num2(a, b)
        r = _CMP[op](ea, eb)
        if not z3.is_false(nan):
            r = Or(nan, r) if op == "ne" else And(Not(nan), r)
        return Sym("b", simp(r))
    if op in ("and", "or", "xor", "logical_and", "logical_or", "logical_xor"):
        if op.startswith("logical_"):
            a, b = truth(a), truth(b)
            op = op[8:]
        elif not (a.kind == "b" and b.kind == "b"):
            raise Unsupported("bitwise op on ints")
        r = {"and": And, "or": Or, "xor": lambda x, y: z3.Xor(x, y)}[op](a.e, b.e)
        return Sym("b", simp(r))
    if op in ("add", "sub", "mul"):
        if op == "add" and ka == "b" and kb == "b":
            return Sym("b", simp(Or(a.e, b.e)))
        if op == "mul" and ka == "b" and kb == "b":
            return Sym("b", simp(And(a.e, b.e)))
        k, ea, eb, nan = _num2(a, b)
        r = ea + eb if op == "add" else ea - eb if op == "sub" else ea * eb
        return mk(k, simp(r), nan)
    if op == "hypot":
        return scalar_un("sqrt", scalar_op("add", scalar_op("mul", a, a), scalar_op("mul", b, b)))
    if op == "arctan2":
        k, ea, eb, nan = _num2(a, b)
        f = z3.Function("arctan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
        return mk("f", f(z3.ToReal(ea) if k == "i" else ea, z3.ToReal(eb) if k == "i" else eb), nan)
    if op == "div":
        nan = FALSE
        for x in (a, b):
            if x.nan is not None:
                nan = Or(nan, x.nan)
        ea, eb = toreal(a), toreal(b)
        sb = simp(eb)
        if z3.is_rational_value(sb):
            if sb.numerator_as_long() == 0:
                return mk("f", ctx().fresh("divz", "f").e, Or(nan, ctx().fresh("divz_nan", "b").e))
            return mk("f", simp(ea / sb), nan)
        ctx().note_div(eb)
        # division by zero is an arbitrary (possibly NaN) value: over-approximation of inf/nan
        nz = And(eb == 0, ctx().fresh("div0nan", "b").e) if ctx().may_be_zero(eb) else FALSE
        return mk("f", simp(ea) / sb, Or(nan, nz))
    if op in ("floordiv", "mod"):
        if "f" in (ka, kb):
            sb = simp(toreal(b))
            if not z3.is_rational_value(sb) or sb.numerator_as_long() <= 0:
                raise Unsupported("float floor division")
            ea = toreal(a)
            q = z3.ToReal(z3.ToInt(ea / sb))
            return mk("f", simp(q if op == "floordiv" else ea - sb * q), a.nan)
        cb = conc_int(b.e)
        ea = zi(a)
        if cb is None:
            if not ctx().provable(zi(b) > 0):
                raise Unsupported("integer division by non literal")
            from .arr import int_divmod
            return Sym("i", int_divmod(simp(ea), simp(zi(b)))[op == "mod"])
        if cb <= 0:
            raise Unsupported("integer division by a literal <= 0")
        return Sym("i", simp(ea / cb if op == "floordiv" else ea % cb))
    if op == "pow":
        cb = None
        sb = simp(toreal(b))
        if z3.is_rational_value(sb):
            n, d = sb.numerator_as_long(), sb.denominator_as_long()
            if d == 1 and 0 <= n <= 4:
                r = lift(1) if a.kind != "f" else lift(1.0)
                for _ in range(n):
                    r = scalar_op("mul", r, a)
                return r
            if (n, d) == (1, 2):
                return scalar_un("sqrt", a)
        raise Unsupported("pow")
    if op in ("minimum", "maximum"):
        k, ea, eb, nan = _num2(a, b)
        c = ea <= eb if op == "minimum" else ea >= eb
        return mk(k, z3.If(c, ea, eb), nan)
    raise Unsupported(f"op {op}")


def _time_op(op, a, b):
    ka, kb = a.kind, b.kind
    if op in _CMP:
        if ka != kb:
            if op == "eq":
                return Sym("b", FALSE)
            if op == "ne":
                return Sym("b", TRUE)
            raise TypeError("can't compare datetime with number")
        return Sym("b", simp(_CMP[op](a.e, b.e)))
    if op == "add":
        if (ka, kb) in (("t", "d"), ("d", "t")):
            return Sym("t", simp(a.e + b.e))
        if (ka, kb) == ("d", "d"):
            return Sym("d", simp(a.e + b.e))
    if op == "sub":
        if (ka, kb) == ("t", "t"):
            return Sym("d", simp(a.e - b.e))
        if (ka, kb) == ("t", "d"):
            return Sym("t", simp(a.e - b.e))
        if (ka, kb) == ("d", "d"):
            return Sym("d", simp(a.e - b.e))
    if op == "div" and (ka, kb) == ("d", "d"):
        return scalar_op("div", Sym("f", a.e), Sym("f", b.e))
    if op == "mul" and ka == "d" and kb in "if":
        return Sym("d", simp(a.e * toreal(b)))
    if op == "mul" and kb == "d" and ka in "if":
        return Sym("d", simp(b.e * toreal(a)))
    raise TypeError(f"unsupported operand types for {op}: {ka} {kb}")


def truth(a):
    a = lift(a)
    if a.kind == "b":
        return a
    if a.kind in "if":
        c = a.e != 0
        if a.nan is not None:
            c = Or(a.nan, c)
        return Sym("b", simp(c))
    raise Unsupported("truth")


def scalar_un(op, a):
    a = lift(a)
    if op == "neg":
        if a.kind == "b":
            raise TypeError("negative of bool")
        return Sym(a.kind, simp(-a.e), a.nan)
    if op in ("abs", "absolute"):
        return Sym(a.kind, z3.If(a.e >= 0, a.e, -a.e), a.nan)
    if op in ("invert", "logical_not"):
        if op == "logical_not":
            a = truth(a)
        if a.kind == "b":
            return Sym("b", simp(Not(a.e)))
        if a.kind == "i":
            return Sym("i", simp(-a.e - 1))
        raise TypeError("invert")
    if op == "isnan":
        if a.kind == "f":
            return Sym("b", a.nan if a.nan is not None else FALSE)
        if a.kind in "ib":
            return Sym("b", FALSE)
        raise TypeError("isnan")
    if op in ("isinf", "isfinite"):
        if a.kind == "f" and _mentions(a.e, INF):
            raise Unsupported(f"{op} of an expression with an infinite constant")
        if op == "isinf":
            return Sym("b", FALSE)
        return Sym("b", Not(a.nan) if a.nan is not None else TRUE)
    if op == "sqrt":
        e = toreal(a)
        r = ctx().memo_term("sqrt", e, lambda: _mk_sqrt(e))
        return mk("f", r, Or(a.nan if a.nan is not None else FALSE, simp(e < 0)))
    if op in ("radians", "degrees"):
        pi = lift(3.141592653589793)
        return scalar_op("div", scalar_op("mul", a, pi if op == "radians" else lift(180)), lift(180) if op == "radians" else pi)
    if op == "square":
        return scalar_op("mul", a, a)
    if op in ("sin", "cos"):
        e = pruned(toreal(a))
        r = ctx().memo_term(op, e, lambda: _mk_trig(e, op))
        return mk("f", r, a.nan)
    if op in ("floor", "ceil"):
        e = toreal(a)
        f = z3.ToReal(z3.ToInt(e))
        return mk("f", f if op == "floor" else z3.If(f == e, f, f + 1), a.nan)
    if op == "sign":
        k, e = ("f", toreal(a)) if a.kind == "f" else ("i", zi(a))
        one, zero = (z3.RealVal(1), z3.RealVal(0)) if k == "f" else (z3.IntVal(1), z3.IntVal(0))
        return mk(k, z3.If(e > 0, one, z3.If(e < 0, -one, zero)), a.nan)
    if op in ("real", "positive"):
        return a
    raise Unsupported(f"unary {op}")


def pruned(e):
    """e without the case distinctions that the path decides, so that equal arguments of a function are equal terms"""
    c, done = ctx(), {}

    def go(t):
        k = t.get_id()
        if k in done:
            return done[k][0]
        r = t
        if z3.is_app_of(t, z3.Z3_OP_ITE) and len(done) < 400:
            g = t.arg(0)
            if c.provable(g):
                r = go(t.arg(1))
            elif c.provable(Not(g)):
                r = go(t.arg(2))
        elif z3.is_app(t) and t.num_args() and (t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL)):
            ch = [go(x) for x in t.children()]
            if any(x is not y and not x.eq(y) for x, y in zip(ch, t.children())):
                r = t.decl()(*ch)
        done[k] = (r, t)
        return r
    r = go(e)
    return e if r is e else simp(r)


def _mk_sqrt(e):
    c = ctx()
    r = c.fresh("sqrt", "f").e
    c.fact(z3.Implies(e >= 0, z3.And(r >= 0, r * r == e)))
    return r


def _mk_trig(e, op):
    c = ctx()
    r = c.fresh(op, "f").e
    c.fact(z3.And(r >= -1, r <= 1))
    other = c._memo.get(("cos" if op == "sin" else "sin", e.get_id()))
    if other is not None:
        c.fact(r * r + other[0] * other[0] == 1)
    # equal arguments, equal values: the arguments may be equal without being the same term
    for k, v in list(c._memo.items()):
        if k[0] == op and not v[1].eq(e):
            c.fact(z3.Implies(v[1] == e, v[0] == r))
    return r


# --------------------------------------------------------------------------- context / exploration
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.backends = {}
        self.unknown = 0


class UsedArray:
    """book-keeping for an uninterpreted input array: index terms at which it was read, and
    quantified axioms instantiated over those terms"""

    def __init__(self, name):
        self.name = name
        self.used = []          # list of tuple of z3 Int
        self._ids = set()
        self.axioms = []        # (arity, fn(*idxtuples) -> z3 Bool)
        self._done = set()

    def use(self, idx):
        key = tuple(x if isinstance(x, int) else ("z", x.get_id()) for x in idx)
        if key not in self._ids:
            self._ids.add(key)
            self.used.append(tuple(idx))


class Ctx:
    def __init__(self, trace, stats, limits):
        self.trace = list(trace)       # decisions to replay
        self.taken = []                # decisions taken on this path
        self.alts = []                 # alternative traces discovered
        self.pc = []                   # path condition (z3 Bools)
        self.facts = []                # facts about library results / inputs
        self.n = 0
        self.arrays = []               # UsedArray
        self.universals = []           # (dims, fn)
        self.idx_terms = []            # (dim, term)
        self._uni_done = set()
        self._memo = {}
        self._keep = []
        self.stats = stats
        self.limits = limits
        self.solver = z3.Solver()
        self.solver.set("timeout", limits.get("branch_ms", 3000))
        self.incomplete = False
        self._pushed = 0
        self._divs = []
        self.inputs = {}               # name -> symbolic input descriptors (for replay)
        self.obligs = []
        self.ghost = {}
        self.log = []
        self.deadline = limits.get("deadline")

    # --- symbols
    def fresh(self, name, kind, nan=False):
        self.n += 1
        nm = f"{name}!{self.n}"
        sort = {"b": z3.BoolSort(), "i": z3.IntSort()}.get(kind, z3.RealSort())
        e = z3.Const(nm, sort)
        return Sym(kind, e, z3.Const(nm + "_nan", z3.BoolSort()) if nan else None)

    def fresh_name(self, name):
        self.n += 1
        return f"{name}!{self.n}"

    def memo_term(self, tag, e, make):
        key = (tag, e.get_id())
        if key not in self._memo:
            self._keep.append(e)
            self._memo[key] = (make(), e)
        return self._memo[key][0]

    def fact(self, f):
        if isinstance(f, Sym):
            f = f.e
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)

    assume = fact

    def index_term(self, dim, term):
        self.idx_terms.append((dim, term))

    def fresh_index(self, dim, name="k"):
        k = self.fresh(name, "i")
        self.fact(And(k.e >= 0, zlt(k.e, dim)))
        self.index_term(dim, k.e)
        return k

    def add_universal(self, dims, fn):
        self.universals.append((tuple(dims), fn))

    # --- fact saturation
    def saturate(self, rounds=3):
        for _ in range(rounds):
            n0 = len(self.facts)
            m0 = sum(len(a.used) for a in self.arrays)
            for a in list(self.arrays):
                for ai, (arity, fn) in enumerate(a.axioms):
                    for tup in itertools.product(range(len(a.used)), repeat=arity):
                        key = (ai,) + tup
                        if key in a._done:
                            continue
                        a._done.add(key)
                        f = fn(*[a.used[t] for t in tup])
                        if f is not None:
                            self.fact(f)
            for ui, (dims, fn) in enumerate(list(self.universals)):
                cands = []
                for d in dims:
                    c = [t for (dd, t) in self.idx_terms if _samedim(dd, d)]
                    lit = conc_int(d)
                    if lit is not None and lit <= 8:
                        c = [z3.IntVal(q) for q in range(lit)]      # these are all of them
                    cands.append(c)
                for tup in itertools.product(*cands):
                    key = (ui,) + tuple(t.get_id() if not isinstance(t, int) else t for t in tup)
                    if key in self._uni_done:
                        continue
                    self._uni_done.add(key)
                    rng = [And(zle(0, t), zlt(t, d)) for t, d in zip(tup, dims)]
                    self.fact(z3.Implies(And(*rng), fn(tup)))
            if len(self.facts) == n0 and sum(len(a.used) for a in self.arrays) == m0:
                break

    # --- solving
    def _tick(self):
        if self.deadline is not None and _time.time() > self.deadline:
            raise BudgetExceeded("time budget")

    def _check(self, *assumptions):
        self._tick()
        self.saturate()
        t0 = _time.time()
        self.solver.push()
        for a in assumptions:
            self.solver.add(a)
        r = self.solver.check()
        self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += _time.time() - t0
        return r

    def feasible(self, c):
        return self._check(c) != z3.unsat

    def provable(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r = self._check(Not(c))
        if r == z3.unknown:
            self.incomplete = True        # not established for lack of time: facts that would follow are missing
        return r == z3.unsat

    def may_be_zero(self, e):
        key = ("mbz", e.get_id(), len(self.pc))
        if key not in self._memo:
            self._keep.append(e)
            self._memo[key] = not self.provable(e != 0)
        return self._memo[key]

    def note_div(self, e):
        self._divs.append(e)

    def add_pc(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def branch(self, cond):
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.trace):
            d = self.trace[i]
            self.taken.append(d)
            if isinstance(d, tuple):
                # forced decision recorded without alternatives
                d = d[0]
            self.add_pc(cond if d else Not(cond))
            return d
        if len(self.taken) > self.limits.get("max_depth", 400):
            raise Unsupported("path too deep")
        t = self.feasible(cond)
        f = self.feasible(Not(cond))
        if not t and not f:
            raise Infeasible()
        if t and f:
            self.alts.append(self.taken + [False])
            self.taken.append(True)
            self.add_pc(cond)
            return True
        d = bool(t)
        self.taken.append((d,))
        self.add_pc(cond if d else Not(cond))
        return d

    def choose(self, n, name="choice"):
        """finite nondeterministic choice 0..n-1 (forks the exploration)"""
        for i in range(n - 1):
            b = self.fresh(name, "b")
            if self.branch(b.e):
                return i
        return n - 1


def _samedim(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


class Path:
    def __init__(self, cx, outcome, value):
        self.ctx = cx
        self.outcome = outcome    # 'return' | 'raise' | 'unsupported'
        self.value = value

    def __enter__(self):
        global _ctx
        self._saved = _ctx
        _ctx = self.ctx
        return self

    def __exit__(self, *a):
        global _ctx
        _ctx = self._saved
        return False


def engine_error(e):
    """exception not raised by the code under test nor by an explicit `raise` of a library shim"""
    import linecache
    tb = e.__traceback__
    if isinstance(e, z3.Z3Exception):
        return True
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return False
    fn = tb.tb_frame.f_code.co_filename
    explicit = linecache.getline(fn, tb.tb_lineno).strip().startswith("raise ")
    if "/pyvc/" in fn or "/z3/" in fn or "/props/" in fn:
        return not explicit
    # an implicit AttributeError / TypeError is typically an incomplete stub: undecided here (the bounded companion
    # sees the real ones); an explicit raise is behaviour
    return isinstance(e, (AttributeError, TypeError)) and not explicit


def explore(fn, stats, limits=None):
    """run fn(ctx) on every feasible path; yields Path objects (ctx left usable for checks)"""
    global _ctx
    limits = dict(limits or {})
    work = [[]]
    n = 0
    while work:
        tr = work.pop()
        n += 1
        if n > limits.get("max_paths", 2000):
            raise BudgetExceeded("max_paths")
        cx = Ctx(tr, stats, limits)
        saved = _ctx
        _ctx = cx
        try:
            try:
                v = fn(cx)
                p = Path(cx, "return", v)
            except (Infeasible, PathDone):
                p = None
            except Unsupported as e:
                p = Path(cx, "unsupported", e)
            except RecursionError as e:
                p = Path(cx, "unsupported", e)
            except Exception as e:  # a genuine exception of the code under test is an outcome
                p = Path(cx, "unsupported" if engine_error(e) else "raise", e)
        finally:
            _ctx = saved
        stats.paths += 1
        if p is not None:
            yield p
        work.extend(cx.alts)     # after the consumer: a postcondition may itself fork


# --------------------------------------------------------------------------- obligations
def collect_uf_apps(exprs):
    """all applications of uninterpreted functions with arity > 0"""
    seen, out, stack = set(), [], list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                out.append(e)
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())
    return out


def purify(exprs):
    """replace UF applications by fresh constants + Ackermann congruence constraints"""
    apps = collect_uf_apps(exprs)
    apps.sort(key=lambda a: len(a.sexpr()))
    subs, groups, cons = [], {}, []
    cur = list(exprs)
    for a in apps:
        a2 = z3.substitute(a, *subs) if subs else a
        v = z3.FreshConst(a.sort(), "p")
        subs.append((a2, v))
        if not a2.eq(a):
            subs.append((a, v))
        groups.setdefault(a.decl().name(), []).append((a2, v))
    out = []
    for e in cur:
        prev = None
        while True:
            e2 = z3.substitute(e, *subs)
            if e2.eq(e):
                break
            e = e2
        out.append(e)
    for g in groups.values():
        for (a, va), (b, vb) in itertools.combinations(g, 2):
            eqs = [x == y for x, y in zip(a.children(), b.children())]
            s = simp(And(*eqs))
            if z3.is_false(s):
                continue
            cons.append(z3.Implies(s, va == vb))
    return out, cons


def check_valid(cx, goal, timeout_ms=20000, extra=()):
    """decide pc /\\ facts => goal.  returns (status, model, backend) status in proved/refuted/unknown"""
    stats = cx.stats
    if isinstance(goal, Sym):
        goal = goal.e
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    cx._tick()
    cx.saturate()
    if z3.is_true(simp(goal)):
        return "proved", None, "simplify"
    base = cx.pc + cx.facts + list(extra)
    q = base + [Not(goal)]
    t0 = _time.time()
    stats.queries += 1
    s = z3.Solver()
    s.set("timeout", min(timeout_ms, 8000))
    s.add(*q)
    r = s.check()
    be = "z3"
    if r == z3.unknown:
        # purified query to the nonlinear real solver
        try:
            pq, cons = purify(q)
            for with_cons in ((False, True) if cons else (True,)):
                t = z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs", "qfnra-nlsat") \
                    if False else z3.Tactic("qfnra-nlsat")
                s2 = z3.TryFor(z3.Then("simplify", "elim-term-ite", "solve-eqs", "smt"), timeout_ms).solver()
                s2.add(*pq)
                if with_cons:
                    s2.add(*cons)
                r2 = s2.check()
                if r2 == z3.unsat:
                    r, be = r2, "z3-purified"
                    break
                if r2 == z3.sat and with_cons and not cons:
                    pass
        except z3.Z3Exception:
            pass
    if r == z3.unknown:
        r3 = _cvc5(q, timeout_ms)
        if r3 == "unsat":
            r, be = z3.unsat, "cvc5"
    stats.solver_s += _time.time() - t0
    if r == z3.unsat:
        stats.backends[be] = stats.backends.get(be, 0) + 1
        return "proved", None, be
    if r == z3.sat:
        return "refuted", s.model(), be
    stats.unknown += 1
    return "unknown", None, be


def _cvc5(q, timeout_ms):
    try:
        import subprocess, tempfile, os
        s = z3.Solver()
        s.add(*q)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
            nm = f.name
        try:
            p = subprocess.run(["cvc5", f"--tlimit={timeout_ms}", nm], capture_output=True, text=True,
                               timeout=timeout_ms / 1000 + 5)
            return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        finally:
            os.unlink(nm)
    except Exception:
        return "unknown"
