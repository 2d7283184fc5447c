"""Field-identity back end: decides  hyp => a == b  for terms built from + - * / over atoms by normalising both sides to a
quotient of polynomials (exact rational coefficients).  If-then-else conditions are resolved with the SMT solver under hyp;
every denominator has to be proved non-zero under hyp."""
import random
import time as _time
from fractions import Fraction

import z3

from .core import INF, And, Not, check_valid, simp


class NotRing(Exception):
    pass


# polynomials: dict {monomial (sorted tuple of (atom id, power)): Fraction}
def _add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mm(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def _mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mm(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > 60000:
        raise NotRing("polynomial too large")
    return r


ONE = {(): Fraction(1)}


class Norm:
    def __init__(self, cx, hyp):
        self.cx = cx
        self.hyp = hyp
        self.memo = {}
        self.rm = {}
        self.sub = {}
        self.atoms = {}
        self.keep = []
        self.dens = []           # (z3 expr, poly)
        self.s = None

    def _entails(self, c, ms=2000):
        if self.s is None:
            self.s = z3.Solver()
            self.s.add(*self.cx.pc, *self.cx.facts, self.hyp)
        self.s.push()
        self.s.set("timeout", ms)
        self.s.add(Not(c))
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat

    def resolve(self, e):
        """rewrite e with every If condition decided under hyp replaced by its branch"""
        i = e.get_id()
        if i in self.rm:
            return self.rm[i]
        self.keep.append(e)
        if z3.is_app(e) and e.num_args() > 0:
            if e.decl().kind() == z3.Z3_OP_ITE:
                c = self.resolve(e.arg(0))
                if z3.is_true(simp(c)) or self._entails(c):
                    r = self.resolve(e.arg(1))
                elif z3.is_false(simp(c)) or self._entails(Not(c)):
                    r = self.resolve(e.arg(2))
                else:
                    r = z3.If(c, self.resolve(e.arg(1)), self.resolve(e.arg(2)))
            else:
                ch = [self.resolve(x) for x in e.children()]
                r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else simp(e.decl()(*ch)) if e.decl().kind() == \
                    z3.Z3_OP_UNINTERPRETED else e.decl()(*ch)
        else:
            r = e
        self.keep.append(r)
        self.rm[i] = r
        return r

    def peel(self, e):
        """decide the If conditions at the top of e under hyp"""
        while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c = e.arg(0)
            for ms in (100, 400, 3000):
                if self._entails(c, ms):
                    e = e.arg(1)
                    break
                if self._entails(Not(c), ms):
                    e = e.arg(2)
                    break
            else:
                break
        return simp(e)

    def atom(self, e):
        i = e.get_id()
        if i in self.sub:
            y = self.sub.pop(i)
            r = self.frac(y)
            self.sub[i] = y
            return r
        self.keep.append(e)
        self.atoms[i] = e
        return {((i, 1),): Fraction(1)}, dict(ONE)

    def frac(self, e):
        i = e.get_id()
        if i not in self.memo:
            self.keep.append(e)
            self.memo[i] = self._frac(e)
        return self.memo[i]

    def _frac(self, e):
        if z3.is_rational_value(e):
            c = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): c} if c else {}), dict(ONE)
        if z3.is_int_value(e):
            c = Fraction(e.as_long())
            return ({(): c} if c else {}), dict(ONE)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            n, d = self.frac(ch[0])
            for x in ch[1:]:
                n2, d2 = self.frac(x)
                s = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = _add(n, n2, s)
                else:
                    n, d = _add(_mul(n, d2), _mul(n2, d), s), _mul(d, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.frac(ch[0])
            return _add({}, n, -1), d
        if k == z3.Z3_OP_MUL:
            n, d = self.frac(ch[0])
            for x in ch[1:]:
                n2, d2 = self.frac(x)
                n, d = _mul(n, n2), _mul(d, d2)
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.frac(ch[0])
            n2, d2 = self.frac(ch[1])
            if not n2:
                raise NotRing("division by zero")
            self.dens.append((ch[1], n2))
            return _mul(n, d2), _mul(d, n2)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and \
                0 <= ch[1].numerator_as_long() <= 4:
            n, d = self.frac(ch[0])
            rn, rd = dict(ONE), dict(ONE)
            for _ in range(ch[1].numerator_as_long()):
                rn, rd = _mul(rn, n), _mul(rd, d)
            return rn, rd
        if k == z3.Z3_OP_TO_REAL:
            return self.frac(ch[0])
        return self.atom(e)


def _proportional(p, q):
    if set(p) != set(q) or not p:
        return False
    r = None
    for m in p:
        x = p[m] / q[m]
        if r is None:
            r = x
        elif x != r:
            return False
    return True


def _first_ite(*es):
    seen, st = set(), list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE:
            inner = _first_ite(e.arg(0))
            return inner if inner is not None else e.arg(0)
        st.extend(e.children())
    return None


def prove_eq(cx, a, b, hyp, nonzero=(), subst=(), splits=9):
    """True when hyp => a == b is established by field normalisation.  nonzero: terms assumed non-zero by hyp; subst:
    (atom, term) equalities implied by hyp used as rewrite rules (left to right, simultaneously)"""
    N = Norm(cx, hyp)
    a, b = N.resolve(a), N.resolve(b)
    c = _first_ite(a, b)
    if c is not None and splits > 0:
        return all(prove_eq(cx, a, b, And(hyp, x), nonzero, subst, splits - 1) for x in (c, Not(c)))
    nz = [N.resolve(x) for x in nonzero]
    # rewriting applies to the atoms of the polynomials only, not to occurrences inside function arguments
    for x, y in subst:
        x = N.resolve(x)
        N.keep.append(x)
        N.sub[x.get_id()] = N.resolve(y)
    try:
        n1, d1 = N.frac(a)
        n2, d2 = N.frac(b)
        if _add(_mul(n1, d2), _mul(n2, d1), -1):
            return False
        dens = list(N.dens)
        good = [N.frac(x) for x in nz]
    except NotRing:
        return False
    for e, p in dens:
        if len(p) == 1 and () in p:
            continue
        if any(_proportional(p, g[0]) for g in good):
            continue
        if not N._entails(e != 0):
            return False
    return True


def int_divmod(cx, f, d, hyp=z3.BoolVal(True)):
    """quotient and remainder of the integer term f by d, found by polynomial division when d is linear and monic in one of
    its atoms and the remainder is provably in range; None when there is no such decomposition"""
    N = Norm(cx, z3.BoolVal(True))
    try:
        pf, df = N.frac(simp(f))
        pd, dd = N.frac(simp(d))
    except NotRing:
        return None
    if df != ONE or dd != ONE or any(c.denominator != 1 for c in list(pf.values()) + list(pd.values())):
        return None

    def term(p):
        out = []
        for m, c in sorted(p.items(), key=lambda x: str(x[0])):
            t = None
            for i, e in m:
                for _ in range(e):
                    t = N.atoms[i] if t is None else t * N.atoms[i]
            out.append(z3.IntVal(int(c)) if t is None else t if c == 1 else int(c) * t)
        return simp(z3.Sum(out)) if len(out) > 1 else out[0] if out else z3.IntVal(0)
    if len(pd) == 1 and () in pd and pd[()] > 0:      # literal divisor
        n = int(pd[()])
        q = {k: Fraction(int(c) // n) for k, c in pf.items() if int(c) // n}
        r = {k: Fraction(int(c) % n) for k, c in pf.items() if int(c) % n}
        tr = term(r)
        if q and (z3.is_int_value(tr) or cx.provable(z3.Implies(hyp, And(tr >= 0, tr < n)))):
            return term(q), tr
        return None
    for m in pd:
        if len(m) != 1 or m[0][1] != 1 or pd[m] != 1:
            continue
        x = m[0][0]
        if any(x in dict(k) for k in pd if k != m):
            continue
        s = {k: c for k, c in pd.items() if k != m}         # d = x + s
        q, r = {}, dict(pf)
        while True:
            hi = [k for k in r if x in dict(k)]
            if not hi:
                break
            k = max(hi, key=lambda k: dict(k)[x])
            k2 = tuple(sorted((i, e - (i == x)) for i, e in k if e - (i == x)))
            c = r[k]
            q = _add(q, {k2: c})
            r = _add(r, _mul({k2: c}, _add({m: Fraction(1)}, s)), -1)
        tr = term(r)
        if cx.provable(z3.Implies(hyp, And(tr >= 0, tr < d))):
            return term(q), tr
    return None


def prove_false(cx, f, hyp, nonzero=()):
    """hyp => not f, for f built from And / Or / Not over equations: an equation is false when its difference is
    proportional to a term that hyp says is non-zero"""
    N = Norm(cx, hyp)
    try:
        good = [N.frac(N.resolve(x)) for x in nonzero]
    except NotRing:
        good = []

    def false(f):
        f = N.resolve(f)
        if z3.is_false(f):
            return True
        if z3.is_or(f):
            return all(false(x) for x in f.children())
        if z3.is_and(f):
            return any(false(x) for x in f.children()) or N._entails(Not(f))
        if z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
            try:
                n1, d1 = N.frac(f.arg(0))
                n2, d2 = N.frac(f.arg(1))
                p = _add(_mul(n1, d2), _mul(n2, d1), -1)
                if len(p) == 1 and () in p or any(_proportional(p, g[0]) for g in good):
                    return all(len(q) == 1 and () in q or any(_proportional(q, g[0]) for g in good) or N._entails(e != 0)
                               for e, q in N.dens)
            except NotRing:
                pass
        return N._entails(Not(f))
    return false(f)


def guided_refute(cx, goal, tries=6, timeout_ms=4000):
    """look for a counter-model of a non-linear goal with the real atoms pinned to small numbers"""
    from .core import collect_uf_apps
    rnd = random.Random(1)
    apps = [x for x in collect_uf_apps([goal]) if x.sort() == z3.RealSort()]
    consts, seen, st = [], set(), [goal]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.RealSort():
            consts.append(e)
        st.extend(e.children())
    for t in range(tries):
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        s.add(*cx.pc, *cx.facts, Not(goal))
        pins = [x for x in apps + consts]
        rnd.shuffle(pins)
        ps = []
        for i, x in enumerate(pins):
            ps.append((z3.Bool(f"pin!{i}"), x == z3.RealVal(rnd.choice([-3, -2, -1, 0, 1, 2, 3, 5, 7]))))
        s.add(*[z3.Implies(p, q) for p, q in ps])
        on = [p for p, _ in ps]
        for _ in range(12):
            r = s.check(*on)
            if r == z3.sat:
                return s.model()
            if r == z3.unknown:
                break
            core = s.unsat_core()
            if len(core) == 0:
                return None
            drop = rnd.choice(list(core))
            on = [p for p in on if not p.eq(drop)]
    return None


class Rewriter:
    """Rewrites a term under a hypothesis:  branches of If are resolved, comparisons are decided from terms of known sign,
    real sub-terms that are identically equal (as rational functions) to a given term are replaced by a given atom, square
    roots of perfect squares by the root of known sign.  Every step is an equality that follows from hyp."""

    def __init__(self, cx, hyp, subst=(), nonzero=(), signs=(), targets=(), roots=()):
        self.N = Norm(cx, hyp)
        self.cx = cx
        self.hyp = hyp
        self.memo = {}
        self.keep = []
        for x, y in subst:
            self.keep += [x, y]
            self.N.sub[x.get_id()] = y
        fr = lambda t: self.N.frac(t)
        self.nz = [fr(t)[0] for t in nonzero]
        self.signs = [(fr(t), s) for t, s in signs]          # s: 1 (> 0), -1 (< 0), .5 (>= 0), -.5 (<= 0)
        self.roots = [(fr(t), t, s) for t, s in roots]
        self.targets, self.pur, self.ds, self.divfacts = [], {}, None, []
        for t, r in targets:
            f = fr(t)
            if self.defined(t):
                self.targets.append((f, r))
        self.sq = {v[0].get_id(): v[1] for k, v in cx._memo.items() if k[0] == "sqrt"}

    # --- decisions
    def _purify(self, e):
        i = e.get_id()
        if i in self.pur:
            return self.pur[i]
        self.keep.append(e)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
            r = z3.FreshReal("div")
            # IEEE: division by zero is NaN (flagged separately) or an infinity
            self.divfacts.append(z3.Implies(self._purify(e.arg(1)) == 0, z3.Or(r >= INF, r <= -INF)))
        elif z3.is_app(e) and e.num_args():
            ch = [self._purify(c) for c in e.children()]
            r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch) if e.decl().kind() not in (
                z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR) else self._nary(e, ch)
        else:
            r = e
        self.pur[i] = r
        self.keep.append(r)
        return r

    @staticmethod
    def _nary(e, ch):
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            return And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        r = ch[0]
        for c in ch[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r * c
        return r

    def entails(self, c):
        if self.ds is None:
            self.ds = z3.Solver()
            self.ds.set("timeout", 1500)
            self.ds.add(self._purify(self.hyp))
        self.ds.push()
        self.ds.add(Not(self._purify(c)))
        r = self.ds.check()
        self.ds.pop()
        return r == z3.unsat

    def good(self, p):
        """polynomial known to be non-zero"""
        if len(p) == 1 and () in p:
            return True
        return any(_proportional(p, g) for g in self.nz)

    def defined(self, e):
        """no denominator inside e (substitutions included) can be zero"""
        seen, st = set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not z3.is_app(x) or x.sort() != z3.RealSort():
                continue
            if x.decl().kind() == z3.Z3_OP_DIV:
                n, d = self.N.frac(x.arg(1))
                if not self.good(n):
                    return False
            if x.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER):
                st.extend(x.children())
            elif x.get_id() in self.N.sub:
                st.append(self.N.sub[x.get_id()])
        return True

    def sign(self, e):
        """sign of a real term: 1, -1, 0, .5, -.5 or None"""
        try:
            n0 = len(self.N.dens)
            n, d = self.N.frac(e)
        except NotRing:
            return None
        if d != ONE:
            return None
        if not n:
            return 0
        if len(n) == 1 and () in n:
            return 1 if n[()] > 0 else -1
        for (p, pd), s in self.signs:
            if pd == ONE and _proportional(n, p):
                k = next(iter(n))
                return s if n[k] / p[k] > 0 else -s
        return None

    def cmp(self, e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and e.arg(0).sort() == z3.RealSort():
            s = self.sign(e.arg(0) - e.arg(1))
            if s is None:
                return None
            if k == z3.Z3_OP_LE:
                return True if s <= 0 else False if s == 1 else None
            if k == z3.Z3_OP_GT:
                return False if s <= 0 else True if s == 1 else None
            if k == z3.Z3_OP_GE:
                return True if s >= 0 else False if s == -1 else None
            return False if s >= 0 else True if s == -1 else None
        if k == z3.Z3_OP_EQ and e.arg(0).sort() == z3.RealSort():
            try:
                n1, d1 = self.N.frac(e.arg(0))
                n2, d2 = self.N.frac(e.arg(1))
            except NotRing:
                return None
            if d1 == ONE and d2 == ONE:
                p = _add(n1, n2, -1)
                if not p:
                    return True
                if self.good(p):
                    return False
        return None

    def decide(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        v = self.cmp(c) if z3.is_app(c) else None
        if v is not None:
            return v
        if z3.is_not(c):
            v = self.decide(c.arg(0))
            return None if v is None else not v
        if self.entails(c):
            return True
        if self.entails(Not(c)):
            return False
        return None

    # --- rewriting
    def __call__(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        r = self._rw(e)
        self.keep.append(r)
        self.memo[i] = r
        return r

    def _rw(self, e):
        if not z3.is_app(e):
            return e
        if e.num_args() == 0:
            if e.get_id() in self.sq:
                a = self(self.sq[e.get_id()])
                try:
                    n, d = self.N.frac(a)
                except NotRing:
                    return e
                for (rn, rd), t, s in self.roots:
                    if d == ONE and rd == ONE and n == _mul(rn, rn):
                        return t if s > 0 else -t
            return e
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            c = self(e.arg(0))
            v = self.decide(c)
            if v is not None:
                return self(e.arg(1) if v else e.arg(2))
            return z3.If(c, self(e.arg(1)), self(e.arg(2)))
        ch = [self(c) for c in e.children()]
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            r = self._nary(e, ch)
        else:
            r = e.decl()(*ch)
        if r.sort() == z3.BoolSort():
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                v = self.cmp(r)
                if v is not None:
                    return z3.BoolVal(v)
            return simp(r)
        if k == z3.Z3_OP_DIV:
            try:
                n, d = self.N.frac(r)
            except NotRing:
                return r
            if not self.defined(r):
                return r
            for (tn, td), t in self.targets:
                if not _add(_mul(n, td), _mul(tn, d), -1):
                    return t
        return r
