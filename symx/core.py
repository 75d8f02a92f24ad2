"""Symbolic reals, symbolic booleans and the per-path context.

A symbolic real is a rational function over named atoms kept in a canonical
expanded form (exact rational coefficients), so that identities are decided by
normalisation where possible and everything else goes to Z3 over the reals.
"""
import math
import time
from fractions import Fraction

import z3
from numpy import dtype as _dtype, float64 as _f64, ndarray as _ndarray

LT, EQ, GT = 1, 2, 4          # bit set of the possible signs of a polynomial
REL = {"<": LT, "<=": LT | EQ, ">": GT, ">=": GT | EQ, "==": EQ, "!=": LT | GT}
MIRROR = {LT: GT, GT: LT, EQ: EQ}


def _mirror(bits):
    out = 0
    for b in (LT, EQ, GT):
        if bits & b:
            out |= MIRROR[b]
    return out


class PathEnd(BaseException):
    """Steers the exploration; never seen by code that catches Exception."""


class PathCut(PathEnd):
    """The path leaves the stated claim (e.g. division by zero)."""


class PathInfeasible(PathEnd):
    pass


class PathLimit(PathEnd):
    """A per-path resource limit was reached."""


class Violation(PathEnd):
    def __init__(self, what, model, decisions=None):
        super().__init__(what)
        self.what, self.model = what, model


_CTX = [None]


def ctx():
    return _CTX[0]


# --------------------------------------------------------------- polynomials
class Poly:
    """Immutable multivariate polynomial: {monomial: Fraction}, where a monomial
    is a tuple of (atom, exponent) sorted by atom."""

    __slots__ = ("d", "_h", "_z")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._z = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def var(name):
        return Poly({((name, 1),): Fraction(1)})

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const_value(self):
        return self.d.get((), Fraction(0))

    def key(self):
        return frozenset(self.d.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def add(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m)
            v = c if v is None else v + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, c):
        if c == 1:
            return self
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.d.items()})

    def neg(self):
        return self.scale(Fraction(-1))

    def sub(self, o):
        return self.add(o.neg())

    def mul(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        if len(self.d) * len(o.d) > 4000:
            raise PathLimit("polynomial product too large")
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        p = Poly(d)
        c = ctx()
        if c is not None and c.squares:
            p = _reduce_squares(p, c.squares)
        return p

    def vars(self):
        return {a for m in self.d for a, _ in m}

    def z3(self):
        if self._z is None:
            terms = []
            for m, c in self.d.items():
                fs = []
                for a, e in m:
                    fs.extend([z3.Real(a)] * e)
                t = None
                for f in fs:
                    t = f if t is None else t * f
                cz = z3.RealVal(c) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
                if t is None:
                    t = cz
                elif c != 1:
                    t = cz * t
                terms.append(t)
            self._z = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
        return self._z

    def eval(self, env):
        tot = Fraction(0)
        for m, c in self.d.items():
            t = c
            for a, e in m:
                t *= env[a] ** e
            tot += t
        return tot

    def __repr__(self):
        out = []
        for m, c in sorted(self.d.items(), key=lambda kv: str(kv[0])):
            s = "*".join(a if e == 1 else f"{a}^{e}" for a, e in m)
            out.append(f"{c}*{s}" if s else str(c))
        return " + ".join(out) or "0"


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def _reduce_squares(p, squares):
    """Replace r^2 by its definition for atoms r that are square roots (or
    absolute values) of a polynomial."""
    while True:
        hit = None
        for m in p.d:
            for a, e in m:
                if e >= 2 and a in squares:
                    hit = (m, a, e)
                    break
            if hit:
                break
        if not hit:
            return p
        m, a, e = hit
        c = p.d[m]
        rest = [(b, x) for b, x in m if b != a]
        if e % 2:
            rest.append((a, 1))
        d = dict(p.d)
        del d[m]
        t = Poly({tuple(sorted(rest)): c})
        sq = squares[a]
        for _ in range(e // 2):
            t = _raw_mul(t, sq)
        p = Poly(d).add(t)


def _raw_mul(p, q):
    d = {}
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = _mono_mul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return Poly(d)


ZERO, ONE = Poly.const(0), Poly.const(1)


def _mono_order(m):
    return (sum(e for _, e in m), m)


def poly_divexact(p, q):
    """p / q if q divides p exactly, else None."""
    if q.is_const():
        c = q.const_value()
        return None if not c else p.scale(1 / c)
    # use a fixed total (graded) order on monomials
    lead = max(q.d, key=lambda m: _grlex(m))
    lc = q.d[lead]
    quot = Poly({})
    rem = p
    for _ in range(200):
        if not rem.d:
            return quot
        lm = max(rem.d, key=lambda m: _grlex(m))
        f = _mono_div(lm, lead)
        if f is None:
            return None
        t = Poly({f: rem.d[lm] / lc})
        quot = quot.add(t)
        rem = rem.sub(_raw_mul(t, q))
    return None


def _grlex(m):
    # graded lexicographic with atoms ordered by name
    return (sum(e for _, e in m), _lexkey(m))


def _lexkey(m):
    # larger exponents on smaller names first; pad by comparing tuples of
    # (negated-name-order) is awkward for strings, so expand to a sorted list
    out = []
    for a, e in m:
        out.extend([_Rev(a)] * e)
    return out


class _Rev:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __lt__(self, o):
        return self.a > o.a

    def __eq__(self, o):
        return self.a == o.a


def _mono_div(m, q):
    d = dict(m)
    for a, e in q:
        x = d.get(a, 0) - e
        if x < 0:
            return None
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


# ------------------------------------------------------------ symbolic reals
class S:
    """A symbolic real: num / den."""

    __slots__ = ("n", "q")

    def __init__(self, n, q=ONE):
        self.n, self.q = n, q

    # -- construction helpers
    @staticmethod
    def lift(v):
        """Poly fraction of a number, or None if v is not a finite number."""
        if isinstance(v, S):
            return v
        if isinstance(v, bool):
            return S(Poly.const(int(v)))
        if isinstance(v, int):
            return S(Poly.const(v))
        if isinstance(v, Fraction):
            return S(Poly.const(v))
        try:
            f = float(v)
        except (TypeError, ValueError):
            return None
        if math.isnan(f) or math.isinf(f):
            return None
        return S(Poly.const(Fraction(f)))

    @staticmethod
    def make(n, q=ONE):
        """Normalise; constants become plain floats when exactly representable."""
        if q.is_const():
            c = q.const_value()
            if c != 1:
                n = n.scale(1 / c)
                q = ONE
        elif not n.d:
            q = ONE
        else:
            r = poly_divexact(n, q)
            if r is not None:
                n, q = r, ONE
            else:
                n, q = _cancel(n, q)
        if q.is_const() and n.is_const():
            c = n.const_value() / q.const_value()
            f = float(c)
            if Fraction(f) == c:
                return _f64(f)
            return S(Poly.const(c))
        return S(n, q)

    def is_const(self):
        return self.n.is_const() and self.q.is_const()

    def value(self):
        return self.n.const_value() / self.q.const_value()

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, _ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, SymBool):
            o = int(bool(o))
        l = S.lift(o)
        if l is None:
            if _is_num(o):
                return f(None, float(o))
            return NotImplemented
        return f(l, None)

    def __add__(self, o):
        def f(l, special):
            if l is None:
                return special
            if _free(self, l):
                return ctx().fresh("f")
            if l.q == self.q:
                return S.make(self.n.add(l.n), self.q)
            return S.make(self.n.mul(l.q).add(l.n.mul(self.q)), self.q.mul(l.q))
        return self._bin(o, f)

    __radd__ = __add__

    def __neg__(self):
        return S(self.n.neg(), self.q)

    def __pos__(self):
        return self

    def __sub__(self, o):
        def f(l, special):
            if l is None:
                return -special
            return self + (-l)
        return self._bin(o, f)

    def __rsub__(self, o):
        def f(l, special):
            if l is None:
                return special
            return l + (-self)
        return self._bin(o, f)

    def __mul__(self, o):
        def f(l, special):
            if l is None:
                if math.isnan(special):
                    return special
                s = ctx().sign(self)
                return math.nan if s == 0 else special * s
            return _mul(self, l)
        return self._bin(o, f)

    __rmul__ = __mul__

    def __truediv__(self, o):
        def f(l, special):
            if l is None:
                return special if math.isnan(special) else 0.0
            return _div(self, l)
        return self._bin(o, f)

    def __rtruediv__(self, o):
        def f(l, special):
            if l is None:
                if math.isnan(special):
                    return special
                s = ctx().sign(self)
                return special * (s or 1)
            return _div(l, self)
        return self._bin(o, f)

    def __pow__(self, o):
        e = S.lift(o)
        if e is None or not e.is_const():
            return ctx().uf("pow", self, o)
        v = e.value()
        if v.denominator == 1:
            n = int(v)
            r = 1.0
            for _ in range(abs(n)):
                r = self * r
            return r if n >= 0 else 1.0 / r
        if v == Fraction(1, 2):
            return self.sqrt()
        if v == Fraction(-1, 2):
            return 1.0 / self.sqrt()
        return ctx().uf("pow", self, float(v))

    def __rpow__(self, o):
        return ctx().uf("pow", o, self)

    def __mod__(self, o):
        return ctx().concretise(self) % o

    def __floordiv__(self, o):
        return ctx().concretise(self) // o

    def __abs__(self):
        return ctx().abs(self)

    # -- elementary functions (numpy calls these for object arrays)
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def sqrt(self):
        return ctx().sqrt(self)

    def _uf(name):
        def g(self):
            return ctx().uf(name, self)
        g.__name__ = name
        return g

    for _n in ("log", "log10", "log2", "log1p", "exp", "expm1", "sin", "cos", "tan", "tanh",
               "sinh", "cosh", "arctan", "arctanh", "arcsin", "arccos", "cbrt", "rint",
               "floor", "ceil", "trunc"):
        locals()[_n] = _uf(_n)
    del _uf, _n

    def square(self):
        return self * self

    def sign(self):
        return _f64(ctx().sign(self))

    def astype(self, dtype, *a, **k):
        d = _dtype(dtype)
        if d.kind in "fO":
            return self
        return d.type(float(self)) if d.kind != "b" else bool(self)

    def copy(self):
        return self

    def tolist(self):
        return self

    ndim = 0
    shape = ()

    def __round__(self, n=None):
        return ctx().uf("round", self, float(n or 0))

    def item(self, *a):
        return self

    # -- comparisons
    def _cmp(self, o, rel):
        if isinstance(o, _ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, SymBool):
            o = int(bool(o))
        l = S.lift(o)
        if l is None:
            if not _is_num(o):
                return NotImplemented
            f = float(o)
            if math.isnan(f):
                return rel == "!="
            return {"<": f > 0, "<=": f > 0, ">": f < 0, ">=": f < 0, "==": False, "!=": True}[rel]
        return _compare(self, l, rel)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        if isinstance(o, _ndarray):
            return r
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        if isinstance(o, _ndarray):
            return r
        return True if r is NotImplemented else r

    def __hash__(self):
        return 7

    def __bool__(self):
        return bool(self != 0)

    # -- escapes to concrete code
    def __float__(self):
        if self.is_const():
            return float(self.value())
        return float(ctx().concretise(self))

    def __int__(self):
        return int(float(self))

    def __complex__(self):
        return complex(float(self))

    def __format__(self, spec):
        if self.is_const():
            return format(float(self), spec)
        c = ctx()
        if c is not None:
            return c.fmt(self, spec)
        return repr(self)

    def __str__(self):
        return self.__format__("")

    def __repr__(self):
        if self.q.is_const():
            return f"<{self.n!r}>"
        return f"<({self.n!r})/({self.q!r})>"

    def __reduce__(self):
        return (S, (self.n, self.q))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def z3(self):
        return self.n.z3() if self.q.is_const() else self.n.z3() / self.q.z3()

    def eval(self, env):
        return self.n.eval(env) / self.q.eval(env)


def _is_num(o):
    try:
        float(o)
        return True
    except (TypeError, ValueError):
        return False


def _cancel(n, q):
    """Cancel the common monomial content and the leading coefficient."""
    common = None
    for p in (n, q):
        for m in p.d:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
            if not common:
                break
        if not common:
            break
    if common:
        mono = tuple(sorted(common.items()))
        n = Poly({_mono_div(m, mono): c for m, c in n.d.items()})
        q = Poly({_mono_div(m, mono): c for m, c in q.d.items()})
    lead = max(q.d, key=_grlex)
    c = q.d[lead]
    if c != 1:
        n, q = n.scale(1 / c), q.scale(1 / c)
    return n, q


def _free(a, b):
    c = _CTX[0]
    return c is not None and c.havoc == "free" and not a.is_const() and not b.is_const()


def _mul(a, b):
    if _free(a, b):
        return ctx().fresh("f")
    if not a.is_const() and not b.is_const() and ctx() is not None and ctx().havoc:
        return ctx().havoc_bin("mul", a, b)
    if a.q.is_const() and b.q.is_const():
        return S.make(a.n.mul(b.n))
    # cross-cancel
    r = poly_divexact(a.n, b.q)
    if r is not None:
        a, b = S(r, a.q), S(b.n, ONE)
    r = poly_divexact(b.n, a.q)
    if r is not None:
        b, a = S(r, b.q), S(a.n, ONE)
    return S.make(a.n.mul(b.n), a.q.mul(b.q))


def _div(a, b):
    c = ctx()
    if b.is_const():
        v = b.value()
        if v == 0:
            if a.is_const():
                av = a.value()
                return math.nan if av == 0 else math.copysign(math.inf, av)
            s = c.sign(a)
            return math.nan if s == 0 else s * math.inf
        return S.make(a.n.scale(1 / v), a.q)
    if c is not None:
        if c.havoc == "free":
            return c.fresh("f")
        if not c.ne0(b):
            # the divisor is zero on this path
            if c.div0 == "cut":
                raise PathCut("division by zero")
            s = c.sign(a) if not a.is_const() else (a.value() > 0) - (a.value() < 0)
            return math.nan if s == 0 else s * math.inf
        if c.havoc:
            q = S.make(a.n.mul(b.q), a.q.mul(b.n)) if (a.q.is_const() and b.q.is_const()) else None
            if not isinstance(q, S) and q is not None:
                return q
            if q is not None and q.q.is_const():
                return q
            return c.havoc_bin("div", a, b)
    return S.make(a.n.mul(b.q), a.q.mul(b.n))


def _compare(a, b, rel):
    if a.q == b.q:
        n, q = a.n.sub(b.n), a.q
    else:
        n, q = a.n.mul(b.q).sub(b.n.mul(a.q)), a.q.mul(b.q)
    bits = REL[rel]
    if n.is_const() and q.is_const():
        v = n.const_value()
        s = LT if v < 0 else (GT if v > 0 else EQ)
        return bool(s & bits)
    if not q.is_const():
        if bits in (EQ, LT | GT):
            p = n
        else:
            p = n.mul(q)
    else:
        p = n if q.const_value() > 0 else n.neg()
    if p.is_const():
        v = p.const_value()
        s = LT if v < 0 else (GT if v > 0 else EQ)
        return bool(s & bits)
    return SymBool(("sgn",) + _canon(p, bits))


def _canon(p, bits):
    """Normalise a polynomial up to a constant factor, flipping the relation."""
    lead = max(p.d, key=_grlex)
    c = p.d[lead]
    if c != 1:
        p = p.scale(1 / c)
        if c < 0:
            bits = _mirror(bits)
    return p, bits


# ---------------------------------------------------------- symbolic booleans
class SymBool:
    """('sgn', poly, bits) | ('and', a, b) | ('or', a, b) | ('not', a) | ('z', z3expr)"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def z3(self):
        e = self.e
        if e[0] == "sgn":
            return sgn_z3(e[1], e[2])
        if e[0] == "z":
            return e[1]
        if e[0] == "not":
            return z3.Not(bz3(e[1]))
        f = z3.And if e[0] == "and" else z3.Or
        return f(bz3(e[1]), bz3(e[2]))

    def __bool__(self):
        return ctx().decide(self)

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool_", "bool"):
            if isinstance(o, SymBool):
                return bor(band(self, o), band(bnot(self), bnot(o)))
            return self if bool(o) else bnot(self)
        return int(bool(self)) == o

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return 11

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        if isinstance(o, _ndarray):
            return NotImplemented
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, _ndarray):
            return NotImplemented
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"SymBool{self.e!r}"


def sgn_z3(p, bits):
    t, zero = p.z3(), z3.RealVal(0)
    return {LT: t < zero, EQ: t == zero, GT: t > zero, LT | EQ: t <= zero,
            GT | EQ: t >= zero, LT | GT: t != zero}[bits]


def bz3(b):
    return b.z3() if isinstance(b, SymBool) else z3.BoolVal(bool(b))


def bnot(a):
    if not isinstance(a, SymBool):
        return not a
    if a.e[0] == "sgn":
        return SymBool(("sgn", a.e[1], 7 & ~a.e[2]))
    if a.e[0] == "not":
        return a.e[1]
    return SymBool(("not", a))


def band(a, b):
    if not isinstance(a, SymBool):
        return b if a else False
    if not isinstance(b, SymBool):
        return a if b else False
    return SymBool(("and", a, b))


def bor(a, b):
    if not isinstance(a, SymBool):
        return True if a else b
    if not isinstance(b, SymBool):
        return True if b else a
    return SymBool(("or", a, b))


def ball(xs):
    r = True
    for x in xs:
        r = band(r, x)
    return r


def bany(xs):
    r = False
    for x in xs:
        r = bor(r, x)
    return r


# -------------------------------------------------------------- path context
class Stats:
    FIELDS = ("queries", "sat", "unsat", "unknown", "solver_s", "asserts", "norm_asserts",
              "forks", "concretised")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class SymCtx:
    """One path of the symbolic execution (re-executed from a decision prefix)."""

    symbolic = True

    def __init__(self, prefix=(), havoc=False, div0="cut", timeout_ms=4000, max_decisions=4000,
                 assert_timeout_ms=20000):
        self.prefix = list(prefix)
        self.havoc, self.div0 = havoc, div0
        self.timeout_ms, self.assert_timeout_ms = timeout_ms, assert_timeout_ms
        self.max_decisions = max_decisions
        self.trace = []             # decisions taken: ('b', bool) / ('c', k)
        self.siblings = []          # alternative prefixes to explore
        self.cons = []              # z3 path condition
        self.signs = {}             # poly -> possible sign bits
        self.bmemo = {}
        self.squares = {}
        self.memo = {}              # memoised atoms
        self.inputs = {}            # name -> ('real'|'choice', ...)
        self.choices = {}
        self.nfresh = 0
        self.stats = Stats()
        self.notes = []
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.nonlinear = False
        self.reached = 0
        self.fmts = {}
        self.lastmodel = None

    # -- inputs
    def real(self, name, lo=None, hi=None, nonzero=False):
        self.inputs[name] = "real"
        v = S(Poly.var(name))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        if nonzero:
            self.assume(v != 0)
        return v

    def fresh(self, hint="f"):
        self.nfresh += 1
        return S(Poly.var(f"{hint}!{self.nfresh}"))

    def choose(self, name, n):
        """Nondeterministic choice among n alternatives (explored exhaustively)."""
        name = f"{name}"
        if name in self.choices:
            return self.choices[name]
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i][1]
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                self.siblings.append(self.trace + [("c", j)])
        self.trace.append(("c", k))
        self.choices[name] = k
        return k

    # -- assumptions and decisions
    def _add(self, b):
        z = bz3(b)
        self.cons.append(z)
        self.solver.add(z)
        if isinstance(b, SymBool) and b.e[0] == "sgn":
            p, bits = b.e[1], b.e[2]
            self.signs[p] = self.signs.get(p, 7) & bits
        self.lastmodel = None if not self._model_sat(b) else self.lastmodel

    def _model_sat(self, b):
        m = self.lastmodel
        if m is None or not isinstance(b, SymBool):
            return m is not None
        r = m.eval(b.z3(), model_completion=True)
        return z3.is_true(r)

    def assume(self, b):
        if not isinstance(b, SymBool):
            if not b:
                raise PathInfeasible()
            return
        v = self._known(b)
        if v is True:
            return
        if v is False:
            raise PathInfeasible()
        self._add(b)

    def _known(self, b):
        """Syntactic answer from recorded signs, or None."""
        if not isinstance(b, SymBool):
            return bool(b)
        e = b.e
        if e[0] == "sgn":
            cur = self.signs.get(e[1], 7)
            if cur & ~e[2] == 0:
                return True
            if cur & e[2] == 0:
                return False
            return None
        if e[0] == "not":
            k = self._known(e[1])
            return None if k is None else not k
        if e[0] == "and":
            x, y = self._known(e[1]), self._known(e[2])
            if x is False or y is False:
                return False
            return True if x and y else None
        if e[0] == "or":
            x, y = self._known(e[1]), self._known(e[2])
            if x or y:
                return True
            return False if x is False and y is False else None
        return None

    def decide(self, b):
        k = self._known(b)
        if k is not None:
            return k
        # a compound condition is decided part by part so that signs are learnt
        if b.e[0] == "and":
            return self.decide_b(b.e[1]) and self.decide_b(b.e[2])
        if b.e[0] == "or":
            return self.decide_b(b.e[1]) or self.decide_b(b.e[2])
        if b.e[0] == "not":
            return not self.decide_b(b.e[1])
        i = len(self.trace)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            self.trace.append((kind, v))
            if kind == "e":
                self._learn(b, v)
            else:
                self._add(b if v else bnot(b))
            return v
        if i >= self.max_decisions:
            raise PathLimit("too many decisions on one path")
        t = self.feasible(b)
        if t == z3.unsat:
            self._learn(b, False)
            self.trace.append(("e", False))
            return False
        f = self.feasible(bnot(b))
        if f == z3.unsat:
            self._learn(b, True)
            self.trace.append(("e", True))
            return True
        self.stats.forks += 1
        self.siblings.append(self.trace + [("b", False)])
        self.trace.append(("b", True))
        self._add(b)
        return True

    def decide_b(self, b):
        return self.decide(b) if isinstance(b, SymBool) else bool(b)

    def _learn(self, b, v):
        # entailed: remember the sign, no decision recorded
        if b.e[0] == "sgn":
            p, bits = b.e[1], b.e[2]
            self.signs[p] = self.signs.get(p, 7) & (bits if v else (7 & ~bits))

    def feasible(self, b):
        z = bz3(b)
        if self.lastmodel is not None:
            if z3.is_true(self.lastmodel.eval(z, model_completion=True)):
                return z3.sat
        t0 = time.time()
        r = self.solver.check(z)
        if r == z3.sat:
            self.lastmodel = self.solver.model()
        self._count(r, t0)
        if r == z3.unknown:
            r = self._hard(z, self.timeout_ms)
        return r

    def _count(self, r, t0):
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1

    def _hard(self, z, ms, want_model=False):
        """Second opinion: nlsat on the whole path condition."""
        t0 = time.time()
        try:
            s = z3.SolverFor("QF_NRA")
            s.set("timeout", ms)
            s.add(*self.cons)
            s.add(z)
            r = s.check()
            if r == z3.sat:
                self.lastmodel = s.model()
        except z3.Z3Exception:
            r = z3.unknown
        self._count(r, t0)
        if r != z3.unknown:
            self.stats.unknown -= 1
        return r

    def ne0(self, x):
        return bool(x != 0)

    def sign(self, x):
        if not isinstance(x, S):
            return (x > 0) - (x < 0)
        if bool(x > 0):
            return 1
        if bool(x < 0):
            return -1
        return 0

    # -- derived atoms
    def _atom(self, key, hint):
        a = self.memo.get(key)
        if a is None:
            self.nfresh += 1
            a = S(Poly.var(f"{hint}!{self.nfresh}"))
            self.memo[key] = a
            return a, True
        return a, False

    def abs(self, x):
        if not isinstance(x, S):
            return abs(x)
        if x.is_const():
            return S.make(Poly.const(abs(x.value())))
        if self.havoc == "free":
            a = self.fresh("abs")
            self._add_raw(a.z3() >= 0)
            self.signs[a.n] = GT | EQ
            return a
        b = x >= 0
        k = self._known(b) if isinstance(b, SymBool) else b
        if k is True:
            return x
        b2 = x <= 0
        k2 = self._known(b2) if isinstance(b2, SymBool) else b2
        if k is False or k2 is True:
            return -x
        # canonical up to sign so that |x| and |-x| share the atom
        p, _ = _canon(x.n, GT)
        q = x.q
        scale = abs(x.n.d[max(x.n.d, key=_grlex)])
        a, new = self._atom(("abs", p, q), "abs")
        if new:
            base = S(p, q)
            az = a.z3()
            bzr = base.z3()
            c = z3.Or(z3.And(bzr >= 0, az == bzr), z3.And(bzr < 0, az == -bzr))
            self.cons.append(c)
            self.solver.add(c)
            self.lastmodel = None
            self.signs[a.n] = GT | EQ
            if q.is_const():
                self.squares[list(a.n.vars())[0]] = p.mul(p)
        return a * S.make(Poly.const(scale))

    def sqrt(self, x):
        if not isinstance(x, S):
            return math.sqrt(x) if x >= 0 else math.nan
        if x.is_const():
            v = x.value()
            if v < 0:
                return math.nan
            return math.sqrt(v)
        if self.havoc == "free":
            return self.fresh("sqrt")
        if self.havoc:
            a, new = self._atom(("sqrt", x.n, x.q), "sqrt")
            if new:
                self._add_raw(a.z3() >= 0)
                self._add_raw(z3.Implies(x.z3() > 0, a.z3() > 0))
            return a
        if not bool(x >= 0):
            return math.nan
        # sqrt(p/q) = sqrt(p*q)/|q|
        if not x.q.is_const():
            return self.sqrt(S.make(x.n.mul(x.q))) / self.abs(S(x.q))
        a, new = self._atom(("sqrt", x.n), "sqrt")
        if new:
            self._add_raw(a.z3() >= 0)
            self._add_raw(a.z3() * a.z3() == x.z3())
            self.squares[list(a.n.vars())[0]] = x.n
            self.signs[a.n] = GT | EQ
        return a

    def index(self, name, n):
        """A symbolic index in 0..n-1."""
        from .arr import SymIdx
        v = self.real(name)
        self._add_raw(z3.Or(*[v.z3() == k for k in range(n)]))
        return SymIdx(v, n)

    def ite(self, cond, a, b):
        if not isinstance(cond, SymBool):
            return a if cond else b
        k = self._known(cond)
        if k is not None:
            return a if k else b
        la, lb = S.lift(a), S.lift(b)
        if la is None or lb is None:
            return a if bool(cond) else b
        if la.n == lb.n and la.q == lb.q:
            return a
        if self.havoc == "free":
            return self.fresh("ite")
        self.nfresh += 1
        t = S(Poly.var(f"ite!{self.nfresh}"))
        z = cond.z3()
        self._add_raw(z3.If(z, t.z3() == la.z3(), t.z3() == lb.z3()))
        return t

    def _add_raw(self, z):
        self.cons.append(z)
        self.solver.add(z)
        self.lastmodel = None

    def uf(self, name, *args):
        """Uninterpreted elementary function, memoised on its arguments."""
        if self.havoc == "free" and any(isinstance(a, S) and not a.is_const() for a in args):
            return self.fresh(name)
        key = [name]
        vals = []
        for a in args:
            l = S.lift(a)
            if l is None:
                f = float(a)
                key.append(repr(f))
                vals.append(None)
            else:
                key.append((l.n, l.q))
                vals.append(l)
        if all(v is not None and v.is_const() for v in vals) and len(vals) == 1:
            import numpy as np
            fn = getattr(np, name, None)
            if fn is not None:
                with np.errstate(all="ignore"):
                    return float(fn(float(vals[0].value())))
        a, new = self._atom(tuple(key), name)
        if new:
            az = a.z3()
            if name == "exp":
                self._add_raw(az > 0)
                self.signs[a.n] = GT
            elif name == "log" and vals[0] is not None:
                xz = vals[0].z3()
                self._add_raw(z3.And(z3.Implies(xz >= 1, az >= 0), z3.Implies(xz <= 1, az <= 0),
                                     z3.Implies(xz != 1, az != 0)))
            elif name == "cosh":
                self._add_raw(az >= 1)
                self.signs[a.n] = GT
            elif name in ("tanh", "sin", "cos"):
                self._add_raw(z3.And(az >= -1, az <= 1))
        return a

    def havoc_bin(self, op, a, b):
        ka, kb = (a.n, a.q), (b.n, b.q)
        # scalar factors are pulled out so that the abstraction stays linear
        if op == "mul":
            if hash(ka) > hash(kb) or (hash(ka) == hash(kb) and repr(ka) > repr(kb)):
                a, b, ka, kb = b, a, kb, ka
        atom, new = self._atom((op, ka, kb), op)
        if new and ka == kb and op == "mul":
            self._add_raw(atom.z3() >= 0)
            self.signs[atom.n] = GT | EQ
        return atom

    def concretise(self, x):
        """Pin a symbolic value to one feasible concrete value (incomplete)."""
        i = len(self.trace)
        if i < len(self.prefix):
            v = Fraction(self.prefix[i][1])
        else:
            r = self.solver.check()
            self.stats.queries += 1
            if r == z3.sat:
                v = _frac(self.solver.model().eval(x.z3(), model_completion=True))
            else:
                raise PathLimit("cannot concretise")
        f = float(v)
        v = Fraction(f) if self._try_eq(x, Fraction(f)) else v
        self.trace.append(("v", v))
        self.stats.concretised += 1
        self._add(x == S.make(Poly.const(v)) if not isinstance(x == v, bool) else True)
        return float(v)

    def _try_eq(self, x, v):
        e = _compare(x, S(Poly.const(v)), "==")
        if not isinstance(e, SymBool):
            return bool(e)
        return self.solver.check(e.z3()) == z3.sat

    def fmt(self, x, spec):
        """Formatting of a symbolic number: an opaque, injective token."""
        key = (x.n, x.q, spec)
        if key not in self.fmts:
            self.fmts[key] = f"@{len(self.fmts)}:{spec}@"
        return self.fmts[key]

    # -- property assertions
    def check(self, cond, what):
        """Assert cond on this path; raise Violation with a model otherwise."""
        self.reached += 1
        self.stats.asserts += 1
        if not isinstance(cond, SymBool):
            if not cond:
                m = self.path_model()
                if m is None:
                    raise PathLimit("path feasibility unknown at a failed assertion: " + what)
                raise Violation(what, m)
            self.stats.norm_asserts += 1
            return
        k = self._known(cond)
        if k is True:
            self.stats.norm_asserts += 1
            return
        neg = z3.Not(bz3(cond))
        r = self._assert_query(neg)
        if r == z3.sat:
            raise Violation(what, self._robust_model([neg]))
        if r == z3.unknown:
            self.notes.append("unknown: " + what)
            return
        self._learn(cond, True)

    def _assert_query(self, z):
        t0 = time.time()
        self.solver.set("timeout", self.timeout_ms)
        r = self.solver.check(z)
        if r == z3.sat:
            self.lastmodel = self.solver.model()
        self._count(r, t0)
        if r == z3.unknown:
            r = self._hard(z, self.assert_timeout_ms)
        return r

    def check_eq(self, a, b, what):
        """a == b over the reals (or both NaN)."""
        an, bn = _isnan(a), _isnan(b)
        if an or bn:
            self.check(an and bn, what + f" (NaN mismatch: {a!r} vs {b!r})")
            return
        if not isinstance(a, S) and not isinstance(b, S):
            # both numeric: float rounding of concrete arithmetic is tolerated
            fa, fb = float(a), float(b)
            ok = fa == fb or abs(fa - fb) <= 1e-9 * max(1.0, abs(fa), abs(fb))
            self.check(ok, what + f" ({fa!r} != {fb!r})")
            return
        la, lb = S.lift(a), S.lift(b)
        if la is None or lb is None:
            self.check(False, what)
            return
        d = la - lb
        if not isinstance(d, S):
            d = S.lift(d)
        if d.is_const():
            self.check(abs(d.value()) <= Fraction(1, 10 ** 9), what)
            return
        cond = _compare(d, S(ZERO), "==")
        self.reached += 1
        self.stats.asserts += 1
        k = self._known(cond)
        if k is True:
            self.stats.norm_asserts += 1
            return
        neg = z3.Not(bz3(cond))
        r = self._assert_query(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.notes.append("unknown: " + what)
            return
        dz = d.n.z3()
        raise Violation(what, self._robust_model(
            [neg], margin=[z3.Or(dz > 1, dz < -1), z3.Or(dz > z3.Q(1, 100), dz < -z3.Q(1, 100))]))

    def check_close(self, a, b, what):
        """a == b as rational functions, up to the rounding of numeric constants in the code."""
        if isinstance(a, S) or isinstance(b, S):
            la, lb = S.lift(a), S.lift(b)
            if la is not None and lb is not None:
                x, y = la.n.mul(lb.q), lb.n.mul(la.q)
                diff, top = x.add(y.mul(Poly.const(-1))), max([abs(v) for v in x.d.values()], default=0)
                if sum(abs(v) for v in diff.d.values()) * 10 ** 9 <= top:
                    self.reached += 1
                    self.stats.asserts += 1
                    self.stats.norm_asserts += 1
                    return
        self.check_eq(a, b, what)

    def path_model(self):
        r = self._assert_query(z3.BoolVal(True))
        if r == z3.unsat:
            raise PathInfeasible()
        if r != z3.sat:
            return None
        return self._robust_model([])

    def _robust_model(self, extra, margin=()):
        """Prefer models with moderate values and a clear margin."""
        base = self.lastmodel
        names = [n for n, k in self.inputs.items() if k == "real"]
        bounds = [z3.And(z3.Real(n) >= -8, z3.Real(n) <= 8) for n in names]
        tries = [list(extra) + bounds + [m] for m in margin] + [list(extra) + bounds]
        tries += [list(extra) + [m] for m in margin]
        for t in tries:
            self.solver.set("timeout", 2500)
            r = self.solver.check(*t)
            self.stats.queries += 1
            if r == z3.unknown:
                r = self._hard(z3.And(*t), 2500)
                if r == z3.sat:
                    base = self.lastmodel
                    break
                continue
            if r == z3.sat:
                base = self.solver.model()
                break
        return self._extract(base)

    def _extract(self, m):
        out = {}
        for n, k in self.inputs.items():
            v = m.eval(z3.Real(n), model_completion=True) if m is not None else None
            out[n] = float(_frac(v)) if v is not None else 0.0
        for n, k in self.choices.items():
            out["choice:" + n] = k
        return out

    def sample_model(self):
        m = self.path_model()
        return m


def _isnan(v):
    return not isinstance(v, S) and isinstance(v, float) and math.isnan(v) or (
        not isinstance(v, S) and type(v).__name__ in ("float64", "float32") and math.isnan(float(v)))


def _frac(v):
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    # a term that did not evaluate (e.g. division by zero inside a model)
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return v.as_fraction()
    return Fraction(0)
