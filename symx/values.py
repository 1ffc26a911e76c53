"""Symbolic values.

SymInt   - a mathematical integer (Python int).
SymFloat - the value of an IEEE-754 double, as a real-valued term.  Every operation that is not
           provably exact yields fl(x), where fl is an uninterpreted function constrained by facts
           that hold for round-to-nearest: |fl(x)-x| <= 2^-53 |x|, sign, floor(x)<=fl(x)<=ceil(x).
           Same computation => same term (congruence).  This over-approximates IEEE doubles (within
           the magnitudes checked here, no overflow/underflow), so `unsat` carries over to the real
           code; a model that is an artefact of the abstraction dies in the concrete replay.
SymBool  - a condition; __bool__ forks the path.
"""
import math
import fractions
import builtins

import z3

F = fractions.Fraction
INF = math.inf
U = F(1, 2**53)
TWO53 = 2**53

CTX = None  # the active engine context


class Unsupported(BaseException):
    """The executed code did something the symbolic values do not model."""


def set_ctx(c):
    global CTX
    CTX = c


_real_cache = {}


def RV(fr):
    r = _real_cache.get(fr)
    if r is None:
        fr = F(fr)
        r = z3.RealVal(f"{fr.numerator}/{fr.denominator}" if fr.denominator != 1 else str(fr.numerator))
        _real_cache[fr] = r
    return r


_int_cache = {}


def IV(i):
    r = _int_cache.get(i)
    if r is None:
        r = _int_cache[i] = z3.IntVal(i)
    return r


FL = z3.Function("fl", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt_", z3.RealSort(), z3.RealSort())


class Sym:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def is_sym(x):
    return isinstance_(x, Sym)


isinstance_ = builtins.isinstance


def _is_real_float(x):
    return type(x) is float or (isinstance_(x, float) and not isinstance_(x, Sym))


# ---------------------------------------------------------------------------------------------
def lift(x):
    """concrete python/numpy number -> ('inf', sign) | SymInt/SymFloat constant | None"""
    t = type(x)
    if t is SymInt or t is SymFloat:
        return x
    if t is SymBool:
        return x.as_int()
    if t is bool:
        x = int(x)
        t = int
    if t is int:
        return SymInt(IV(x), x, x)
    if isinstance_(x, int) and not isinstance_(x, Sym):
        x = int(x)
        return SymInt(IV(x), x, x)
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        try:
            v = x.item()
        except Exception:
            return None
        if isinstance_(v, Sym):
            return v if not isinstance_(v, SymBool) else v.as_int()
        return lift(v)
    if isinstance_(x, float):
        x = float(x)
        if math.isnan(x):
            raise Unsupported("nan meets a symbolic value")
        if math.isinf(x):
            return x
        return const_float(F(x))
    return None


def _dyadic_gran(fr):
    """largest power of two dividing the dyadic rational fr (None if not dyadic)"""
    if fr == 0:
        return F(2) ** 1000
    n, d = abs(fr.numerator), fr.denominator
    if d & (d - 1):
        return None
    if d > 1:
        return F(1, d)
    return F(n & -n)


def const_float(fr):
    return SymFloat(None, fr, fr, _dyadic_gran(fr), None, (SymInt(IV(fr.numerator), fr.numerator, fr.numerator), F(1, fr.denominator)))


def as_float(v):
    """SymInt -> SymFloat (int -> double conversion)"""
    if type(v) is SymFloat:
        return v
    lo, hi = v.lo, v.hi
    if lo is not None and hi is not None and max(abs(lo), abs(hi)) <= TWO53:
        return SymFloat(None, F(lo), F(hi), F(1), None, (v, F(1)))
    raise Unsupported("int->float conversion of an unbounded integer")


def lin_term(lin):
    n, s = lin
    if z3.is_int_value(n.t):
        return RV(n.t.as_long() * s)
    x = z3.ToReal(n.t)
    return x if s == 1 else x * RV(s)


def lin_norm(n, s):
    """(n, s) with n a SymInt or int -> canonical lin"""
    if type(n) is int:
        n = SymInt(IV(n), n, n)
    return (n, F(s))


def lin_common(la, lb):
    """integers na, nb and a scale s with a = na*s, b = nb*s"""
    (na, sa), (nb, sb) = la, lb
    if sa == sb:
        return na, nb, sa
    s = F(math.gcd(sa.numerator * sb.denominator, sb.numerator * sa.denominator), sa.denominator * sb.denominator)
    pa, pb = sa / s, sb / s
    return lift(na * int(pa)), lift(nb * int(pb)), s


def _iv(op, a, b):
    """interval arithmetic on (lo,hi) with None = unbounded"""
    if op == "+":
        return (None if a[0] is None or b[0] is None else a[0] + b[0],
                None if a[1] is None or b[1] is None else a[1] + b[1])
    if op == "-":
        return (None if a[0] is None or b[1] is None else a[0] - b[1],
                None if a[1] is None or b[0] is None else a[1] - b[0])
    if op == "*":
        if None in a or None in b:
            return (None, None)
        c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        return (min(c), max(c))
    raise AssertionError(op)


def _z3mul(a, b):
    return a * b


def fl_round(x, lo, hi, pre, approx=None):
    """the double nearest to the real term x.  pre: lin form of x if it has one; approx: (lin, err) with
    |x - lin| <= err*|lin|"""
    c0 = _const_of(x)
    if c0 is not None:
        return const_float(F(_round_exact(c0)))
    r = FL(x)
    c = CTX
    if lo is None or hi is None:
        raise Unsupported("rounding an unbounded real")
    m = max(abs(lo), abs(hi))
    if m >= F(2) ** 1000:
        raise Unsupported("float magnitude")
    if r.get_id() not in c.defs:
        u = RV(U)
        if lo >= 0:
            f = z3.And(r >= x * RV(1 - U), r <= x * RV(1 + U))
        elif hi <= 0:
            f = z3.And(r <= x * RV(1 - U), r >= x * RV(1 + U))
        else:
            ax = z3.If(x >= 0, x, -x)
            f = z3.And(r - x <= ax * u, x - r <= ax * u)
        c.define(r, f, x)
    # rounding can leave the exact interval by one relative u; round-to-nearest keeps doubles put
    nlo, nhi = F(_round_exact(lo)), F(_round_exact(hi))
    v = SymFloat(r, nlo, nhi, None, pre)
    m = max(abs(nlo), abs(nhi))
    if pre is not None:
        v.approx = (pre, U * m, True)
    elif approx is not None:
        lin, e, ix = approx
        v.approx = (lin, e + U * m, ix)
    return v


def _round_exact(fr):
    """nearest double (ties to even) of a Fraction, as a float"""
    fr = F(fr)
    return fr.numerator / fr.denominator  # int/int true division is correctly rounded


def _const_of(x):
    """the exact rational value of a term that is a numeral, else None"""
    if z3.is_rational_value(x):
        return F(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return F(x.as_long())
    return None


class SymNum(Sym):
    __slots__ = ()

    # -- conversions that need a concrete value: fork over the feasible values
    def __index__(self):
        if type(self) is SymFloat:
            raise TypeError("float object cannot be interpreted as an integer")
        return CTX.concretize(self)

    def __int__(self):
        return CTX.concretize(trunc_int(self))

    def __float__(self):
        return float(CTX.concretize(self))

    def __hash__(self):
        return hash(CTX.concretize(self))

    def __str__(self):
        return str(CTX.concretize(self))

    def __format__(self, spec):
        return format(CTX.concretize(self), spec)

    def __repr__(self):
        return f"<{type(self).__name__} {self.t}>"

    # -- arithmetic
    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        return arith("*", o, self)

    def __truediv__(self, o):
        return arith("/", self, o)

    def __rtruediv__(self, o):
        return arith("/", o, self)

    def __floordiv__(self, o):
        return arith("//", self, o)

    def __rfloordiv__(self, o):
        return arith("//", o, self)

    def __mod__(self, o):
        return arith("%", self, o)

    def __rmod__(self, o):
        return arith("%", o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if type(o) is float and o == int(o) and 0 <= o <= 8:
            return self ** int(o)
        if type(o) is float and o == 0.5:
            return self.sqrt()
        raise Unsupported("pow")

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return sym_max(self, -self)

    def sqrt(self):
        v = as_float(lift(self))
        r = SQRT(v.t)
        CTX.define(r, z3.And(r >= 0, z3.Implies(v.t == 0, r == 0), z3.Implies(v.t > 0, r > 0)))
        hi = None if v.hi is None else F(math.sqrt(max(0, float(v.hi)))) * 2 + 1
        s = SymFloat(r, F(0), hi, None, None)
        s.sqrt_of = v
        return s

    def conjugate(self):
        return self

    # -- comparisons
    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    def __bool__(self):
        return bool(self != 0)

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return -floor_int(-self)

    def __trunc__(self):
        return trunc_int(self)

    def __round__(self, nd=None):
        if nd is None:
            return round_half_even(self)
        v = self
        if nd < 0:
            r = round_half_even(v / 10 ** -nd) * 10 ** -nd
            return r if type(v) is SymInt else as_float(lift(r))
        if type(v) is SymInt:
            return v
        # correctly-rounded decimal rounding: value within half a unit of the last digit
        s = 10 ** nd
        if v.lin is None and v.approx is not None and v.lo is not None and v.hi is not None:
            (n, sc), e, _ = v.approx
            if v.uni is not None and v.uni[2].denominator == 1 and v.uni[3] == 0:
                n, sc = v.uni[0], v.uni[2]
            if sc.denominator == 1 and e * s * 4 < 1:
                # within a quarter unit of the integer n*sc: decimal rounding gives that integer
                return as_float(lift(n * sc.numerator))
        lin = None if v.lin is None else (v.lin[0], v.lin[1] * s)
        if lin is not None and lin[1].denominator == 1:
            return v  # already a multiple of 1/s
        exact = SymFloat(None if lin is not None else v.t * RV(s), None if v.lo is None else v.lo * s,
                         None if v.hi is None else v.hi * s, None, None, lin)
        k = lift(round_half_even(exact))
        return float_arith("/", as_float(k), const_float(F(s)))

    def is_integer(self):
        if type(self) is SymInt:
            return True
        return SymBool(self.t == z3.ToReal(z3.ToInt(self.t)))

    def item(self):
        return self


class SymInt(SymNum):
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo=None, hi=None):
        self.t = t
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    # numpy's object loops call these for floor/ceil/rint on scalars
    def bit_length(self):
        raise Unsupported("bit_length")


class SymFloat(SymNum):
    __slots__ = ("_t", "lo", "hi", "gran", "pre", "lin", "sqrt_of", "approx", "uni")

    def __init__(self, t, lo=None, hi=None, gran=None, pre=None, lin=None):
        self._t = t
        self.lo = lo
        self.hi = hi
        self.gran = gran  # value is a multiple of this dyadic rational (None: unknown)
        self.pre = pre  # value = fl(n*s): (n, s)
        self.lin = lin  # value = n*s exactly: (SymInt n, Fraction s)
        self.sqrt_of = None
        # ((n, s), err, ix): |value - n*s| <= err; ix: value == n*s whenever n*s is an integer
        self.approx = None
        # (SymInt n, tree, alpha, beta): the doubles computed by `tree` from the single integer n; exactly alpha*n+beta
        # over the reals.  Floors of such values are encoded bit-exactly (see uni_int).
        self.uni = None

    @property
    def t(self):
        if self._t is None:
            self._t = lin_term(self.lin)
        return self._t

    @property
    def __class__(self):
        return float


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CTX.branch(self.t)

    def as_int(self):
        if z3.is_true(self.t):
            return SymInt(IV(1), 1, 1)
        if z3.is_false(self.t):
            return SymInt(IV(0), 0, 0)
        return SymInt(z3.If(self.t, IV(1), IV(0)), 0, 1)

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        return SymBool(z3.And(self.t, boolterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, boolterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, boolterm(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance_(o, (bool, SymBool)):
            return mkbool(self.t == boolterm(o))
        return compare("==", self.as_int(), o)

    def __ne__(self, o):
        if isinstance_(o, (bool, SymBool)):
            return mkbool(self.t != boolterm(o))
        return compare("!=", self.as_int(), o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return self.as_int() + o

    def __radd__(self, o):
        return o + self.as_int()

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    def __rmul__(self, o):
        return o * self.as_int()

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __repr__(self):
        return f"<SymBool {self.t}>"

    def __str__(self):
        return str(bool(self))


def boolterm(x):
    if type(x) is SymBool:
        return x.t
    if isinstance_(x, SymNum):
        return boolterm(x != 0)
    return z3.BoolVal(bool(x))


def mkbool(t):
    t = z3.simplify(t) if False else t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


# ---------------------------------------------------------------------------------------------
def arith(op, a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    ia, ib = type(la) is float, type(lb) is float  # infinities
    if ia or ib:
        return arith_inf(op, la, lb)
    if type(la) is SymInt and type(lb) is SymInt:
        return int_arith(op, la, lb)
    return float_arith(op, as_float(la), as_float(lb))


def sign_const(v):
    if v.lo is not None and v.lo > 0:
        return 1
    if v.hi is not None and v.hi < 0:
        return -1
    if v.lo == 0 and v.hi == 0:
        return 0
    return None


def arith_inf(op, a, b):
    ia, ib = type(a) is float, type(b) is float
    if ia and ib:
        x, y = a, b
    elif ia:
        if op in "+-":
            return a
        s = sign_const(b)
        if s is None:
            s = 1 if bool(b > 0) else (-1 if bool(b < 0) else 0)
        x, y = a, float(s)
    else:
        if op == "+":
            return b
        if op == "-":
            return -b
        if op == "/":
            return 0.0
        s = sign_const(a)
        if s is None:
            s = 1 if bool(a > 0) else (-1 if bool(a < 0) else 0)
        x, y = float(s), b
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "/":
        return x / y
    raise Unsupported(f"{op} with infinity")


def int_arith(op, a, b):
    ca = a.lo if (a.lo is not None and a.lo == a.hi) else None
    cb = b.lo if (b.lo is not None and b.lo == b.hi) else None
    if op in "+-*" and len(op) == 1:
        if op == "+":
            if ca == 0:
                return b
            if cb == 0:
                return a
            t = a.t + b.t
        elif op == "-":
            if cb == 0:
                return a
            t = a.t - b.t
        else:
            if ca == 1:
                return b
            if cb == 1:
                return a
            if ca == 0 or cb == 0:
                return 0
            t = a.t * b.t
        if ca is not None and cb is not None:
            v = ca + cb if op == "+" else ca - cb if op == "-" else ca * cb
            return v
        lo, hi = _iv(op, (a.lo, a.hi), (b.lo, b.hi))
        return SymInt(t, lo, hi)
    if op == "/":
        return float_arith("/", as_float(a), as_float(b))
    # // and %
    s = sign_const(b)
    if s is None:
        if bool(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        s = 1 if bool(b > 0) else -1
    elif s == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if ca is not None and cb is not None:
        return ca // cb if op == "//" else ca % cb
    if cb == 1:
        return a if op == "//" else 0
    n, d = (a, b) if s > 0 else (0 - a, 0 - b)
    n, d = lift(n), lift(d)
    q = n.t / d.t  # z3 integer div: floor for positive divisors
    lo = hi = None
    if None not in (n.lo, n.hi, d.lo, d.hi):
        c = [x // y for x in (n.lo, n.hi) for y in (d.lo, d.hi)] if d.lo > 0 else [None]
        if None not in c:
            lo, hi = min(c), max(c)
    Q = SymInt(q, lo, hi)
    if op == "//":
        return Q
    if s > 0 and d.lo is not None and d.hi is not None:
        return SymInt(n.t % d.t, 0, d.hi - 1)
    return a - Q * b


def cval(v):
    if v.lo is not None and v.lo == v.hi:
        return v.lo
    return None


UNI_MAX = 40000
_uni_cache = {}


def _uni(v):
    if v.uni is not None:
        return v.uni
    c = cval(v)
    if c is not None:
        return (None, ("c", c), F(0), F(c))
    if v.lin is not None:
        n, s = v.lin
        if n.lo is None or n.hi is None or n.hi - n.lo > UNI_MAX or _dyadic_gran(s) is None:
            return None
        return (n, ("n", s), s, F(0))
    return None


def _uni_op(op, a, b):
    ua, ub = _uni(a), _uni(b)
    if ua is None or ub is None:
        return None
    n = ua[0] if ua[0] is not None else ub[0]
    if ua[0] is not None and ub[0] is not None and not (ua[0] is ub[0] or ua[0].t.eq(ub[0].t)):
        return None
    if op == "+":
        al, be = ua[2] + ub[2], ua[3] + ub[3]
    elif op == "-":
        al, be = ua[2] - ub[2], ua[3] - ub[3]
    elif op == "*":
        if ua[2] != 0 and ub[2] != 0:
            return None
        al, be = ua[2] * ub[3] + ua[3] * ub[2], ua[3] * ub[3]
    elif op == "/" and ub[2] == 0 and ub[3] != 0:
        al, be = ua[2] / ub[3], ua[3] / ub[3]
    else:
        return None
    return (n, (op, ua[1], ub[1]), al, be)


def _uni_eval(tree, ks):
    import numpy as np
    if tree[0] == "c":
        return np.float64(float(tree[1]))
    if tree[0] == "n":
        return ks.astype(np.float64) * float(tree[1].numerator) / float(tree[1].denominator)
    x, y = _uni_eval(tree[1], ks), _uni_eval(tree[2], ks)
    return x + y if tree[0] == "+" else x - y if tree[0] == "-" else x * y if tree[0] == "*" else x / y


def uni_int(v, how):
    """floor/trunc/round of a double that is a function of one bounded integer: the ideal (rational) result plus
    the finitely many integers where the double computation lands elsewhere; None when that is not possible"""
    u = _uni(v)
    if u is None or u[0] is None or v.lin is not None:
        return None
    n, tree, al, be = u
    if n.lo is None or n.hi is None or n.hi - n.lo > UNI_MAX:
        return None
    key = (tree, n.lo, n.hi, how)
    c = _uni_cache.get(key)
    if c is None:
        import numpy as np
        ks = np.arange(n.lo, n.hi + 1, dtype=np.int64)
        vals = _uni_eval(tree, ks)
        got = {"floor": np.floor, "trunc": np.trunc, "round": np.rint}[how](vals).astype(np.int64)
        a, b = al.limit_denominator(10 ** 6), be.limit_denominator(10 ** 6)
        if how == "round":
            b += F(1, 2)
        q = a.denominator * b.denominator // math.gcd(a.denominator, b.denominator)
        p, r = int(a * q), int(b * q)
        base = (ks * p + r) // q
        if how == "trunc":
            base = np.where((base < 0) & ((ks * p + r) % q != 0), base + 1, base)
        exc = {}
        for i in np.nonzero(got != base)[0]:
            exc.setdefault(int(got[i] - base[i]), []).append(int(ks[i]))
        c = (p, r, q, exc, int(got.min()), int(got.max()))
        if sum(len(x) for x in exc.values()) > 600 or max(abs(p), abs(r), q) > 10 ** 9:
            c = ()
        _uni_cache[key] = c
    if not c:
        return None
    p, r, q, exc, lo, hi = c
    m = n * p + r
    f = lift(lift(m) // q)
    t = f.t
    if how == "trunc" and lo < 0:
        mt = lift(m).t
        t = z3.If(z3.And(mt < 0, mt % q != 0), t + 1, t)
    for d, xs in exc.items():
        runs = []
        for x in xs:
            if runs and runs[-1][1] == x - 1:
                runs[-1][1] = x
            else:
                runs.append([x, x])
        cond = [n.t == IV(x) if x == y else z3.And(n.t >= IV(x), n.t <= IV(y)) for x, y in runs]
        t = t + z3.If(z3.Or(*cond) if len(cond) > 1 else cond[0], IV(d), IV(0))
    return SymInt(t, lo, hi)


def float_arith(op, a, b):
    r = _float_arith(op, a, b)
    if type(r) is SymFloat and r is not a and r is not b and r.lin is None and r.uni is None:
        r.uni = _uni_op(op, a, b)
    return r


def _float_arith(op, a, b):
    ca, cb = cval(a), cval(b)
    if op == "+":
        if ca == 0:
            return b
        if cb == 0:
            return a
    elif op == "-":
        if cb == 0:
            return a
    elif op == "*":
        if ca == 1:
            return b
        if cb == 1:
            return a
        if ca == 0 or cb == 0:
            return 0.0
        if a.sqrt_of is not None and a is b:
            return sqrt_squared(a)
    elif op == "/":
        if cb is None:
            s = sign_const(b)
            if s is None:
                if bool(b == 0):
                    raise ZeroDivisionError("division by zero")
                unit = b.lin or b.pre
                if unit is not None and b.lo is not None and b.hi is not None:
                    # a non-zero multiple of unit[1]: bounded away from 0 on either side
                    import copy
                    m = abs(unit[1]) * (1 - 4 * U)
                    pos = bool(b > 0)
                    b = copy.copy(b)
                    if pos:
                        b.lo = max(b.lo, m)
                    else:
                        b.hi = min(b.hi, -m)
        elif cb == 0:
            raise ZeroDivisionError("division by zero")
        if cb == 1:
            return a
    elif op in ("//", "%"):
        return float_divmod(op, a, b)
    else:
        raise Unsupported("float " + op)
    if ca is not None and cb is not None:
        v = {"+": lambda: ca + cb, "-": lambda: ca - cb, "*": lambda: ca * cb, "/": lambda: ca / cb}[op]()
        return _round_exact(v)
    # exact result as n*s, when both operands have that form
    rl = None
    if a.lin is not None and b.lin is not None:
        if op in "+-":
            na, nb, s = lin_common(a.lin, b.lin)
            rl = lin_norm(na + nb if op == "+" else na - nb, s)
        elif op == "*":
            rl = lin_norm(a.lin[0] * b.lin[0], a.lin[1] * b.lin[1])
        elif cb is not None:
            rl = lin_norm(a.lin[0] if cb > 0 else 0 - a.lin[0], a.lin[1] / abs(cb))
    # interval of the exact result
    if op == "/":
        if cb is not None and a.lo is not None and a.hi is not None:
            c = [a.lo / cb, a.hi / cb]
            lo, hi = min(c), max(c)
        elif None not in (a.lo, a.hi, b.lo, b.hi) and (b.lo > 0 or b.hi < 0):
            c = [p / q for p in (a.lo, a.hi) for q in (b.lo, b.hi)]
            lo, hi = min(c), max(c)
        else:
            lo = hi = None
    else:
        lo, hi = _iv(op, (a.lo, a.hi), (b.lo, b.hi))
    if rl is not None and rl[0].lo is not None and rl[0].hi is not None:
        l2, h2 = rl[0].lo * rl[1], rl[0].hi * rl[1]
        lo = l2 if lo is None else max(lo, l2)
        hi = h2 if hi is None else min(hi, h2)
    # dyadic granularity: exact result?
    g = None
    if rl is not None:
        g = _dyadic_gran(rl[1])
    elif a.gran is not None and b.gran is not None:
        if op in "+-":
            g = min(a.gran, b.gran)
        elif op == "*":
            g = a.gran * b.gran
        elif op == "/" and cb is not None:
            d = abs(cb)
            n, m = d.numerator, d.denominator
            if (n & (n - 1)) == 0 and (m & (m - 1)) == 0:
                g = a.gran / d
    exact = g is not None and lo is not None and hi is not None and max(abs(lo), abs(hi)) <= g * TWO53
    if rl is not None:
        if exact:
            return SymFloat(None, lo, hi, g, None, rl)
        return fl_round(lin_term(rl), lo, hi, rl)
    x = {"+": lambda: a.t + b.t, "-": lambda: a.t - b.t, "*": lambda: a.t * b.t, "/": lambda: a.t / b.t}[op]()
    if exact:
        return SymFloat(x, lo, hi, g, None)
    return fl_round(x, lo, hi, None, _approx_of(op, a, b, cb))


def _ap(v):
    if v.lin is not None:
        return (v.lin, F(0), True)
    return v.approx


def _mag(v):
    return None if v.lo is None or v.hi is None else max(abs(v.lo), abs(v.hi))


def _approx_of(op, a, b, cb):
    """how far the exact result of (a op b) can be from an integer multiple of a rational"""
    pa, pb = _ap(a), _ap(b)
    ma, mb = _mag(a), _mag(b)
    if pa is None or pb is None or ma is None or mb is None:
        return None
    (la, ea, ia), (lb, eb, ib) = pa, pb
    if op == "*":
        return (lin_norm(la[0] * lb[0], la[1] * lb[1]), ma * eb + mb * ea + ea * eb, False)
    if op == "/" and cb is not None:
        return (lin_norm(la[0] if cb > 0 else 0 - la[0], la[1] / abs(cb)), ea / abs(cb), False)
    if op in "+-":
        na, nb, s = lin_common(la, lb)
        ix = (ia and ib) and ((a.lin is not None and la[1].denominator == 1) or (b.lin is not None and lb[1].denominator == 1))
        return (lin_norm(na + nb if op == "+" else na - nb, s), ea + eb, ix)
    return None


def float_divmod(op, a, b):
    cb = cval(b)
    if cb is None or cb == 0:
        raise Unsupported("float // or % by a symbolic divisor")
    if a.lin is None:
        lo = hi = None
        if a.lo is not None and a.hi is not None:
            c = [a.lo / cb, a.hi / cb]
            lo, hi = min(c), max(c)
        q = floor_int(SymFloat(a.t / RV(cb), lo, hi, None, None))
    else:
        q = floor_int(SymFloat(None, None, None, None, None,
                               lin_norm(a.lin[0] if cb > 0 else 0 - a.lin[0], a.lin[1] / abs(cb))))
    # python's float // and % are exact in the cases modelled here (fmod is exact; the quotient is an
    # integer); the sign adjustment is exact too for a positive divisor and |a| < 2^53*b
    ql = lift(q)
    if a.lin is not None:
        nq = lin_norm(ql * cb.numerator, F(1, cb.denominator))
        na, nb, s = lin_common(a.lin, nq)
        n = lift(na - nb)
        r = SymFloat(None, F(0) if cb > 0 else cb, cb if cb > 0 else F(0), None, None, (n, s))
        g = _dyadic_gran(s)
        if g is None:
            raise Unsupported("float % of a non-dyadic value")
        r.gran = g
    else:
        r = SymFloat(a.t - z3.ToReal(ql.t) * RV(cb), F(0) if cb > 0 else cb, cb if cb > 0 else F(0), None, None)
    if op == "//":
        return as_float(ql) if ql.lo is not None and ql.hi is not None else SymFloat(z3.ToReal(ql.t))
    return r


def sqrt_squared(s):
    v = s.sqrt_of
    r = z3.Function("sqrtsq_", z3.RealSort(), z3.RealSort())(v.t)
    e = RV(F(1, 2**50))
    ax = z3.If(v.t >= 0, v.t, -v.t)
    CTX.define(r, z3.And(r - v.t <= ax * e, v.t - r <= ax * e, r >= 0))
    hi = None if v.hi is None else v.hi * 2
    return SymFloat(r, F(0), hi, None, None)


# ---------------------------------------------------------------------------------------------
def compare(op, a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return NotImplemented
    if type(la) is float or type(lb) is float:
        # an infinity: the finite side is irrelevant
        x = la if type(la) is float else 0.0
        y = lb if type(lb) is float else 0.0
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    if op in (">", ">="):
        la, lb = lb, la
        op = "<" if op == ">" else "<="
    # interval shortcuts
    if None not in (la.hi, lb.lo):
        if la.hi < lb.lo:
            return {"<": True, "<=": True, "==": False, "!=": True}[op]
        if la.hi <= lb.lo and op == "<=":
            return True
    if None not in (la.lo, lb.hi):
        if la.lo > lb.hi:
            return {"<": False, "<=": False, "==": False, "!=": True}[op]
        if la.lo >= lb.hi and op == "<":
            return False
    if type(la) is SymInt and type(lb) is SymInt:
        x, y = la.t, lb.t
    else:
        fa = (la, F(1)) if type(la) is SymInt else la.lin
        fb = (lb, F(1)) if type(lb) is SymInt else lb.lin
        if fa is not None and fb is not None:
            na, nb, _ = lin_common(fa, fb)
            x, y = na.t, nb.t
        else:
            x, y = realterm(la), realterm(lb)
    if x.eq(y):
        return {"<": False, "<=": True, "==": True, "!=": False}[op]
    if op == "<":
        t = x < y
    elif op == "<=":
        t = x <= y
    elif op == "==":
        t = x == y
    else:
        t = x != y
    return mkbool(t)


def realterm(v):
    if type(v) is SymFloat:
        return v.t
    if z3.is_int_value(v.t):
        return RV(v.t.as_long())
    return z3.ToReal(v.t)


def lin_floor(lin):
    n, s = lin
    p, q = s.numerator, s.denominator
    m = n * p if p != 1 else n
    return lift(m) // q if q != 1 else m


def floor_int(v):
    """floor of the value, as SymInt (or int)"""
    v = lift(v)
    if type(v) is SymInt:
        return v
    if type(v) is float:
        raise OverflowError("cannot convert float infinity to integer")
    if v.lin is not None:
        return lin_floor(v.lin)
    lo = None if v.lo is None else math.floor(v.lo)
    hi = None if v.hi is None else math.floor(v.hi)
    if lo is not None and lo == hi:
        return lo
    if v.pre is None:
        r = uni_int(v, "floor")
        if r is not None:
            return r
    if v.approx is not None and lo is not None and hi is not None:
        (n, s), e, ix = v.approx
        q = s.denominator
        if e * q * 2 < 1:
            # n*s is a multiple of 1/q and v is within 1/(2q) of it: the floors agree unless n*s is
            # itself an integer and v fell below it
            base = lin_floor((n, s))
            if ix:
                return _clip(base, lo, hi)
            p = s.numerator
            isint = mkbool(((n.t * p) % q) == 0) if q != 1 else True
            below = mkbool(v.t < lin_term((n, s)))
            adj = ite(and_(isint, below), 1, 0)
            return _clip(base - adj, lo, hi)
    return SymInt(z3.ToInt(v.t), lo, hi)


def and_(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return mkbool(z3.And(boolterm(a), boolterm(b)))


def _clip(r, lo, hi):
    if type(r) is not SymInt:
        return r
    return SymInt(r.t, lo if r.lo is None else max(lo, r.lo), hi if r.hi is None else min(hi, r.hi))


def trunc_int(v):
    v = lift(v)
    if type(v) is SymInt:
        return v
    if type(v) is float:
        raise OverflowError("cannot convert float infinity to integer")
    if v.lin is not None and v.lin[1].denominator == 1:
        return lin_floor(v.lin)
    if v.lo is not None and v.lo >= 0:
        return floor_int(v)
    if v.hi is not None and v.hi <= 0:
        return 0 - floor_int(0 - v)
    r = uni_int(v, "trunc")
    if r is not None:
        return r
    f = lift(floor_int(v))
    g = lift(0 - floor_int(0 - v))
    lo = None if v.lo is None else math.trunc(v.lo)
    hi = None if v.hi is None else math.trunc(v.hi)
    return SymInt(z3.If(v.t >= 0, f.t, g.t), lo, hi)


def round_half_even(v):
    v = lift(v)
    if type(v) is SymInt:
        return v
    lo = None if v.lo is None else math.floor(v.lo + F(1, 2)) - 1
    hi = None if v.hi is None else math.floor(v.hi + F(1, 2))
    lin = v.lin
    if lin is None and v.pre is None:
        r = uni_int(v, "round")
        if r is not None:
            return r
    if lin is None and v.approx is not None and v.lo is not None and v.hi is not None:
        (n, s), e, ix = v.approx
        if e * s.denominator * 4 < 1 and (v.pre is not None or s.denominator % 2 == 1):
            # n*s is at least 1/(2q) from any tie (or is a tie that fl() keeps): rounding agrees
            lin = (n, s)
    if lin is not None:
        n, s = lin
        p, q = s.numerator, s.denominator
        if q == 1:
            return lin_floor(lin)
        f = lift(n * (2 * p) + q) // (2 * q)
        if q % 2 == 1:
            return f
        f = lift(f)
        tie = z3.And(((n.t * (2 * p) + q) % (2 * q)) == 0, f.t % 2 == 1)
        return SymInt(z3.If(tie, f.t - 1, f.t), lo, hi)
    half = RV(F(1, 2))
    f = z3.ToInt(v.t + half)
    tie = z3.And(z3.ToReal(f) == v.t + half, f % 2 == 1)
    return SymInt(z3.If(tie, f - 1, f), lo, hi)


def ite(c, a, b):
    """merge two numbers (or booleans) under a condition"""
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    ba = isinstance_(a, (bool, SymBool))
    bb = isinstance_(b, (bool, SymBool))
    if ba and bb:
        return mkbool(z3.If(c.t, boolterm(a), boolterm(b)))
    la, lb = lift(a), lift(b)
    if la is None or lb is None or type(la) is float or type(lb) is float:
        return a if bool(c) else b
    if type(la) is SymInt and type(lb) is SymInt:
        if la.t.eq(lb.t):
            return la
        return SymInt(z3.If(c.t, la.t, lb.t), _mn(la.lo, lb.lo), _mx(la.hi, lb.hi))
    # different python types (int vs float): merging keeps the value, types as float
    fa, fb = as_float(la), as_float(lb)
    lo, hi = _mn(fa.lo, fb.lo), _mx(fa.hi, fb.hi)
    if fa.lin is not None and fb.lin is not None:
        na, nb, sc = lin_common(fa.lin, fb.lin)
        n = SymInt(z3.If(c.t, na.t, nb.t), _mn(na.lo, nb.lo), _mx(na.hi, nb.hi))
        return SymFloat(None, lo, hi, _dyadic_gran(sc), None, (n, sc))
    g = None if fa.gran is None or fb.gran is None else min(fa.gran, fb.gran)
    r = SymFloat(z3.If(c.t, fa.t, fb.t), lo, hi, g, None)
    pa, pb = _ap(fa), _ap(fb)
    if pa is not None and pb is not None:
        na, nb, sc = lin_common(pa[0], pb[0])
        n = SymInt(z3.If(c.t, na.t, nb.t), _mn(na.lo, nb.lo), _mx(na.hi, nb.hi))
        r.approx = ((n, sc), max(pa[1], pb[1]), pa[2] and pb[2])
    return r


def _mn(a, b):
    return None if a is None or b is None else min(a, b)


def _mx(a, b):
    return None if a is None or b is None else max(a, b)


def sym_min(a, b):
    c = b < a  # python: min keeps the first on ties
    r = ite(c, b, a)
    if type(r) in (SymInt, SymFloat):
        la, lb = lift(a), lift(b)
        his = [x.hi for x in (la, lb) if x.hi is not None]
        if his and (r.hi is None or min(his) < r.hi):
            r = _tight(r, r.lo, min(his))
    return r


def sym_max(a, b):
    c = b > a
    r = ite(c, b, a)
    if type(r) in (SymInt, SymFloat):
        la, lb = lift(a), lift(b)
        los = [x.lo for x in (la, lb) if x.lo is not None]
        if los and (r.lo is None or max(los) > r.lo):
            r = _tight(r, max(los), r.hi)
    return r


def _tight(r, lo, hi):
    if type(r) is SymInt:
        return SymInt(r.t, None if lo is None else math.ceil(lo), None if hi is None else math.floor(hi))
    v = SymFloat(r._t, None if lo is None else F(lo), None if hi is None else F(hi), r.gran, r.pre, r.lin)
    v.approx = r.approx
    v.uni = r.uni
    return v


def close_term(a, b, tol):
    """|a-b| <= tol*max(1,|a|,|b|) over the reals (no rounding of the comparison itself)"""
    la, lb = lift(a), lift(b)
    if type(la) is float or type(lb) is float:
        return type(la) is float and type(lb) is float and la == lb
    x, y = realterm(la), realterm(lb)
    if x.eq(y):
        return True
    t = RV(F(tol))
    d = x - y
    ax = z3.If(x >= 0, x, -x)
    m = z3.If(ax >= 1, ax, RV(F(1)))
    return mkbool(z3.And(d <= t * m, -d <= t * m))
