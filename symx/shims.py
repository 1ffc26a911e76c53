"""Stand-ins that let the unmodified source compute with symbolic values: builtins whose results CPython
forces to be concrete (int, float, range, min, max, print), numpy and math functions, and the random source.
Every stand-in behaves exactly like the original when no symbolic value is involved."""
import builtins
import math as _math

import numpy as _np

from . import pandas_shim
from . import values as V
from .values import Sym, SymInt, SymFloat, SymBool, Unsupported, isinstance_

F = V.F


# ------------------------------------------------------------------------------------------ builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance_(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = _unwrap(a[0])
            if isinstance_(x, SymBool):
                return x.as_int()
            if isinstance_(x, V.SymNum):
                return V.trunc_int(x)
            return builtins.int(x)
        return builtins.int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class int_(metaclass=_IntMeta):
    from_bytes = builtins.int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance_(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __call__(cls, *a):
        if len(a) == 1:
            x = _unwrap(a[0])
            if isinstance_(x, SymBool):
                x = x.as_int()
            if isinstance_(x, V.SymNum):
                return V.as_float(V.lift(x))
            if isinstance_(x, str) and x.strip() in pandas_shim.TOKENS:
                return V.as_float(V.lift(pandas_shim.TOKENS[x.strip()]))
            return builtins.float(x)
        return builtins.float(*a)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class float_(metaclass=_FloatMeta):
    pass


def _unwrap(x):
    """0-d / size-1 object arrays"""
    if isinstance_(x, _np.ndarray) and x.dtype == object and x.size == 1:
        return x.reshape(-1)[0]
    return x


def _finite(x):
    return isinstance_(x, Sym) or (isinstance_(x, (builtins.int, builtins.float)) and not _math.isinf(x) and x == x)


def min_(*a, **k):
    return _fold(builtins.min, V.sym_min, lambda x, y: x < y, a, k)


def max_(*a, **k):
    return _fold(builtins.max, V.sym_max, lambda x, y: x > y, a, k)


def _fold(native, merge, better, a, k):
    if k:
        return native(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    xs = [_unwrap(x) for x in xs]
    if not xs or not any(isinstance_(x, Sym) for x in xs):
        return native(xs)
    r = xs[0]
    for x in xs[1:]:
        if (isinstance_(r, Sym) or isinstance_(x, Sym)) and _num(r) and _num(x):
            if _finite(r) and _finite(x):
                r = merge(r, x)
            else:
                r = x if builtins.bool(better(x, r)) else r
        elif better(x, r):
            r = x
    return r


def _num(x):
    return isinstance_(x, (builtins.int, builtins.float))


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        x = self.start
        n = 0
        if not isinstance_(self.step, Sym) and self.step == 0:
            raise ValueError("range() arg 3 must not be zero")
        up = self.step > 0
        while builtins.bool(x < self.stop if up else x > self.stop):
            yield x
            x = x + self.step
            n += 1
            if n > 2000:
                raise Unsupported("range: too many iterations")

    def __len__(self):
        return builtins.sum(1 for _ in self)

    def __getitem__(self, i):
        return list(self)[i]

    def __contains__(self, y):
        return any(x == y for x in self)

    def __reversed__(self):
        return reversed(list(self))


def range_(*a):
    if any(isinstance_(x, Sym) for x in a):
        if len(a) == 1:
            start, stop, step = 0, a[0], 1
        elif len(a) == 2:
            start, stop, step = a[0], a[1], 1
        else:
            start, stop, step = a
        for x in (start, stop, step):
            if isinstance_(x, builtins.float):
                raise TypeError("'float' object cannot be interpreted as an integer")
        return SymRange(start, stop, step)
    return builtins.range(*a)


def print_(*a, **k):
    import io
    import sys
    if isinstance(sys.stdout, io.StringIO) and all(type(x) is str for x in a):
        print(*a, **k)  # a harness captures the text
    return None


def type_(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance_(x, Sym):
            return x.__class__
        return builtins.type(x)
    return builtins.type(*a, **k)


def sum_(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def message_text(v):
    """a value inside the text of an error message"""
    return repr(v) if isinstance_(v, Sym) else v


def make_builtins(import_fn):
    d = dict(vars(builtins))
    d.update(int=int_, float=float_, min=min_, max=max_, range=range_, print=print_, sum=sum_)
    d["__import__"] = import_fn
    return d


# ------------------------------------------------------------------------------------------ math
class MathShim:
    def __getattr__(self, n):
        return getattr(_math, n)

    @staticmethod
    def floor(x):
        x = _unwrap(x)
        return V.floor_int(x) if isinstance_(x, Sym) else _math.floor(x)

    @staticmethod
    def ceil(x):
        x = _unwrap(x)
        return 0 - V.floor_int(0 - x) if isinstance_(x, Sym) else _math.ceil(x)

    @staticmethod
    def trunc(x):
        return V.trunc_int(x) if isinstance_(x, Sym) else _math.trunc(x)

    @staticmethod
    def fabs(x):
        return V.as_float(V.lift(abs(x))) if isinstance_(x, Sym) else _math.fabs(x)

    @staticmethod
    def sqrt(x):
        return x.sqrt() if isinstance_(x, Sym) else _math.sqrt(x)

    @staticmethod
    def pow(x, y):
        if isinstance_(x, Sym):
            return V.as_float(V.lift(x)) ** y
        return _math.pow(x, y)

    @staticmethod
    def isinf(x):
        return False if isinstance_(x, Sym) else _math.isinf(x)

    @staticmethod
    def isnan(x):
        return False if isinstance_(x, Sym) else _math.isnan(x)

    @staticmethod
    def isfinite(x):
        return True if isinstance_(x, Sym) else _math.isfinite(x)

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance_(a, Sym) or isinstance_(b, Sym):
            if not _finite(a) or not _finite(b):
                return False
            m = V.sym_max(abs(a), abs(b)) if isinstance_(abs(a), Sym) or isinstance_(abs(b), Sym) else max(abs(a), abs(b))
            d = abs(a - b)
            return builtins.bool(d <= rel_tol * m) or builtins.bool(d <= abs_tol)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def fsum(xs):
        return sum_(xs)

    @staticmethod
    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    @staticmethod
    def fmod(a, b):
        if isinstance_(a, Sym) or isinstance_(b, Sym):
            raise Unsupported("math.fmod")
        return _math.fmod(a, b)


# ------------------------------------------------------------------------------------------ numpy
def _has_sym(x):
    if isinstance_(x, Sym):
        return True
    if isinstance_(x, _np.ndarray):
        return x.dtype == object
    if isinstance_(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def _float_floor(x):
    if isinstance_(x, Sym):
        if isinstance_(x, SymBool):
            x = x.as_int()
        r = V.floor_int(x)
        return V.as_float(V.lift(r)) if isinstance_(r, Sym) else builtins.float(r)
    return builtins.float(_math.floor(x)) if _math.isfinite(x) else builtins.float(x)


def _float_ceil(x):
    if isinstance_(x, Sym):
        if isinstance_(x, SymBool):
            x = x.as_int()
        r = 0 - V.floor_int(0 - x)
        return V.as_float(V.lift(r)) if isinstance_(r, Sym) else builtins.float(r)
    return builtins.float(_math.ceil(x)) if _math.isfinite(x) else builtins.float(x)


def _float_trunc(x):
    if isinstance_(x, Sym):
        r = V.trunc_int(x)
        return V.as_float(V.lift(r)) if isinstance_(r, Sym) else builtins.float(r)
    return builtins.float(_math.trunc(x))


def _sqrt1(x):
    if isinstance_(x, Sym):
        return x.sqrt()
    return _math.sqrt(x)


def _map(f, x):
    if isinstance_(x, Sym):
        return f(x)
    a = _np.asarray(x, dtype=object)
    if a.ndim == 0:
        return f(a.item())
    out = _np.empty(a.shape, dtype=object)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for i in builtins.range(fi.shape[0]):
        fo[i] = f(fi[i])
    return out


def _unary(name, f):
    real = getattr(_np, name)

    def g(x, *a, **k):
        if _has_sym(x) and not a and not k:
            return _map(f, x)
        return real(x, *a, **k)

    return g


def _obj(real_name):
    real = getattr(_np, real_name)

    def g(shape, *a, **k):
        k.pop("dtype", None)
        if a and real_name in ("zeros", "ones", "empty"):
            a = ()
        r = real(shape, *a, **k)
        if r.dtype == builtins.float or r.dtype == object:
            return r.astype(object)
        return r.astype(object)

    return g


class RandomShim:
    """a stub: every draw is an arbitrary double of the documented range [0, 1)"""

    def _draw(self, shape):
        if shape == ():
            return V.CTX.env.draw()
        a = _np.empty(shape, dtype=object)
        f = a.reshape(-1)
        for i in builtins.range(f.shape[0]):
            f[i] = V.CTX.env.draw()
        return a

    def rand(self, *shape):
        return self._draw(shape)

    def random(self, size=None):
        return self._draw(() if size is None else ((size,) if isinstance_(size, builtins.int) else tuple(size)))

    random_sample = random
    ranf = random
    sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def default_rng(self, seed=None):
        return self

    def seed(self, *a):
        return None

    def choice(self, x, size=None, replace=True):
        if isinstance_(x, builtins.int):
            x = builtins.range(x)
        left = builtins.list(builtins.range(len(x)))

        def one():
            i = V.CTX.env.draw_index(len(left))
            v = x[left[i]]
            if not replace:
                del left[i]
            return v

        if size is None:
            return one()
        out = _np.empty(size, dtype=object)
        f = out.reshape(-1)
        for i in builtins.range(f.shape[0]):
            f[i] = one()
        return out

    def randint(self, low, high=None, size=None):
        low, high = (0, low) if high is None else (low, high)
        if size is None:
            return low + V.CTX.env.draw_index(high - low)
        return low + self.choice(high - low, size)

    integers = randint

    def __getattr__(self, n):
        raise Unsupported("numpy.random." + n)


def _prod(x, *a, **k):
    return _np.prod(x, *a, **k)


class NumpyShim:
    floor = staticmethod(_unary("floor", _float_floor))
    ceil = staticmethod(_unary("ceil", _float_ceil))
    trunc = staticmethod(_unary("trunc", _float_trunc))
    fix = staticmethod(_unary("fix", _float_trunc))
    rint = staticmethod(_unary("rint", lambda x: V.as_float(V.lift(V.round_half_even(x))) if isinstance_(x, Sym) else builtins.float(_np.rint(x))))
    sqrt = staticmethod(_unary("sqrt", _sqrt1))
    abs = staticmethod(_unary("abs", builtins.abs))
    absolute = abs
    fabs = abs
    isinf = staticmethod(_unary("isinf", lambda x: False if isinstance_(x, Sym) else _math.isinf(x)))
    isnan = staticmethod(_unary("isnan", lambda x: False if isinstance_(x, Sym) else _math.isnan(x)))
    isfinite = staticmethod(_unary("isfinite", lambda x: True if isinstance_(x, Sym) else _math.isfinite(x)))
    zeros = staticmethod(_obj("zeros"))
    ones = staticmethod(_obj("ones"))
    empty = staticmethod(_obj("empty"))
    full = staticmethod(_obj("full"))
    random = RandomShim()
    float64 = float_
    int64 = int_

    @staticmethod
    def _binary(name, f):
        real = getattr(_np, name)

        def g(a, b, **k):
            if isinstance_(a, Sym) or isinstance_(b, Sym):
                if not isinstance_(a, _np.ndarray) and not isinstance_(b, _np.ndarray):
                    return f(a, b)
            return real(a, b, **k)

        return g

    def round(self, x, decimals=0):
        if _has_sym(x):
            return _map(lambda y: V.as_float(V.lift(builtins.round(y))) if decimals == 0 else builtins.round(y, decimals), x)
        return _np.round(x, decimals)

    around = round

    def clip(self, x, lo, hi, **k):
        if _has_sym(x) or isinstance_(lo, Sym) or isinstance_(hi, Sym):
            return _map(lambda y: min_(max_(y, lo), hi), x)
        return _np.clip(x, lo, hi, **k)

    def where(self, c, *ab):
        if ab and (_has_sym(c) or _has_sym(ab[0]) or _has_sym(ab[1])):
            c, a, b = _np.broadcast_arrays(*[_np.asarray(z, dtype=object) for z in (c, *ab)])
            out = _np.empty(c.shape, dtype=object)
            for i in _np.ndindex(c.shape):
                out[i] = V.ite(c[i], a[i], b[i])
            return out
        return _np.where(c, *ab)

    def maximum(self, a, b, **k):
        if isinstance_(a, Sym) or isinstance_(b, Sym):
            if not isinstance_(a, _np.ndarray) and not isinstance_(b, _np.ndarray):
                return max_(a, b)
        return _np.maximum(a, b, **k)

    def minimum(self, a, b, **k):
        if isinstance_(a, Sym) or isinstance_(b, Sym):
            if not isinstance_(a, _np.ndarray) and not isinstance_(b, _np.ndarray):
                return min_(a, b)
        return _np.minimum(a, b, **k)

    def floor_divide(self, a, b, **k):
        if isinstance_(a, Sym) or isinstance_(b, Sym):
            return a // b
        return _np.floor_divide(a, b, **k)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08):
        if _has_sym(a) or _has_sym(b):
            return MathShim.isclose(a, b, rel_tol=rtol, abs_tol=atol)
        return _np.isclose(a, b, rtol=rtol, atol=atol)

    def __getattr__(self, n):
        return getattr(_np, n)


MATH = MathShim()
NUMPY = NumpyShim()
