"""Helpers that work on concrete values and, when the symbolic values module is loaded, on symbolic ones.

Nothing here imports z3: the concrete replay runs in the repository's own interpreter without it.
"""
import sys

_V = None


def _v():
    global _V
    if _V is None:
        _V = sys.modules.get("symx.values") or False
    return _V


def is_sym(x):
    v = _v()
    return bool(v) and v.is_sym(x)


def _b(x):
    return x if is_sym(x) else bool(x)


def And(*xs):
    r = True
    for x in xs:
        if is_sym(x):
            r = x if r is True else (r & x if r is not False else False)
        elif not x:
            return False
    return r


def Or(*xs):
    r = False
    for x in xs:
        if is_sym(x):
            r = x if r is False else (r | x if r is not True else True)
        elif x:
            return True
    return r


def Not(x):
    if is_sym(x):
        return ~x
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if is_sym(a) or is_sym(b):
        return And(Implies(a, b), Implies(b, a))
    return bool(a) == bool(b)


def ite(c, a, b):
    if is_sym(c):
        return _v().ite(c, a, b)
    return a if c else b


def smin(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = _v().sym_min(r, x) if (is_sym(r) or is_sym(x)) and _v() and _num(r) and _num(x) else min(r, x)
    return r


def smax(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = _v().sym_max(r, x) if (is_sym(r) or is_sym(x)) and _v() and _num(r) and _num(x) else max(r, x)
    return r


def _num(x):
    return is_sym(x) or (isinstance(x, (int, float)) and x == x and x not in (float("inf"), float("-inf")))


def ssum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def count(conds):
    """number of true conditions"""
    return ssum(ite(c, 1, 0) for c in conds)


def sabs(x):
    return abs(x)


def eq(a, b):
    return a == b


def close(a, b, tol=1e-9):
    """|a-b| <= tol * max(1,|b|) for concrete floats; same statement over reals for symbolic ones"""
    if is_sym(a) or is_sym(b):
        return _v().close_term(a, b, tol)
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def floordiv(a, b):
    return a // b


def fl_int(x):
    """float with the value of an int"""
    if is_sym(x):
        return _v().as_float(_v().lift(x))
    return float(x)


def floor(x):
    """np.floor: float result"""
    import math
    if is_sym(x):
        v = _v()
        return v.as_float(v.lift(v.floor_int(x)))
    return float(math.floor(x))


def ceil(x):
    import math
    if is_sym(x):
        v = _v()
        return v.as_float(v.lift(0 - v.floor_int(0 - x)))
    return float(math.ceil(x))


def trunc(x):
    if is_sym(x):
        return _v().trunc_int(x)
    return int(x)
