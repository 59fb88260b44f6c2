"""Polymorphic helpers: every function here works on plain Python values and on z3 terms alike, so a
postcondition written with them is at the same time a verification condition and a run-time oracle."""
import z3
from fractions import Fraction


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def _b(x):
    return x if is_sym(x) else z3.BoolVal(bool(x))


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if is_sym(x):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if is_sym(x):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    return z3.Not(x) if is_sym(x) else (not x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) == bool(b)
    return _b(a) == _b(b)


def num(x):
    """z3 numeral or term for a Python number"""
    if is_sym(x):
        return x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        f = Fraction(x)
        return z3.RealVal(f)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise TypeError(x)


def If(c, a, b):
    if not is_sym(c):
        return a if c else b
    if not is_sym(a) and not is_sym(b) and type(a) == type(b) and a == b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return z3.If(c, _b(a), _b(b))
    return z3.If(c, num(a), num(b))


def eq(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        return _b(a) == _b(b)
    return num(a) == num(b)


def ne(a, b):
    return Not(eq(a, b))


def lex_lt(xs, ys):
    r = False
    for a, b in reversed(list(zip(xs, ys))):
        r = Or(a < b, And(eq(a, b), r))
    return r


def between(lo, x, hi):
    return And(x >= lo, x <= hi)


def to_real(x):
    if is_sym(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    return Fraction(x)


def fdiv(a, b):
    """floor division, b > 0"""
    if not is_sym(a) and not is_sym(b):
        return a // b
    return num(a) / num(b)


def fmod(a, b):
    if not is_sym(a) and not is_sym(b):
        return a % b
    return num(a) % num(b)


def Abs(x):
    return If(x >= 0, x, -x)
