"""Decides equalities of rational functions over the reals by bringing both sides to polynomial normal form. Denominators are
kept as products of factors, so that a term is known not to be zero when its numerator is a product of factors known not to be."""
from fractions import Fraction
import z3

LIMIT = 60000


class TooBig(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono(m, n):
    d = dict(m)
    for x, e in n:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 4 * LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def order(m):
    """a monomial order: total degree, then lexicographic"""
    return (sum(e for _, e in m), tuple((-x, e) for x, e in m))


def lead(a):
    return max(a, key=order)


def over(m, n):
    """m / n, or None"""
    d = dict(m)
    for x, e in n:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v:
            d[x] = v
        else:
            d.pop(x)
    return tuple(sorted(d.items()))


def pdiv(a, b):
    """a / b if that is a polynomial, else None"""
    if not a:
        return {}
    lb = lead(b)
    cb = b[lb]
    q = {}
    r = a
    n = 0
    while r:
        n += 1
        lr = lead(r)
        m = over(lr, lb)
        if m is None or n > 3000:
            return None
        c = r[lr] / cb
        q[m] = q.get(m, 0) + c
        r = padd(r, pmul({m: c}, b), -1)
    return q


ONE = {(): Fraction(1)}


def constant(a):
    return len(a) == 1 and () in a


def monic(a):
    """(leading coefficient, polynomial with leading coefficient 1 as a key)"""
    c = a[lead(a)]
    return c, tuple(sorted((m, v / c) for m, v in a.items()))


class Ring:
    def __init__(self):
        self.atoms = {}
        self.memo = {}
        self.factors = []       # keys of polynomials divided by or known not to be zero
        self.known = set()      # those known not to be zero
        self.needs = set()      # those the terms brought to normal form divide by

    def split(self, a):
        """(constant, factors) with a their product"""
        c = Fraction(1)
        f = {}
        for k in self.factors:
            while not constant(a):
                q = pdiv(a, dict(k))
                if q is None:
                    break
                f[k] = f.get(k, 0) + 1
                a = q
        k0, key = monic(a)
        if constant(a):
            return a[()], f
        self.factors.append(key)
        f[key] = f.get(key, 0) + 1
        return k0 * c, f

    def expand(self, f):
        r = ONE
        for k, e in f.items():
            for _ in range(e):
                r = pmul(r, dict(k))
        return r

    def cancel(self, n, d):
        if not n:
            return {}, {}
        out = {}
        for k, e in d.items():
            while e:
                q = pdiv(n, dict(k))
                if q is None:
                    break
                n, e = q, e - 1
            if e:
                out[k] = e
        return n, out

    def norm(self, t):
        """(numerator, factors of the denominator) of a real or integer term"""
        i = t.get_id()
        if i not in self.memo:
            self.memo[i] = (self.norm1(t), t)
        return self.memo[i][0]

    def norm1(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            c = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return ({(): c} if c else {}), {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            n, d = self.norm(t.arg(0))
            for x in t.children()[1:]:
                n, d = self.add(n, d, *self.norm(x), 1 if k == z3.Z3_OP_ADD else -1)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(t.arg(0))
            return padd({}, n, -1), d
        if k == z3.Z3_OP_MUL:
            n, d = self.norm(t.arg(0))
            for x in t.children()[1:]:
                n2, d2 = self.norm(x)
                n, d = self.mul(n, d, n2, d2)
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.norm(t.arg(0))
            n2, d2 = self.norm(t.arg(1))
            if not n2:
                raise TooBig()
            c, f = self.split(n2)
            self.needs.update(f)
            n = pmul(pmul(n, self.expand(d2)), {(): 1 / c})
            return self.cancel(n, self.merge(d, f))
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(t.arg(0))
        a = self.atoms.setdefault(t.sexpr(), len(self.atoms))
        return {((a, 1),): Fraction(1)}, {}

    @staticmethod
    def merge(d, f):
        r = dict(d)
        for k, e in f.items():
            r[k] = r.get(k, 0) + e
        return r

    def mul(self, n, d, n2, d2):
        return self.cancel(pmul(n, n2), self.merge(d, d2))

    def add(self, n, d, n2, d2, s):
        m = dict(d)
        for k, e in d2.items():
            m[k] = max(m.get(k, 0), e)
        lack = lambda f: {k: e - f.get(k, 0) for k, e in m.items() if e > f.get(k, 0)}
        return self.cancel(padd(pmul(n, self.expand(lack(d))), pmul(n2, self.expand(lack(d2))), s), m)

    # facts -----------------------------------------------------------------------------------------------------------------
    def difference(self, c):
        n, d = self.add(*self.norm(c.arg(0)), *self.norm(c.arg(1)), -1)
        return n

    def learn(self, c):
        """takes note of inequalities among the conjuncts of an assumption"""
        if z3.is_and(c):
            for x in c.children():
                self.learn(x)
            return
        n = None
        self.needs = set()
        self.memo = {}
        try:
            if z3.is_not(c) and z3.is_eq(c.arg(0)) and z3.is_arith(c.arg(0).arg(0)):
                n = self.difference(c.arg(0))
            elif z3.is_distinct(c) and c.num_args() == 2 and z3.is_arith(c.arg(0)):
                n = self.difference(c)
            elif z3.is_not(c) and z3.is_or(c.arg(0)):
                for x in c.arg(0).children():
                    self.learn(z3.Not(x))
        except TooBig:
            return
        if n and self.needs <= self.known:
            # the factors of a product that is not zero are not zero
            self.known.update(self.split(n)[1])

    def nonzero(self, n):
        return bool(n) and set(self.split(n)[1]) <= self.known

    def decide(self, c):
        """True or False if c is known to hold or not to, else None"""
        if z3.is_not(c):
            r = self.decide(c.arg(0))
            return None if r is None else not r
        if z3.is_and(c) or z3.is_or(c):
            s = [self.decide(x) for x in c.children()]
            if z3.is_and(c):
                return False if False in s else True if all(x is True for x in s) else None
            return True if True in s else False if all(x is False for x in s) else None
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if z3.is_distinct(c) and c.num_args() == 2 and z3.is_arith(c.arg(0)):
            r = self.decide(c.arg(0) == c.arg(1))
            return None if r is None else not r
        if not z3.is_eq(c) or not z3.is_arith(c.arg(0)):
            return None
        try:
            self.needs = set()
            self.memo = {}
            n = self.difference(c)
            if not self.needs <= self.known:
                return None
            if not n:
                return True
            return False if self.nonzero(n) else None
        except TooBig:
            return None
