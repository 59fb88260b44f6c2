"""Assumed contracts of boost::numeric::ublas for small dense matrices of doubles: cells are exact, lu_factorize answers 0
exactly for regular matrices, and lu_substitute replaces its last argument by the inverse of the factorised matrix times it."""
from .core import *
from .sym import *
from .values import *
from .lib import model, ctor, V, copyval

NS = 'boost::numeric::ublas::'


class Mat(Obj):
    cls = 'Mat'

    def __init__(self, r, c, cells, et=None, factorised=None):
        self.r, self.c, self.cells, self.factorised = r, c, cells if isinstance(cells, Arr) else Arr(et, cells), factorised

    def copy(self, I):
        return Mat(self.r, self.c, self.cells.copy(I), None, self.factorised)

    def assign(self, I, o):
        I.wrote(self, None)
        self.r, self.c, self.factorised = o.r, o.c, o.factorised
        self.cells.assign(I, o.cells.copy(I))

    def at(self, i, j):
        return self.cells.items[i * self.c + j]


def dims(I, v):
    v = I.rv(v) if isinstance(v, LV) else v
    if is_sym(v):
        raise Unsupported('matrix of symbolic size')
    return v


def make(I, t, r, c, f):
    return Mat(r, c, [f(i, j) for i in range(r) for j in range(c)], t.a[0] if t.a else None)


@ctor(NS + 'matrix')
def _(I, f, t, a):
    if len(a) == 2 and not isinstance(V(a[0]), Mat):
        r, c = dims(I, a[0]), dims(I, a[1])
        return make(I, t, r, c, lambda i, j: UNINIT)
    if len(a) == 1 and isinstance(V(a[0]), Mat):
        return V(a[0]).copy(I)
    if len(a) == 3:
        return make(I, t, dims(I, a[0]), dims(I, a[1]), lambda i, j: V(a[2]))
    if not a:
        return Mat(0, 0, [], t.a[0])
    raise Unsupported('matrix constructor')


@ctor(NS + 'zero_matrix')
def _(I, f, t, a):
    r = dims(I, a[0])
    return make(I, t, r, dims(I, a[1]) if len(a) > 1 else r, lambda i, j: 0.0)


@ctor(NS + 'identity_matrix')
def _(I, f, t, a):
    r = dims(I, a[0])
    return make(I, t, r, r, lambda i, j: 1.0 if i == j else 0.0)


@ctor(NS + 'permutation_matrix')
def _(I, f, t, a):
    return Lib('permutation', n=dims(I, a[0]), of=None)


@model(NS + 'matrix::operator()', 'Mat::operator()')
def _(I, f, m, a):
    i, j = (I.P.concretise(V(x)) for x in a)
    I.P.oblige('matrix-index-in-range', 0 <= i < m.r and 0 <= j < m.c, 'safety')
    if m.factorised is not None:
        raise Unsupported('cells of a factorised matrix')
    lv = ElemLV(I, m.cells, i * m.c + j)
    return lv if f['ret'].k == 'ref' else lv.get()


@model(NS + 'matrix::size1')
def _(I, f, m, a):
    return m.r


@model(NS + 'matrix::size2')
def _(I, f, m, a):
    return m.c


@model(NS + 'matrix::assign', NS + 'matrix::operator=')
def _(I, f, m, a):
    m.assign(I, V(a[0]))
    return ObjLV(m)


@model(NS + 'prod')
def _(I, f, t, a):
    x, y = V(a[0]), V(a[1])
    if not isinstance(y, Mat) or x.factorised is not None or y.factorised is not None:
        raise Unsupported('product of other than matrices')
    I.P.oblige('matrix-sizes-agree', x.c == y.r, 'safety')

    def cell(i, j):
        r = None
        for k in range(x.c):
            p = I.fltop('*', x.at(i, k), y.at(k, j))
            r = p if r is None else I.fltop('+', r, p)
        return r
    return Mat(x.r, y.c, [cell(i, j) for i in range(x.r) for j in range(y.c)], x.cells.t)


def det3(I, m, r, c):
    M, S = (lambda p, q: I.fltop('*', p, q)), (lambda p, q: I.fltop('-', p, q))
    return S(M(m.at(r[0], c[0]), m.at(r[1], c[1])), M(m.at(r[0], c[1]), m.at(r[1], c[0])))


def cofactor(I, m, i, j):
    r, c = [k for k in range(3) if k != i], [k for k in range(3) if k != j]
    d = det3(I, m, r, c)
    return d if (i + j) % 2 == 0 else I.fltop('*', -1.0, d)


def det(I, m):
    r = None
    for j in range(3):
        p = I.fltop('*', m.at(0, j), cofactor(I, m, 0, j))
        r = p if r is None else I.fltop('+', r, p)
    return r


@model(NS + 'lu_factorize')
def _(I, f, t, a):
    m, pm = V(a[0]), V(a[1]) if len(a) > 1 else None
    if m.r != 3 or m.c != 3 or pm is None:
        raise Unsupported('factorisation of other than a 3x3 matrix with pivoting')
    d = det(I, m)
    I.wrote(m, None)
    k = m.copy(I)
    m.factorised = (k, d, pm)
    if I.P.branch(d != 0 if not is_sym(d) else d != 0):
        return 0
    return I.P.fresh_int('singular', 1, 3)


@model(NS + 'lu_substitute')
def _(I, f, t, a):
    m, pm, b = V(a[0]), V(a[1]), V(a[2])
    if m.factorised is None or m.factorised[2] is not pm or not isinstance(b, Mat):
        raise Unsupported('substitution without factorisation')
    k, d, _ = m.factorised
    if not I.P.branch(d != 0):
        raise Unsupported('substitution with a singular matrix')
    inv = lambda i, j: I.fltop('/', cofactor(I, k, j, i), d)
    out = []
    for i in range(3):
        for j in range(b.c):
            r = None
            for q in range(3):
                p = I.fltop('*', inv(i, q), b.at(q, j))
                r = p if r is None else I.fltop('+', r, p)
            out.append(r)
    b.assign(I, Mat(3, b.c, out, b.cells.t))
