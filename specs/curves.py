"""Ideal transfer functions over the reals, and tables of them"""
from vc.contract import *
from vc.lib import POW, LOG10, deep_eq
from vc import ast as vast

SRC = ['transfer_function.cc', 'gamma_transfer_function.cc', 'identity_transfer_function.cc', 'modified_gamma_transfer_function.cc', 's_gamut3_transfer_function.cc']
DRV = {'curve': Driver('curve', SRC + ['colour_conversion.cc', 'chromaticity.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lboost_filesystem', '-lfmt']),
       'threads': Driver('curve', SRC + ['colour_conversion.cc', 'chromaticity.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lboost_filesystem', '-lfmt', '-lpthread'], sanitize='thread')}
TOL = 1e-9


def R(x):
    if is_sym(x):
        return z3.ToReal(x) if z3.is_int(x) else x
    return float(x)


def num_(x):
    """exact value of what the compiler makes of a literal"""
    return z3.RealVal(str(__import__('fractions').Fraction(x))) if isinstance(x, float) else x


def pw(x, y):
    if is_sym(x) or is_sym(y):
        x, y = (num_(float(v)) if not is_sym(v) else v for v in (x, y))
        return POW(x, y)
    return math.pow(x, y)


def lg(x):
    return LOG10(x) if is_sym(x) else math.log10(x)


def div(a, b):
    if is_sym(a) or is_sym(b):
        a, b = (num_(float(v)) if not is_sym(v) else v for v in (a, b))
    return a / b


def near(a, b, tol=TOL):
    """equal; for values computed by the machine up to rounding"""
    if is_sym(a) or is_sym(b):
        a, b = (num_(v) if not is_sym(v) else v for v in (R(a), R(b)))
        return a == b
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def branch(q, t, strict, above, below):
    """[acceptable values] of a curve that changes formula at t"""
    if is_sym(q) or is_sym(t):
        t = num_(t) if not is_sym(t) else t
        c = q > t if strict else q >= t
        return [z3.If(c, above(), below())]
    r = []
    eps = 1e-12 * max(1.0, abs(t))
    if q > t - eps:
        r.append(above())
    if q < t + eps:
        r.append(below())
    return r


# name -> (class, number of parameters, forward, inverse); p are the parameters
def modified(q, p):
    power, t, A, B = p
    return branch(q, t, True, lambda: pw(div(q + A, 1 + A), power), lambda: div(q, B))


def modified_inverse(q, p):
    power, t, A, B = p
    return branch(q, div(t, B), True, lambda: (1 + A) * pw(q, div(1.0, power)) - A, lambda: q * B)


LOW = 171.2102946929


def slog3(q, p):
    return branch(q, LOW / 1023, False, lambda: pw(10.0, div(q * 1023 - 420, 261.5)) * num2(q, 0.18 + 0.01) - num2(q, 0.01), lambda: div((q * 1023 - 95) * num2(q, 0.01125), LOW - 95))


def slog3_inverse(q, p):
    return branch(q, 0.01125, False, lambda: div(420 + lg(div(q + num2(q, 0.01), 0.18 + 0.01)) * num2(q, 261.5), 1023.0),
                  lambda: div(div(q * num2(q, LOW - 95), 0.01125) + 95, 1023.0))


def num2(q, x):
    return num_(x) if is_sym(q) else x


CURVES = {
    'gamma': ('dcp::GammaTransferFunction', 1, lambda q, p: [pw(q, p[0])], lambda q, p: [pw(q, div(1.0, p[0]))]),
    'identity': ('dcp::IdentityTransferFunction', 0, lambda q, p: [q], lambda q, p: [q]),
    'modified': ('dcp::ModifiedGammaTransferFunction', 4, modified, modified_inverse),
    'slog3': ('dcp::SGamut3TransferFunction', 0, slog3, slog3_inverse),
}


def entry(i, n, k):
    """[acceptable values] of entry k of a table of n entries"""
    q = div(R(k), R(n) - 1) * (i['to'] - i['from']) + i['from']
    c = CURVES[i['curve']]
    return (c[3] if i['inverse'] else c[2])(q, i['p'])


def curve(I, name, p):
    c = CURVES[name]
    t = I.prog.type(c[0])
    if c[1] == 0:
        try:
            f = I.prog.find(c[0] + '::' + c[0].split('::')[-1], 0)
            return I.construct(f, t, [])
        except ExtractError:
            o = I.default(t)
            I.default_inits(o)
            return o
    return I.construct(I.prog.find(c[0] + '::' + c[0].split('::')[-1], c[1]), t, list(p))


class ParamsIn(In):
    """parameters of the curve chosen"""
    RANGE = {'gamma': [(0.2, 6)], 'identity': [], 'modified': [(0.2, 6), (0, 1), (0, 2), (0.5, 30)], 'slog3': []}
    STD = {'gamma': [(2.2,), (2.4,), (2.6,), (1.0,)], 'identity': [()], 'slog3': [()], 'modified': [(2.4, 0.04045, 0.055, 12.92), (2.2, 0.081, 0.099, 4.5)]}

    def __init__(self, name, of='curve'):
        self.name, self.of = name, of

    def make(self, P, curve):
        r = []
        for k, (lo, hi) in enumerate(self.RANGE[curve]):
            r.append(RealIn('%s%d' % (self.name, k), lo, hi).sym(P))
        return r

    def sym(self, P):
        return None

    def concrete(self, m, v):
        return [flt_of(m.eval(x, model_completion=True)) for x in v] if v is not None else None

    def draw(self, r, curve):
        if r.random() < 0.5:
            return list(r.choice(self.STD[curve]))
        return [r.uniform(lo, hi) for lo, hi in self.RANGE[curve]]
