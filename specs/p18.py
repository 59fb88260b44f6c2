"""Colour matrices"""
from specs.curves import *
from vc.lib_matrix import Mat

CSRC = ['colour_conversion.cc', 'chromaticity.cc'] + SRC
M = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]]
MI = [[0.9869929055, -0.1470542564, 0.1599626517], [0.4323052697, 0.5183602715, 0.0492912282], [-0.0085286646, 0.0400428217, 0.9684866958]]
STD = [((0.64, 0.33), (0.3, 0.6), (0.15, 0.06)), ((0.68, 0.32), (0.265, 0.69), (0.15, 0.06)), ((0.708, 0.292), (0.17, 0.797), (0.131, 0.046)), ((0.73, 0.28), (0.14, 0.855), (0.1, -0.05))]
WHITES = [(0.3127, 0.329), (0.314, 0.351), (0.32168, 0.33767), (0.3457, 0.3585)]
WHO = ['red', 'green', 'blue', 'white']


class PointsIn(In):
    """chromaticities, as [x, y] each"""

    def __init__(self, name, n):
        self.name, self.n = name, n

    def sym(self, P):
        return [[RealIn('%s%d_%s' % (self.name, k, c), -1, 2).sym(P) for c in 'xy'] for k in range(self.n)]

    def concrete(self, m, v):
        return [[flt_of(m.eval(c, model_completion=True)) for c in p] for p in v]

    def sample(self, r):
        j = lambda p: [c + r.choice([0, 0, r.uniform(-0.02, 0.02)]) for c in p]
        p = [j(x) for x in r.choice(STD)] + [j(r.choice(WHITES))]
        return p if self.n == 4 else [j(r.choice(WHITES)) for _ in range(self.n)]

    def enc(self, v):
        return ' '.join(RealIn('', 0, 0).enc(c) for p in v for c in p)


def chromaticity(I, p):
    return I.construct(I.prog.find('dcp::Chromaticity::Chromaticity', 2), I.prog.type('dcp::Chromaticity'), list(p))


def conversion(I, points, adjusted=None):
    t = I.prog.type('dcp::ColourConversion')
    c = I.construct(I.prog.find('dcp::ColourConversion::ColourConversion', 0), t, [])
    for n, p in zip(WHO, points):
        I.call_named('dcp::ColourConversion::set_' + n, c, [chromaticity(I, p)])
    if adjusted is not None:
        I.call_named('dcp::ColourConversion::set_adjusted_white', c, [chromaticity(I, adjusted)])
    return c


def cells(m):
    if not isinstance(m, Mat) or (m.r, m.c) != (3, 3):
        raise Unsupported('not a 3x3 matrix')
    return list(m.cells.items)


def run_to_xyz(I, i):
    I.P.use_ring()
    return {'m': cells(I.rv(I.call_named('dcp::ColourConversion::rgb_to_xyz', conversion(I, i['p']), [])))}


def zz(p):
    return 1 - p[0] - p[1]


def degenerate(p):
    (rx, ry), (gx, gy), (bx, by), (wx, wy) = p
    F = (wx - gx) * (wy - by) - (wx - bx) * (wy - gy)
    D = (rx - wx) * (wy - by) - (wx - bx) * (ry - wy)
    E = (wx - gx) * (ry - wy) - (rx - wx) * (wy - gy)
    return F, ry * F + gy * D + by * E


def solid(C, i):
    F, P = degenerate(i['p'])
    if C.sym:
        return And(F != 0, P != 0, i['p'][3][1] != 0)
    return abs(F) > 1e-2 and abs(P) > 1e-3 and abs(i['p'][3][1]) > 0.05


def post_to_xyz(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    m = lambda r, c: R(o['m'][r * 3 + c])
    p = i['p']
    w = p[3]
    out = [('no-exception', True)]
    for k in range(3):
        out.append(('%s-has-the-chromaticity-of-the-primary' % WHO[k], And(near(m(0, k) * p[k][1], m(1, k) * p[k][0]), near(m(2, k) * p[k][1], m(1, k) * zz(p[k])))))
    s = lambda r: m(r, 0) + m(r, 1) + m(r, 2)
    out.append(('white-has-unit-luminance', near(s(1), 1.0)))
    out.append(('white-has-the-chromaticity-asked-for', And(near(s(0) * w[1], s(1) * w[0]), near(s(2) * w[1], s(1) * zz(w)))))
    return out


class MatrixIn(In):
    def __init__(self, name):
        self.name = name


def run_inverse(I, i):
    I.P.use_ring()
    c = conversion(I, i['p'])
    sym = is_sym(i['p'][0][0])
    a = None
    if sym:
        a = [z3.Real('a%d' % k) for k in range(9)]
        I.matrix = a

        def known(I, f, this, args):
            return Mat(3, 3, list(a), f['ret'].a[0])
        I.summaries = dict(I.summaries or {}, **{'dcp::ColourConversion::rgb_to_xyz': known})
    else:
        a = cells(I.rv(I.call_named('dcp::ColourConversion::rgb_to_xyz', c, [])))
    return {'a': a, 'm': cells(I.rv(I.call_named('dcp::ColourConversion::xyz_to_rgb', c, [])))}


def post_inverse(C, i, o):
    if o['exc'] is not None:
        if not C.sym:
            return [('no-exception', False)]
        m = [[C.I.matrix[3 * r + c] for c in range(3)] for r in range(3)]
        d = sum(m[0][k] * (m[1][(k + 1) % 3] * m[2][(k + 2) % 3] - m[1][(k + 2) % 3] * m[2][(k + 1) % 3]) for k in range(3))
        return [('refused-only-if-singular', d == 0)]
    a, b = o['a'], o['m']
    out = [('no-exception', True)]
    for r in range(3):
        out.append(('row-%d-of-the-inverse' % r, And([near(sum(R(b[3 * r + k]) * R(a[3 * k + c]) for k in range(3)), 1.0 if r == c else 0.0, 1e-7) for c in range(3)])))
    return out


def run_bradford(I, i):
    I.P.use_ring()
    c = conversion(I, [[0.64, 0.33], [0.3, 0.6], [0.15, 0.06], i['p'][0]], i['p'][1] if i['adjust'] else None)
    return {'m': cells(I.rv(I.call_named('dcp::ColourConversion::bradford', c, [])))}


def post_bradford(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    w, a = i['p']
    m = o['m']
    tiny = num_(1e-6) if C.sym else 1e-6
    ab = lambda v: If(v >= 0, v, -v) if C.sym else abs(v)
    small = Or(ab(a[0]) < tiny, ab(a[1]) < tiny)
    unit = And([near(m[3 * r + c], 1.0 if r == c else 0.0) for r in range(3) for c in range(3)])
    if not i['adjust']:
        return [('no-exception', True), ('no-adjustment-no-change', unit)]
    if C.sym and C.I.P.branch(small) or not C.sym and small:
        return [('no-exception', True), ('no-adjustment-no-change', unit)]
    K = (lambda x: num_(x)) if C.sym else (lambda x: x)
    cone = lambda q: [K(M[r][0]) * (q[0] / q[1]) + K(M[r][1]) + K(M[r][2]) * (zz(q) / q[1]) for r in range(3)]
    G, H = cone(w), cone(a)
    want = lambda r, c: sum(K(MI[r][k]) * (H[k] / G[k]) * K(M[k][c]) for k in range(3))
    return [('no-exception', True)] + [('row-%d-scales-the-cone-responses' % r, (lambda r: lambda: And([near(m[3 * r + c], want(r, c)) for c in range(3)]))(r)) for r in range(3)]


def cones(C, i):
    w = i['p'][0]
    if not C.sym:
        g = [M[r][0] * w[0] / w[1] + M[r][1] + M[r][2] * (1 - w[0] - w[1]) / w[1] for r in range(3)] if abs(w[1]) > 0.05 else [0]
        return min(abs(x) for x in g) > 0.05 and all(not 0.9e-6 < abs(c) < 1.1e-6 for c in i['p'][1])
    g = [num_(M[r][0]) * (w[0] / w[1]) + num_(M[r][1]) + num_(M[r][2]) * (zz(w) / w[1]) for r in range(3)]
    return And(w[1] != 0, *[x != 0 for x in g])


def sample_bradford(r):
    p = PointsIn('p', 2).sample(r)
    if r.random() < 0.2:
        p[1] = r.choice([[0.0, 0.0], [0.3, 0.0], [0.0, 0.3], [5e-7, 0.3], [2e-6, 0.3], [0.3, 2e-6], [0.3, 10 ** r.uniform(-8, -1)], [10 ** r.uniform(-8, -1), 0.3], [-0.3, 0.3], [0.3, -1e-4]])
    return {'p': p}


SPEC = Spec('P18', [
    Contract('rgb-to-xyz', CSRC, [PointsIn('p', 4)], run_to_xyz, post_to_xyz, pre=solid, driver='curve', op='to_xyz', outs=[('m', 'flts')]),
    Contract('xyz-to-rgb', CSRC, [PointsIn('p', 4)], run_inverse, post_inverse, pre=lambda C, i: C.sym or solid(C, i), driver='curve', op='inverse', outs=[('a', 'flts'), ('m', 'flts')], tol=1e-7),
    Contract('bradford', CSRC, [PointsIn('p', 2), ChoiceIn('adjust', [True, False])], run_bradford, post_bradford, pre=cones, sample=sample_bradford, driver='curve', op='bradford', outs=[('m', 'flts')]),
], DRV, ['doubles are real numbers in the proof; real matrices are compared to 1e-9', 'boost ublas: exact cells, lu_factorize answers 0 exactly for regular matrices, lu_substitute multiplies by the inverse'])
