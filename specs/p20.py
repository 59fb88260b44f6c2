"""Comparison of colour conversions"""
from specs.curves import *
from specs.p18 import CSRC, PointsIn, chromaticity

CC = 'dcp::ColourConversion::'
KINDS = [None, 'gamma', 'modified', 'identity', 'slog3']
EPS = RealIn('epsilon', 0, 1, [1e-6, 1e-3])


def dist(a, b):
    d = a - b
    return If(d >= 0, d, -d) if is_sym(d) else abs(d)


def same_curve(e, a, pa, b, pb):
    if a is None or b is None:
        return a is b
    return a == b and And([dist(x, y) < e for x, y in zip(pa, pb)])


def close(i, ds):
    """a difference too near epsilon for rounding to be told from a wrong answer"""
    return any(abs(d - i['epsilon']) < 1e-9 for d in ds)


class CurveIn(In):
    """[kind, parameters]"""

    def __init__(self, name, kinds):
        self.name, self.kinds = name, kinds

    def sym(self, P):
        k = self.kinds[P.choose(len(self.kinds))]
        return [k, [RealIn('%s_%d' % (self.name, j), lo, hi).sym(P) for j, (lo, hi) in enumerate(ParamsIn.RANGE[k] if k else [])]]

    def concrete(self, m, v):
        return [v[0], [flt_of(m.eval(x, model_completion=True)) for x in v[1]]]

    def sample(self, r):
        k = r.choice(self.kinds)
        return [k, ParamsIn(self.name).draw(r, k) if k else []]

    def enc(self, v):
        return ' '.join([hexs(S(v[0] or 'none'))] + [x.hex() for x in v[1]])


def shared(I, v):
    return SPtr(curve(I, *v)) if v[0] else SPtr(None)


def run_curves(I, i):
    a, b = shared(I, i['a']), shared(I, i['b'])
    return {'same': I.rv(I.call_named(CURVES[i['a'][0]][0] + '::about_equal', a.o, [b, i['epsilon']]))}


def post_curves(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    return [('no-exception', True), ('close-and-of-one-kind', eq(o['same'], same_curve(i['epsilon'], *i['a'], *i['b'])))]


def pre_curves(C, i):
    return C.sym or not close(i, [abs(x - y) for x, y in zip(i['a'][1], i['b'][1])])


def nudge(r, x, e):
    return x + r.choice([0, 0, 0, e * r.uniform(-0.99, 0.99), e * r.uniform(-0.99, 0.99), e * r.choice([-1, 1]) * r.uniform(1.01, 3)])


def sample_curves(r):
    e = r.choice([0.1, 0.01, 1e-3, 0.5])
    a, b = CurveIn('a', KINDS[1:]).sample(r), CurveIn('b', KINDS).sample(r)
    if r.random() < 0.8:
        b = [a[0], [nudge(r, x, e) for x in a[1]]]
    return {'a': a, 'b': b, 'epsilon': f32(e)}


def f32(e):
    import struct
    return struct.unpack('f', struct.pack('f', e))[0]


FEW = [None, 'gamma', 'identity']


class PairIn(In):
    """curves of the two conversions"""
    PAIRS = [(None, None), (None, 'gamma'), ('gamma', None), ('gamma', 'gamma'), ('gamma', 'identity')]

    def __init__(self, name):
        self.name = name

    def sym(self, P):
        return [CurveIn(self.name + s, [k]).sym(P) for s, k in zip('ab', self.PAIRS[P.choose(len(self.PAIRS))])]

    def concrete(self, m, v):
        return [CurveIn('', []).concrete(m, x) for x in v]

    def sample(self, r):
        return [CurveIn('', FEW).sample(r) for _ in 'ab']

    def enc(self, v):
        return ' '.join(CurveIn('', []).enc(x) for x in v)


def run_points(I, i):
    a, b = (chromaticity(I, p) for p in i['p'])
    return {'same': I.rv(I.call_named('dcp::Chromaticity::about_equal', a, [ObjLV(b), i['epsilon']]))}


def post_points(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    (ax, ay), (bx, by) = i['p']
    return [('no-exception', True), ('both-coordinates-close', eq(o['same'], And(dist(ax, bx) < i['epsilon'], dist(ay, by) < i['epsilon'])))]


def sample_points(r):
    e = r.choice([0.1, 0.01, 1e-3])
    a = PointsIn('', 1).sample(r)[0]
    return {'p': [a, [nudge(r, c, e) for c in a]], 'epsilon': f32(e)}


def run(I, i):
    if is_sym(i['epsilon']):
        # the contract of this function, proved above, stands for it
        def close_points(I, f, this, args):
            o, e = I.rv(args[0]), I.to_sort(I.rv(args[1]), z3.RealSort())
            return And([dist(this.fields[c], o.fields[c]) < e for c in 'xy'])
        I.summaries = dict(I.summaries or {}, **{'dcp::Chromaticity::about_equal': close_points})

    def make(side):
        pts = [chromaticity(I, p) for p in i['p' + side]]
        t = [p['t'] for p in I.prog.find(CC + 'ColourConversion', 8)['params']]
        o = I.default(t[6])
        if i['adjusted'][side == 'b']:
            o.has, o.val = True, pts[4]
        return I.construct(I.prog.find(CC + 'ColourConversion', 8), I.prog.type('dcp::ColourConversion'), [shared(I, i['in'][side == 'b']), i['yuv'][side == 'b']] + pts[:4] + [o, shared(I, i['out'][side == 'b'])])
    return {'same': I.rv(I.call_named(CC + 'about_equal', make('a'), [ObjLV(make('b')), i['epsilon']]))}


def post(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    e = i['epsilon']
    pts = lambda k: [dist(i['pa'][k][j], i['pb'][k][j]) < e for j in (0, 1)]
    want = [i['yuv'][0] == i['yuv'][1], same_curve(e, *i['in'][0], *i['in'][1]), same_curve(e, *i['out'][0], *i['out'][1]), i['adjusted'][0] == i['adjusted'][1]]
    for k in range(4):
        want += pts(k)
    if i['adjusted'][0] and i['adjusted'][1]:
        want += pts(4)
    return [('no-exception', True), ('every-part-close', eq(o['same'], And(want)))]


def pre(C, i):
    return C.sym or not close(i, [abs(x - y) for p, q in list(zip(i['pa'], i['pb'])) + [(i['in'][0][1], i['in'][1][1]), (i['out'][0][1], i['out'][1][1])] for x, y in zip(p, q)])


def sample(r):
    e = r.choice([0.1, 0.01, 1e-3])
    pa = PointsIn('', 5).sample(r)
    out = {'pa': pa, 'pb': [list(p) for p in pa], 'epsilon': f32(e), 'yuv': [1, 1] if r.random() < 0.9 else [1, 2]}
    x = r.random() < 0.5
    out['adjusted'] = r.choice([[x, x], [x, x], [x, x], [True, False], [False, True]])
    for n in ('in', 'out'):
        a = CurveIn('', FEW).sample(r)
        b = [a[0], list(a[1])] if r.random() < 0.9 else CurveIn('', FEW).sample(r)
        out[n] = [a, b]
    # at most one part is moved, by less or by more than epsilon
    for _ in range(r.randint(0, 2)):
        k, j = r.randint(0, 4), r.randint(0, 1)
        out['pb'][k][j] += e * r.choice([-1, 1]) * r.choice([0.5, 0.95, 1.05, 2])
    if out['in'][1][1] and r.random() < 0.2:
        out['in'][1][1][0] += e * r.choice([-1, 1]) * r.choice([0.5, 0.95, 1.05, 2])
    if out['out'][1][1] and r.random() < 0.2:
        out['out'][1][1][0] += e * r.choice([-1, 1]) * r.choice([0.5, 0.95, 1.05, 2])
    return out


SPEC = Spec('P20', [
    Contract('curves', CSRC, [CurveIn('a', KINDS[1:]), CurveIn('b', KINDS), EPS], run_curves, post_curves, pre=pre_curves, sample=sample_curves, driver='curve', op='same_curve', outs=[('same', 'bool')]),
    Contract('points', CSRC, [PointsIn('p', 2), EPS], run_points, post_points, pre=lambda C, i: C.sym or not close(i, [abs(x - y) for x, y in zip(*i['p'])]), sample=sample_points, driver='curve', op='same_point', outs=[('same', 'bool')]),
    Contract('conversions', CSRC, [PointsIn('pa', 5), PointsIn('pb', 5), ChoiceIn('adjusted', [[False, False], [True, True], [False, True], [True, False]]), ChoiceIn('yuv', [[1, 1], [1, 2]]), PairIn('in'), PairIn('out'), EPS],
             run, post, pre=pre, sample=sample, driver='curve', op='same', outs=[('same', 'bool')]),
], DRV, ['doubles are real numbers in the proof', 'epsilon is the double nearest to the float passed'])
