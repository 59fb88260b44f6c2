"""Parameters of colour conversions"""
from specs.curves import *
from specs.p18 import CSRC, PointsIn, chromaticity

D65 = [0.3127, 0.329]
REC709 = [[0.64, 0.33], [0.3, 0.6], [0.15, 0.06]]
P3 = [[0.68, 0.32], [0.265, 0.69], [0.15, 0.06]]
OUT = ('gamma', [2.6])
# name -> (input curve, YUV matrix, primaries, white, output curve) as published for each standard
PRESETS = {
    'srgb': (('modified', [2.4, 0.04045, 0.055, 12.92]), 0, REC709, D65, OUT),
    'rec601': (('gamma', [2.2]), 0, REC709, D65, OUT),
    'rec709': (('gamma', [2.2]), 1, REC709, D65, OUT),
    'p3_dci': (('gamma', [2.6]), 1, P3, [0.314, 0.351], OUT),
    'p3_d65': (('gamma', [2.6]), 1, P3, D65, OUT),
    'p3_d60': (('gamma', [2.6]), 1, P3, [0.32168, 0.33767], OUT),
    'rec1886': (('gamma', [2.4]), 1, REC709, D65, OUT),
    'rec2020': (('gamma', [2.4]), 2, [[0.708, 0.292], [0.17, 0.797], [0.131, 0.046]], D65, OUT),
    's_gamut3': (('slog3', []), 1, [[0.73, 0.28], [0.14, 0.855], [0.1, -0.05]], D65, ('identity', [])),
}
CC = 'dcp::ColourConversion::'
BITS = 4


def get(I, c, n):
    return I.rv(I.call_named(CC + n, c, []))


def state(I, c):
    """what the accessors say"""
    p = []
    for n in ('red', 'green', 'blue', 'white'):
        q = get(I, c, n)
        p += [q.fields['x'], q.fields['y']]
    a = get(I, c, 'adjusted_white')
    p += [a.val.fields['x'], a.val.fields['y']] if a.has is True else [0.0, 0.0]
    return {'points': p, 'adjusted': a.has, 'yuv': I.asint(get(I, c, 'yuv_to_rgb'))}


def tables(I, f):
    r = []
    for inverse in (False, True):
        l = I.rv(I.call_named('dcp::TransferFunction::double_lut', f, [0.0, 1.0, BITS, inverse]))
        r += [float(x) for x in l.items]
    return r


def run_preset(I, i):
    c = I.call_named(CC + i['which'] + '_to_xyz', None, [])
    o = I.rv(c)
    r = state(I, o)
    r['in'] = tables(I, get(I, o, 'in').o)
    r['out'] = tables(I, get(I, o, 'out').o)
    return r


def post_preset(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    fin, yuv, prim, white, fout = PRESETS[i['which']]
    want = [c for p in prim for c in p] + white
    out = [('no-exception', True), ('yuv-matrix', o['yuv'] == yuv), ('no-adjusted-white', o['adjusted'] is False or o['adjusted'] == 0)]
    out.append(('primaries', all(near(a, b, 1e-12) for a, b in zip(o['points'][:6], want[:6]))))
    out.append(('white', all(near(a, b, 1e-12) for a, b in zip(o['points'][6:8], want[6:8]))))
    n = 1 << BITS
    for name, f in (('in', fin), ('out', fout)):
        ok = len(o[name]) == 2 * n
        for k in range(2 * n if ok else 0):
            e = entry({'curve': f[0], 'p': f[1], 'from': 0.0, 'to': 1.0, 'inverse': k >= n}, n, k % n)
            ok = ok and any(near(o[name][k], v) for v in e)
        out.append((name + 'put-curve' if name == 'in' else 'output-curve', ok))
    return out


SETTERS = ['red', 'green', 'blue', 'white', 'adjusted_white', 'yuv_to_rgb', 'in', 'out', None, 'unset']


def run_params(I, i):
    pts = [chromaticity(I, p) for p in i['p']]
    fs = [SPtr(curve(I, 'gamma', [g])) for g in (1.0, 2.0, 3.0, 4.0)]
    yt = [p['t'] for p in I.prog.find(CC + 'ColourConversion', 8)['params']]
    opt = Lib('optional', has=i['adjusted'], val=pts[4] if i['adjusted'] else None)
    o = I.default(yt[6])
    if i['adjusted']:
        o.has, o.val = True, pts[4]
    c = I.construct(I.prog.find(CC + 'ColourConversion', 8), I.prog.type('dcp::ColourConversion'), [fs[0], i['yuv'][0]] + pts[:4] + [o, fs[1]])
    s = i['set']
    if s == 'unset':
        I.call_named(CC + 'unset_adjusted_white', c, [])
    elif s in ('in', 'out'):
        I.call_named(CC + 'set_' + s, c, [fs[2 if s == 'in' else 3]])
    elif s == 'yuv_to_rgb':
        I.call_named(CC + 'set_yuv_to_rgb', c, [i['yuv'][1]])
    elif s is not None:
        I.call_named(CC + 'set_' + s, c, [pts[5]])
    r = state(I, c)
    which = lambda f: [k for k, x in enumerate(fs) if x.o is f.o][0]
    r['in'], r['out'] = which(get(I, c, 'in')), which(get(I, c, 'out'))
    return r


def post_params(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    s = i['set']
    p = [list(q) for q in i['p'][:5]]
    names = SETTERS[:5]
    if s in names:
        p[names.index(s)] = i['p'][5]
    adjusted = True if s == 'adjusted_white' else False if s == 'unset' else i['adjusted']
    out = [('no-exception', True)]
    for k, n in enumerate(names[:4]):
        out.append((n, And(eq(o['points'][2 * k], p[k][0]), eq(o['points'][2 * k + 1], p[k][1]))))
    out.append(('adjusted-white', bool(o['adjusted']) == adjusted and (not adjusted or And(eq(o['points'][8], p[4][0]), eq(o['points'][9], p[4][1])))))
    out.append(('yuv-matrix', o['yuv'] == i['yuv'][1 if s == 'yuv_to_rgb' else 0]))
    out.append(('input-curve', o['in'] == (2 if s == 'in' else 0)))
    out.append(('output-curve', o['out'] == (3 if s == 'out' else 1)))
    return out


class NameIn(ChoiceIn):
    def enc(self, v):
        return hexs(S(v or 'none'))


OUTS = [('points', 'flts'), ('adjusted', 'bool'), ('yuv', 'int')]
SPEC = Spec('P19', [
    Contract('standard-conversions', CSRC, [NameIn('which', list(PRESETS))], run_preset, post_preset, driver='curve', op='preset', outs=OUTS + [('in', 'flts'), ('out', 'flts')], tol=1e-12),
    Contract('parameters', CSRC, [PointsIn('p', 6), ChoiceIn('adjusted', [True, False]), ChoiceIn('yuv', [[0, 2], [1, 0], [2, 1]]), NameIn('set', SETTERS)], run_params, post_params, driver='curve', op='params', outs=OUTS + [('in', 'int'), ('out', 'int')]),
], DRV, ['doubles are real numbers in the proof', 'pow and log10 evaluate as those of the C library do, compared to 1e-9'])
