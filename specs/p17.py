"""Two-part look-up tables"""
from specs.curves import *
from specs.p15 import two_to
from specs.p16 import rounded, REAL, INT

TU = VERIF + '/drivers/lut_tu.cc'
LUT = z3.Function('int_table', REAL, REAL, INT, z3.BoolSort(), INT, z3.ArraySort(INT, INT))
CURVE = ['gamma', [2.2]]


def run(I, i):
    t = I.prog.find('dcp::PiecewiseLUT2::PiecewiseLUT2', 6)['cls']
    f = curve(I, *CURVE)
    sym = is_sym(i['x'])
    args = [i['boundary'], i['low'], i['high'], i['inverse'], i['scale']]
    if sym:
        def table(I, fn, this, a):
            a = [I.rv(x) for x in a]
            n = I.P.fresh_int('entries')
            I.P.assume(n == two_to(I, num(a[2])))
            arr = LUT(I.to_sort(a[0], REAL), I.to_sort(a[1], REAL), num(a[2]), I.to_sort(a[3], z3.BoolSort()), num(a[4]))
            return ObjLV(Arr(fn['ret'].p.a[0], None, arr, n))
        I.summaries = dict(I.summaries or {}, **{'dcp::TransferFunction::int_lut': table})
    l = I.construct(I.prog.find('dcp::PiecewiseLUT2::PiecewiseLUT2', 6), t, [SPtr(f)] + args)
    return {'y': I.rv(I.call_named('dcp::PiecewiseLUT2::lookup', l, [i['x']]))}


def post(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    x, b = i['x'], i['boundary']
    if C.sym:
        part = lambda f, t, bits, v: z3.Select(LUT(f, t, bits, I2(i['inverse']), i['scale']), rounded(v * (z3.ToReal(two_to(C.I, bits)) - 1)))
        one, zero = z3.RealVal(1), z3.RealVal(0)
        want = z3.If(x < b, part(zero, b, i['low'], x / b), part(b, one, i['high'], (x - b) / (1 - b)))
        return [('no-exception', True), ('nearest-entry-of-the-right-part', eq(o['y'], want))]
    lo = x < b
    bits = i['low'] if lo else i['high']
    n = 1 << bits
    pos = (x / b if lo else (x - b) / (1 - b)) * (n - 1)
    a = {'curve': CURVE[0], 'p': CURVE[1], 'from': 0.0 if lo else b, 'to': b if lo else 1.0, 'inverse': i['inverse']}
    ks = [k for k in (math.floor(pos), math.ceil(pos)) if abs(k - pos) <= 0.5 + 1e-9]
    return [('no-exception', True), ('nearest-entry-of-the-right-part', any(abs(o['y'] - entry(a, n, k)[0] * i['scale']) <= 0.5 + 1e-6 for k in ks))]


def I2(v):
    return v if is_sym(v) else z3.BoolVal(v)


SPEC = Spec('P17', [
    Contract('lookup', [TU] + SRC, [RealIn('boundary', 0.001, 0.999, [0.0625, 0.5]), IntIn('low', 1, 16), IntIn('high', 1, 16), ChoiceIn('inverse', [False, True]), IntIn('scale', 0, 65535, [4095, 65535]), RealIn('x', 0, 1, [0, 1, 0.0625, 0.5])],
             run, post, sample=lambda r: (lambda b: {'boundary': b, 'x': r.choice([0.0, 1.0, b, math.nextafter(b, 0), r.uniform(0, b), r.uniform(0, 1)]), 'low': r.randint(1, 8), 'high': r.randint(1, 8)})(r.choice([0.0625, 0.5, r.uniform(0.001, 0.999)])),
             driver='curve', op='piecewise', outs=[('y', 'int')]),
], DRV, ['integer tables are what P16 proves them to be', 'doubles are real numbers in the proof'])
