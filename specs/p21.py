"""Times within a composition: comparison, addition, subtraction and conversion between rates are exact"""
from vc.contract import *

SRC = ['dcp_time.cc']
DRV = {'time': Driver('time', ['dcp_time.cc', 'raw_convert.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lfmt'])}
T = 'dcp::Time'
RATE = [24, 25, 30, 48, 60, 96, 250, 1000, 1152, 24000]
F = ('h', 'm', 's', 'e', 'tcr')


def ins(p='', rate=32767, hours=99):
    return [IntIn(p + 'h', 0, hours), IntIn(p + 'm', 0, 59, [0, 59]), IntIn(p + 's', 0, 59, [0, 59]), IntIn(p + 'e', 0, rate - 1, [0, 1, 23, 249, 999]), IntIn(p + 'tcr', 1, rate, [x for x in RATE if x <= rate])]


def ok(*ps):
    return lambda C, i: And(*[i[p + 'e'] < i[p + 'tcr'] for p in ps])


def mk(I, i, p=''):
    return I.construct(I.prog.find(T + '::Time', 5), I.prog.type(T), [i[p + k] for k in F])


def seconds(i, p=''):
    return i[p + 'h'] * 3600 + i[p + 'm'] * 60 + i[p + 's']


def op(I, name, n, a):
    return I.rv(I.call(I.prog.find('dcp::operator' + name, n, lambda f: f['params'][0]['t'].key.replace('const ', '').rstrip(' &') == T), None, a))


def get(I, t):
    return {k: I.rv(t.fields[k]) for k in F}


CMP = ['==', '!=', '<', '<=', '>', '>=']


def run_cmp(I, i):
    a, b = mk(I, i, 'a'), mk(I, i, 'b')
    return {'r%d' % k: op(I, x, 2, [ObjLV(a), ObjLV(b)]) for k, x in enumerate(CMP)}


def post_cmp(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    sa, sb, x, y = seconds(i, 'a'), seconds(i, 'b'), i['ae'] * i['btcr'], i['be'] * i['atcr']
    less, same = Or(sa < sb, And(eq(sa, sb), x < y)), And(eq(sa, sb), eq(x, y))
    w = [same, Not(same), less, Or(less, same), Not(Or(less, same)), Not(less)]
    return [('agrees-with-order-of-instants: ' + n, Iff(o['r%d' % k], w[k])) for k, n in enumerate(CMP)]


def run_sum(name):
    def run(I, i):
        r = op(I, name, 2, [mk(I, i, 'a'), mk(I, i, 'b')])
        return get(I, r)
    return run


def post_sum(sign):
    def post(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        same = eq(i['atcr'], i['btcr'])
        rate = If(same, i['atcr'], i['atcr'] * i['btcr'])
        units = If(same, i['ae'] + sign * i['be'], i['ae'] * i['btcr'] + sign * i['be'] * i['atcr'])
        total = seconds(i, 'a') + sign * seconds(i, 'b')
        c = o['s'] + o['m'] * 60 + o['h'] * 3600 - total     # seconds carried
        return [('rate', eq(o['tcr'], rate)), ('in-range', And(between(0, o['m'], 59), between(0, o['s'], 59), 0 <= o['e'], o['e'] < rate)),
                ('exact', And(between(-1, c, 1), eq(units - o['e'], If(eq(c, 0), 0, If(eq(c, 1), rate, -rate)))))]
    return post


def near(r, j):
    """times whose units, seconds or minutes carry"""
    if r.random() < 0.4:
        j['btcr'] = j['atcr']
    for p in 'ab':
        j[p + 'e'] = r.choice([0, j[p + 'tcr'] - 1, j[p + 'tcr'] // 2, r.randint(0, j[p + 'tcr'] - 1)])
    if r.random() < 0.4:
        for k in r.sample(['h', 'm', 's'], r.randint(1, 3)):
            j['b' + k] = j['a' + k]
    return j


AB = ins('a') + ins('b')


def sample_ab(r):
    return near(r, {x.name: x.sample(r) for x in AB})


def run_div(I, i):
    return {'q': op(I, '/', 2, [mk(I, i, 'a'), ObjLV(mk(I, i, 'b'))])}


def real(C, x):
    return z3.ToReal(num(x)) if C.sym else float(x)


def total(C, i, p=''):
    return real(C, seconds(i, p)) + real(C, i[p + 'e']) / real(C, i[p + 'tcr'])


def post_div(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    if C.sym:
        return [('ratio', eq(o['q'], total(C, i, 'a') / total(C, i, 'b')))]
    w = total(C, i, 'a') / total(C, i, 'b')
    return [('ratio', abs(o['q'] - w) <= 2e-7 * abs(w))]


def expand(x):
    return z3.simplify(x, som=True) if is_sym(x) else x


def run_units(I, i):
    t = mk(I, i)
    g = lambda n, *a: I.rv(I.call_named(T + '::' + n, t, list(a)))
    return {'units': g('as_editable_units'), 'floor': g('as_editable_units_floor', i['rate']), 'ceil': g('as_editable_units_ceil', i['rate']), 'seconds': g('as_seconds')}


def post_units(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    r, t = i['rate'], i['tcr']
    f, c = expand(o['floor'] - seconds(i) * r), expand(o['ceil'] - seconds(i) * r)
    p = i['e'] * r
    s = eq(o['seconds'], total(C, i)) if C.sym else abs(o['seconds'] - total(C, i)) <= 1e-12 * max(1, total(C, i))
    return [('units', eq(o['units'], seconds(i) * t + i['e'])), ('rounded-down', And(f * t <= p, (f + 1) * t > p)), ('rounded-up', And(c * t >= p, (c - 1) * t < p)), ('seconds', s)]


def run_rebase(I, i):
    return get(I, I.rv(I.call_named(T + '::rebase', mk(I, i), [i['rate']])))


def post_rebase(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    c = seconds(o) - seconds(i)
    d = o['e'] + If(eq(c, 1), i['rate'], 0) if C.sym else o['e'] + c * i['rate']
    x = 2 * (d * i['tcr'] - i['e'] * i['rate'])
    return [('rate', eq(o['tcr'], i['rate'])), ('in-range', And(between(0, o['m'], 59), between(0, o['s'], 59), 0 <= o['e'], o['e'] < i['rate'])),
            ('nearest', And(Or(eq(c, 0), eq(c, 1)), x <= i['tcr'], x >= -i['tcr']))]


def run_secs(I, i):
    return get(I, I.construct(I.prog.find(T + '::Time', 2, lambda f: f['params'][0]['t'].key == 'float64'), I.prog.type(T), [i['seconds'], i['tcr']]))


def post_secs(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    d = (real(C, seconds(o)) - i['seconds']) * real(C, i['tcr']) + real(C, o['e'])
    tol = 0.5 if C.sym else 0.5 + 1e-6
    return [('rate', eq(o['tcr'], i['tcr'])), ('in-range', And(0 <= o['h'], between(0, o['m'], 59), between(0, o['s'], 59), 0 <= o['e'], o['e'] < i['tcr'])),
            ('nearest', And(d <= tol, d >= -tol))]


def run_frame(I, i):
    return get(I, I.construct(I.prog.find(T + '::Time', 3, lambda f: f['params'][0]['t'].key == 'int'), I.prog.type(T), [i['frame'], i['fps'], i['tcr']]))


def post_frame(C, i, o):
    return post_secs(C, dict(i, seconds=(z3.ToReal(i['frame']) if C.sym else i['frame']) / i['fps']), o)


def sample_secs(r):
    t = r.choice(RATE)
    s = r.choice([0, 1, 59, 60, 61, 3599, 3600, r.randint(0, 100000)]) + r.choice([0, 0.5, 1 - 0.4 / t, 1 - 0.6 / t, 0.999999, r.random(), r.randint(0, t - 1) / t])
    return {'seconds': float(s), 'tcr': t}


def sample_frame(r):
    fps = r.choice([24.0, 25.0, 30.0, 48.0, 23.976, 29.97, 60.0])
    return {'frame': r.choice([0, 1, r.randint(0, 10 ** 6), int(fps * 60) - 1, int(fps * 3600), int(fps * 3600) - 1]), 'fps': fps, 'tcr': r.choice([4, 24, 25, 250, 1000])}


def sample_rebase(r):
    j = {x.name: x.sample(r) for x in ins(rate=1000)}
    j['tcr'], j['rate'] = r.choice(RATE[:8]), r.choice(RATE[:8])
    j['e'] = r.choice([0, j['tcr'] - 1, j['tcr'] // 2, r.randint(0, j['tcr'] - 1)])
    if r.random() < 0.5:
        j['s'] = 59
    if r.random() < 0.5:
        j['m'] = 59
    return j


OUT = [(k, 'int') for k in F]
contracts = [
    Contract('comparison', SRC, ins('a', 1 << 30) + ins('b', 1 << 30), run_cmp, post_cmp, pre=ok('a', 'b'), driver='time', op='cmp', outs=[('r%d' % k, 'bool') for k in range(6)], sample=sample_ab),
    Contract('sum', SRC, AB, run_sum('+'), post_sum(1), pre=ok('a', 'b'), driver='time', op='add', outs=OUT, sample=sample_ab),
    Contract('difference', SRC, AB, run_sum('-'), post_sum(-1), pre=ok('a', 'b'), driver='time', op='sub', outs=OUT, sample=sample_ab),
    Contract('ratio', SRC, AB, run_div, post_div, pre=lambda C, i: And(ok('a', 'b')(C, i), Or(seconds(i, 'b') > 0, i['be'] > 0)), driver='time', op='div', outs=[('q', 'flt')], sample=sample_ab, tol=3e-7),
    Contract('units', SRC, ins(rate=96000) + [IntIn('rate', 1, 96000, RATE)], run_units, post_units, pre=ok(''), driver='time', op='units', outs=[('units', 'int'), ('floor', 'int'), ('ceil', 'int'), ('seconds', 'flt')]),
    Contract('rebase', SRC, ins(rate=1000) + [IntIn('rate', 1, 1000, RATE[:8])], run_rebase, post_rebase, pre=ok(''), driver='time', op='rebase', outs=OUT, sample=sample_rebase),
    Contract('from-seconds', SRC, [RealIn('seconds', 0, 360000), IntIn('tcr', 1, 96000)], run_secs, post_secs, driver='time', op='seconds', outs=OUT, sample=sample_secs),
    Contract('from-frame', SRC, [IntIn('frame', 0, 10 ** 7), RealIn('fps', 1, 1000), IntIn('tcr', 1, 96000)], run_frame, post_frame,
             pre=lambda C, i: (z3.ToReal(i['frame']) if C.sym else i['frame']) <= 360000 * i['fps'], driver='time', op='frame', outs=OUT, sample=sample_frame),
]
SPEC = Spec('P21', contracts, DRV)
