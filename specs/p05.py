"""Times in certificates (ASN.1 UTCTime and GeneralizedTime)"""
from specs.timelib import *


def run(fn):
    def f(I, i):
        t = I.call_named('dcp::LocalTime::' + fn, None, [i['s']])
        t = I.rv(t)
        out = getters(I, t)
        out['text'] = I.rv(I.call_named('dcp::LocalTime::as_string', t, [True, True]))
        return out
    return f


def lay(n):
    a = [('y', 0, n)]
    for k, f in enumerate(('mo', 'd', 'h', 'mi', 's')):
        a.append((f, n + 2 * k, 2))
    return a


def post(n):
    def f(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        r = [('no-exception', True)]
        for nm, a, c in lay(n):
            v = value(C, i['s'], a, c)
            if nm == 'y' and n == 2:
                v = If(v < 70, 2000 + v, 1900 + v)
            r.append(('field-' + nm, eq(o[nm], v)))
        r.append(('whole-seconds', eq(o['ms'], 0)))
        r.append(('utc', lambda: And([eq(C.at(o['text'], 23 + k), c) for k, c in enumerate(zone_text(0, 0))])))
        return r
    return f


def pre(n):
    def f(C, i):
        s = i['s']
        v = {nm: value(C, s, a, c) for nm, a, c in lay(n)}
        return And([digit(C.at(s, k)) for k in range(n + 10)] + [eq(C.at(s, n + 10), 90), between(1, v['mo'], 12), between(1, v['d'], 31), v['h'] <= 23, v['mi'] <= 59, v['s'] <= 59,
                   v['y'] >= (1400 if n == 4 else 0)])
    return f


def sample(n):
    def f(r):
        y = r.choice([0, 49, 50, 69, 70, 71, 99, 13]) if n == 2 else r.choice([1400, 1969, 1970, 2049, 2050, 2100, 9999])
        if r.random() < 0.5:
            y = r.randint(0, 99) if n == 2 else r.randint(1400, 9999)
        return {'s': S('%0*d%02d%02d%02d%02d%02dZ' % (n, y, r.randint(1, 12), r.randint(1, 31), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)))}
    return f


OUT = GET + [('text', 'str')]
SPEC = Spec('P05', [
    Contract('utctime', SRC, [FixStrIn('s', 13)], run('from_asn1_utc_time'), post(2), pre=pre(2), driver='localtime', op='asn1utc', outs=OUT, sample=sample(2)),
    Contract('generalizedtime', SRC, [FixStrIn('s', 15)], run('from_asn1_generalized_time'), post(4), pre=pre(4), driver='localtime', op='asn1gen', outs=OUT, sample=sample(4)),
], DRV, ASSUME)
