from specs.timelib import *


def run(op, name):
    def f(I, i):
        a, b = make(I, i), make(I, i, 'b')
        return {op: I.rv(I.call_named('dcp::LocalTime::operator' + name, a, [ObjLV(b)]))}
    return f


def want(op, i):
    a, b = instant(i), instant(i, 'b')
    return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': eq(a, b), 'ne': ne(a, b)}[op]


def sample(r):
    i = sampler()(r)
    k = r.random()
    if k < 0.5:
        # the same day, or one field apart
        j = {'b' + n: v for n, v in i.items()}
        for n in r.sample(FN, r.randint(0, 3)):
            j['b' + n] = {f.name: f for f in fields('b')}['b' + n].sample(r)
        if k < 0.25:
            # exactly the same instant seen from another offset, then perhaps nudged
            import datetime
            oh, om = r.choice([(0, 0), (1, 0), (-1, -30), (5, 30), (-14, 0), (14, 0), (0, 45), (0, -45)])
            us = instant(i) + (oh * 60 + om) * 60000000 + r.choice([0, 0, 1000, -1000, 60000000, -60000000])
            d = datetime.date.fromordinal(us // DAY)
            t = us % DAY
            j = {'by': d.year, 'bmo': d.month, 'bd': d.day, 'bh': t // 3600000000, 'bmi': t // 60000000 % 60, 'bs': t // 1000000 % 60, 'bms': t // 1000 % 1000, 'boh': oh, 'bom': om}
        i.update(j)
    else:
        i.update(sampler('b')(r))
    return i


def post(op):
    return lambda C, i, o: [('no-exception', o['exc'] is None), (op + '-is-instant-order', lambda: o['exc'] is None and Iff(o[op], want(op, i)))]


OPS = [('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')]
SPEC = Spec('P01', [
    Contract('order-' + op, SRC, fields() + fields('b'), run(op, name), post(op), pre=lambda C, i: And(valid(C, i), valid(C, i, 'b')),
             driver='localtime', op='cmp', outs=[(x[0], 'bool') for x in OPS], sample=sample) for op, name in OPS],
    DRV, ASSUME, LEMMA)
