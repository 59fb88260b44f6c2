"""Calendar arithmetic keeps every field in range, moves by exactly the amount asked for, and leaves the offset alone"""
from specs.timelib import *
from vc.lib_date import FIRST, LAST


def run(name, args):
    def f(I, i):
        t = make(I, i)
        I.call_named('dcp::LocalTime::' + name, t, args(I, i))
        out = getters(I, t)
        out['text'] = I.rv(I.call_named('dcp::LocalTime::as_string', t, [True, True]))
        return out
    return f


def common(C, i, o, rest):
    if o['exc'] is not None:
        return [('no-exception', False)]
    return [('no-exception', True),
            ('fields-in-range', And(valid_date(o['y'], o['mo'], o['d']), between(0, o['h'], 23), between(0, o['mi'], 59), between(0, o['s'], 59), between(0, o['ms'], 999))),
            ('offset-unchanged', lambda: And([eq(C.at(o['text'], 23 + k), c) for k, c in enumerate(zone_text(i['oh'], i['om']))]))] + rest(o)


def moved(delta_us):
    """the clock reading advanced by exactly this much"""
    def f(C, i, o):
        return common(C, i, o, lambda o: [('moved-exactly', lambda: eq(wall(o), wall(i) + delta_us(i)))])
    return f


def tod_same(i, o):
    return And(*[eq(o[k], i[k]) for k in ('h', 'mi', 's', 'ms')])


def post_days(C, i, o):
    return common(C, i, o, lambda o: [('moved-exactly', lambda: eq(day_number(o['y'], o['mo'], o['d']), day_number(i['y'], i['mo'], i['d']) + i['n'])),
                                      ('time-of-day-unchanged', lambda: tod_same(i, o))])


def post_months(C, i, o):
    def rest(o):
        e0, e1 = month_days(i['y'], i['mo']), month_days(o['y'], o['mo'])
        return [('month-moved-exactly', eq(o['y'] * 12 + o['mo'], i['y'] * 12 + i['mo'] + i['n'])),
                ('day', lambda: eq(o['d'], If(eq(i['d'], e0), e1, If(i['d'] > e1, e1, i['d'])))),
                ('time-of-day-unchanged', lambda: tod_same(i, o))]
    return common(C, i, o, rest)


def near(delta):
    """the result stays inside the calendar"""
    def f(C, i):
        n = day_number(i['y'], i['mo'], i['d']) + delta(i)
        return And(valid(C, i), n >= FIRST + 2, n <= LAST - 2)
    return f


OUT = GET + [('text', 'str')]
BIG = 3000000


def sample(name, lo, hi, pts):
    base = sampler()

    def f(r):
        i = base(r)
        i[name] = r.choice(pts) if r.random() < 0.5 else r.randint(lo, hi) if r.random() < 0.5 else r.randint(-400, 400)
        return i
    return f


F = fields()
us = IntIn('n', -BIG * DAY, BIG * DAY)
SPEC = Spec('P04', [
    Contract('days', SRC, F + [IntIn('n', -BIG, BIG)], run('add_days', lambda I, i: [i['n']]), post_days, pre=near(lambda i: i['n']),
             driver='localtime', op='days', outs=OUT, sample=sample('n', -2000000, 2000000, [0, 1, -1, 28, 31, 365, 366, -365, -366, 1461])),
    Contract('months', SRC, F + [IntIn('n', -120000, 120000)], run('add_months', lambda I, i: [i['n']]), post_months,
             pre=lambda C, i: And(valid(C, i), between(1401 * 12, i['y'] * 12 + i['mo'] - 1 + i['n'], 9998 * 12 + 11)),
             driver='localtime', op='months', outs=OUT, sample=sample('n', -5000, 5000, [0, 1, -1, 11, 12, 13, -11, -12, -13, 24, 6])),
    Contract('minutes', SRC, F + [IntIn('n', -2**31 + 1, 2**31 - 1)], run('add_minutes', lambda I, i: [i['n']]), moved(lambda i: i['n'] * 60000000),
             pre=near(lambda i: fdiv(i['n'], 1440)), driver='localtime', op='minutes', outs=OUT,
             sample=sample('n', -2**30, 2**30, [0, 1, -1, 59, 60, 61, -60, 1439, 1440, -1440, 1441])),
    Contract('duration', SRC, F + [us], run('add', lambda I, i: [Lib('duration', us=i['n'] * 1000)]), moved(lambda i: i['n'] * 1000),
             pre=near(lambda i: fdiv(i['n'], 86400000)), driver='localtime', op='addms', outs=OUT,
             sample=sample('n', -86400000 * 200000, 86400000 * 200000, [0, 1, -1, 999, 1000, 86399999, 86400000, -86400000, 3600000])),
], DRV, ASSUME, LEMMA)
