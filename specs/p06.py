"""UTC offsets, conversion to seconds since the epoch, and construction"""
from specs.timelib import *
EPOCH = day_number(1970, 1, 1)


def run_timet(I, i):
    return {'t': I.rv(I.call_named('dcp::LocalTime::as_time_t', make(I, i), []))}


def post_timet(C, i, o):
    t = fdiv(instant(i), 1000000) - EPOCH * 86400
    return [('no-exception', o['exc'] is None), ('seconds-since-epoch', lambda: eq(o['t'], t))]


def run_offset(I, i):
    u = I.prog.type('dcp::UTCOffset')
    x = I.construct(I.prog.find('dcp::UTCOffset::UTCOffset', 0), u, [])
    I.call_named('dcp::UTCOffset::set_hour', x, [i['a']])
    I.call_named('dcp::UTCOffset::set_minute', x, [i['b']])
    return {'h': I.rv(I.call_named('dcp::UTCOffset::hour', x, [])), 'm': I.rv(I.call_named('dcp::UTCOffset::minute', x, []))}


def post_offset(C, i, o):
    ok = And(between(-11, i['a'], 12), between(-59, i['b'], 59))
    r = [('refused-outside-the-range', Implies(Not(ok), o['exc'] is not None)), ('accepted-inside-the-range', Implies(ok, o['exc'] is None))]
    if o['exc'] is None:
        r.append(('reads-back', And(eq(o['h'], i['a']), eq(o['m'], i['b']))))
    return r


def run_offeq(I, i):
    u = I.prog.type('dcp::UTCOffset')
    c = I.prog.find('dcp::UTCOffset::UTCOffset', 2)
    x, y = I.construct(c, u, [i['a'], i['b']]), I.construct(c, u, [i['c'], i['d']])
    off = lambda f: 'UTCOffset' in f['params'][0]['t'].key
    return {'h': I.rv(I.call_named('dcp::UTCOffset::hour', x, [])), 'm': I.rv(I.call_named('dcp::UTCOffset::minute', x, [])),
            'eq': I.rv(I.call(I.prog.find('dcp::operator==', 2, off), None, [ObjLV(x), ObjLV(y)])),
            'ne': I.rv(I.call(I.prog.find('dcp::operator!=', 2, off), None, [ObjLV(x), ObjLV(y)]))}


def post_offeq(C, i, o):
    same = And(eq(i['a'], i['c']), eq(i['b'], i['d']))
    return [('no-exception', o['exc'] is None), ('equal-iff-same', lambda: And(Iff(o['eq'], same), Iff(o['ne'], Not(same)))),
            ('reads-back', lambda: And(eq(o['h'], i['a']), eq(o['m'], i['b'])))]


def sample_offeq(r):
    v = [0, 1, -1, 5, 30, -30, 12, -11]
    i = {k: r.choice(v) for k in 'abcd'}
    if r.random() < 0.5:
        i['c'] = i['a']
    if r.random() < 0.5:
        i['d'] = i['b']
    return i


TMF = [('tm_year', 0, 8000), ('tm_mon', 0, 11), ('tm_mday', 1, 31), ('tm_hour', 0, 23), ('tm_min', 0, 59), ('tm_sec', 0, 60)]


def run_tm(I, i):
    s = StructObj(None)
    for n, lo, hi in TMF:
        s.fields[n] = i[n]
    t = I.construct(I.prog.find('dcp::LocalTime::LocalTime', 1, lambda f: f['params'][0]['t'].key == 'tm'), I.prog.type('dcp::LocalTime'), [s])
    I.nameobj(t, 'time')
    return getters(I, t)


def post_tm(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    return [('no-exception', True), ('fields', And(eq(o['y'], i['tm_year'] + 1900), eq(o['mo'], i['tm_mon'] + 1), eq(o['d'], i['tm_mday']), eq(o['h'], i['tm_hour']),
                                                   eq(o['mi'], i['tm_min']), eq(o['s'], i['tm_sec']), eq(o['ms'], 0)))]


def run_six(I, i):
    off = I.construct(I.prog.find('dcp::UTCOffset::UTCOffset', 2), I.prog.type('dcp::UTCOffset'), [i['oh'], i['om']])
    t = I.construct(I.prog.find('dcp::LocalTime::LocalTime', 6), I.prog.type('dcp::LocalTime'), [i['y'], i['mo'], i['d'], i['h'], i['mi'], off])
    I.nameobj(t, 'time')
    out = getters(I, t)
    out['text'] = I.rv(I.call_named('dcp::LocalTime::as_string', t, [True, True]))
    return out


def post_six(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    j = dict(i, s=0, ms=0)
    return [('no-exception', True), ('fields', And(*[eq(o[k], j[k]) for k in ('y', 'mo', 'd', 'h', 'mi', 's', 'ms')])),
            ('offset', lambda: chars_eq(C, o['text'], text(j, i['oh'], i['om'], True, True)))]


def run_pt(I, i):
    t = make(I, i)
    return getters(I, t)


def post_pt(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    return [('no-exception', True), ('fields', And(*[eq(o[k], i[k]) for k in ('y', 'mo', 'd', 'h', 'mi', 's', 'ms')]))]


def zone_of(z):
    """hours and minutes of an offset in minutes, both with its sign"""
    h = If(z >= 0, fdiv(z, 60), -fdiv(-z, 60))
    return h, z - h * 60


def run_here(I, i):
    I.opts['zone_minutes'] = i['zone']
    lt, T = 'dcp::LocalTime::LocalTime', I.prog.type('dcp::LocalTime')
    d = mk_date(I, i['y'], i['mo'], i['d'])
    s = StructObj(None)
    for n, v in (('tm_year', i['y'] - 1900), ('tm_mon', i['mo'] - 1), ('tm_mday', i['d']), ('tm_hour', i['h']), ('tm_min', i['mi']), ('tm_sec', i['s'])):
        s.fields[n] = simp(v)
    if i['how'] == 'now':
        I.opts['now'] = I.P.fresh_int('now', 0, 1 << 40), s
        t = I.construct(I.prog.find(lt, 0), T, [])
    elif i['how'] == 'tm':
        t = I.construct(I.prog.find(lt, 1, lambda f: f['params'][0]['t'].key == 'tm'), T, [s])
    else:
        t = I.construct(I.prog.find(lt, 1, lambda f: 'ptime' in f['params'][0]['t'].key), T, [Lib('ptime', us=simp(d.n * DAY + tod_us(i['h'], i['mi'], i['s'], i['ms'])))])
    I.nameobj(t, 'time')
    out = getters(I, t)
    out['text'] = I.rv(I.call_named('dcp::LocalTime::as_string', t, [True, True]))
    return out


def the_time(I, f, t, a):
    return I.opts['now'][0] if 'now' in I.opts else NotImplemented


def the_local_time(I, f, t, a):
    v = I.deref(I.rv(a[0])).get()
    return Ptr(ObjLV(I.opts['now'][1])) if 'now' in I.opts and I.P.valid(eq(v, I.opts['now'][0])) else NotImplemented


def post_here(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    j = dict(i, ms=i['ms'] if i['how'] == 'ptime' else 0)
    return [('no-exception', True), ('fields', And(*[eq(o[k], j[k]) for k in ('y', 'mo', 'd', 'h', 'mi', 's', 'ms')])),
            ('offset-of-this-place', lambda: chars_eq(C, o['text'], text(j, *zone_of(i['zone']), True, True)))]


def run_set(I, i):
    t = make(I, i)
    off = I.construct(I.prog.find('dcp::UTCOffset::UTCOffset', 2), I.prog.type('dcp::UTCOffset'), [i['noh'], i['nom']])
    for n, v in (('set_year', i['ny']), ('set_month', i['nmo']), ('set_day', i['nd']), ('set_offset', off)):
        I.call_named('dcp::LocalTime::' + n, t, [v])
    out = getters(I, t)
    out['text'] = I.rv(I.call_named('dcp::LocalTime::as_string', t, [True, True]))
    return out


def post_set(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    j = dict(i, y=i['ny'], mo=i['nmo'], d=i['nd'])
    return [('no-exception', True), ('only-those-fields-change', And(*[eq(o[k], j[k]) for k in ('y', 'mo', 'd', 'h', 'mi', 's', 'ms')])),
            ('offset', lambda: chars_eq(C, o['text'], text(j, i['noh'], i['nom'], True, True)))]


F = fields()
NEW = [IntIn('ny', 1402, 9997), IntIn('nmo', 1, 12), IntIn('nd', 1, 28), IntIn('noh', 0, 12), IntIn('nom', 0, 59)]
I32 = (-2**31, 2**31 - 1)
SIX = [x for x in F if x.name not in ('s', 'ms')]


def samp_six(r):
    i = sampler()(r)
    del i['s'], i['ms']
    return i


HERE = [x for x in fields(ylo=1971) if x.name not in ('oh', 'om')] + [IntIn('zone', -12 * 60, 14 * 60, [0, 60, -60, 330, -210, -30, 30, 840])]


def samp_here(r):
    i = sampler()(r)
    del i['oh'], i['om']
    return dict(i, y=r.choice([1971, 2000, 2024, 2037, r.randint(1971, 9997)]), d=r.randint(1, 28))


SPEC = Spec('P06', [
    Contract('seconds-since-epoch', SRC, fields(ylo=1971), run_timet, post_timet, pre=lambda C, i: And(valid(C, i), i['y'] >= 1971), driver='localtime', op='timet', outs=[('t', 'int')],
             sample=lambda r: dict(sampler()(r), y=r.choice([1971, 2000, 2024, 2100, r.randint(1971, 9997)]), d=r.randint(1, 28))),
    Contract('offset-range', SRC, [IntIn('a', *I32, pts=[-12, -11, 12, 13, 0]), IntIn('b', *I32, pts=[-60, -59, 59, 60, 0])], run_offset, post_offset,
             driver='localtime', op='offset', outs=[('h', 'int'), ('m', 'int')]),
    Contract('offset-equality', SRC, [IntIn(k, *I32) for k in 'abcd'], run_offeq, post_offeq, driver='localtime', op='offeq',
             outs=[('h', 'int'), ('m', 'int'), ('eq', 'bool'), ('ne', 'bool')], sample=sample_offeq),
    Contract('from-tm', SRC, [IntIn(*x) for x in TMF], run_tm, post_tm, driver='localtime', op='tm', outs=GET),
    Contract('from-fields', SRC, SIX, run_six, post_six, pre=lambda C, i: valid(C, i), driver='localtime', op='six', outs=GET + [('text', 'str')], sample=samp_six),
    Contract('from-ptime', SRC, F, run_pt, post_pt, pre=valid, driver='localtime', op='ptime', outs=GET, sample=sampler()),
] + [
    Contract('built-here-from-' + how, SRC, HERE + [ChoiceIn('how', [how])], run_here, post_here, pre=lambda C, i: And(valid_date(i['y'], i['mo'], i['d']), i['y'] >= 1971), driver='localtime', op='here', outs=GET + [('text', 'str')], sample=samp_here,
             summaries={'time': the_time, 'localtime': the_local_time}) for how in ('now', 'tm', 'ptime')] + [
    Contract('setters', SRC, F + NEW, run_set, post_set, pre=valid, driver='localtime', op='set', outs=GET + [('text', 'str')], sample=sampler()),
], DRV, ASSUME, LEMMA)
