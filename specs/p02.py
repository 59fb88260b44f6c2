from specs.timelib import *

FLD = fields(ylo=1402, yhi=9997)


def run_fmt(I, i):
    t = make(I, i)
    return {'s': I.rv(I.call_named('dcp::LocalTime::as_string', t, [i['ms_on'], i['tz_on']]))}


def post_fmt(C, i, o):
    return [('no-exception', o['exc'] is None),
            ('text', lambda: chars_eq(C, o['s'], text(i, i['oh'], i['om'], i['ms_on'], i['tz_on'])))]


def run_parts(I, i):
    t = make(I, i)
    return {'date': I.rv(I.call_named('dcp::LocalTime::date', t, [])),
            'time': I.rv(I.call_named('dcp::LocalTime::time_of_day', t, [i['s_on'], i['ms_on']]))}


def post_parts(C, i, o):
    if i['ms_on'] and not i['s_on']:
        return [('milliseconds-need-seconds', o['exc'] is not None)]
    return [('no-exception', o['exc'] is None), ('date-text', lambda: chars_eq(C, o['date'], date_text(i))),
            ('time-text', lambda: chars_eq(C, o['time'], time_text(i, i['s_on'], i['ms_on'])))]


def run_round(I, i):
    t = make(I, i)
    s = I.rv(I.call_named('dcp::LocalTime::as_string', t, [i['ms_on'], True]))
    u = parse(I, s)
    out = getters(I, u)
    out['text'] = I.rv(I.call_named('dcp::LocalTime::as_string', u, [True, True]))
    return out


def post_round(C, i, o):
    r = [('no-exception', o['exc'] is None)]
    if o['exc'] is None:
        for k in ('y', 'mo', 'd', 'h', 'mi', 's'):
            r.append(('reads-back-' + k, eq(o[k], i[k])))
        r.append(('reads-back-ms', eq(o['ms'], i['ms'] if i['ms_on'] else 0)))
        j = dict(i)
        if not i['ms_on']:
            j['ms'] = 0
        r.append(('reads-back-offset', lambda: chars_eq(C, o['text'], text(j, i['oh'], i['om'], True, True))))
    return r


def in_range(i):
    return And(i['oh'] >= -11, i['oh'] <= 12)


MS, TZ = ChoiceIn('ms_on', [False, True]), ChoiceIn('tz_on', [False, True])
SPEC = Spec('P02', [
    Contract('format', SRC, FLD + [MS, TZ], run_fmt, post_fmt, pre=valid, driver='localtime', op='fmt', outs=[('s', 'str')], sample=sampler()),
    Contract('date-and-time', SRC, FLD + [ChoiceIn('s_on', [False, True]), MS], run_parts, post_parts, pre=valid, driver='localtime', op='parts',
             outs=[('date', 'str'), ('time', 'str')], sample=sampler()),
    Contract('round-trip', SRC, FLD + [MS], run_round, post_round, pre=lambda C, i: And(valid(C, i), in_range(i)), driver='localtime', op='round',
             outs=GET + [('text', 'str')], sample=sampler()),
], DRV, ASSUME, LEMMA)
