"""Shared by the properties about local times: building a LocalTime in the interpreter, and the reference semantics."""
from vc.contract import *
from vc.lib_date import mk_date, day_number, valid_date, month_days, leap, DAY, lemma_check

SRC = ['local_time.cc', 'utc_offset.cc']
DRV = {'localtime': Driver('localtime', ['local_time.cc', 'utc_offset.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lboost_date_time', '-lfmt'])}
LEMMA = [('day numbers are strictly monotone on valid dates and inverse to the calendar (exhaustive over years 1400-9999)', lemma_check)]
ASSUME = ['boost::gregorian / boost::posix_time follow the proleptic Gregorian calendar with microsecond ticks',
          'exception objects are opaque: their constructors are not executed']
FN = ('y', 'mo', 'd', 'h', 'mi', 's', 'ms', 'oh', 'om')


def fields(p='', ylo=1402, yhi=9997):
    return [IntIn(p + 'y', ylo, yhi, [1970, 1999, 2000, 2024, 2025, 2100]), IntIn(p + 'mo', 1, 12), IntIn(p + 'd', 1, 31, [28, 29, 30, 31]),
            IntIn(p + 'h', 0, 23), IntIn(p + 'mi', 0, 59), IntIn(p + 's', 0, 59), IntIn(p + 'ms', 0, 999), IntIn(p + 'oh', -14, 14, [0]),
            IntIn(p + 'om', -59, 59, [0, 0, 30, -30])]


def valid(C, i, p=''):
    """a calendar date, and an offset whose two components do not disagree in sign"""
    return And(valid_date(i[p + 'y'], i[p + 'mo'], i[p + 'd']), Or(i[p + 'oh'] * i[p + 'om'] >= 0) if not is_sym(i[p + 'oh']) else
               And(Implies(i[p + 'oh'] > 0, i[p + 'om'] >= 0), Implies(i[p + 'oh'] < 0, i[p + 'om'] <= 0)))


def tod_us(h, mi, s, ms):
    return ((h * 60 + mi) * 60 + s) * 1000000 + ms * 1000


def wall(i, p=''):
    """microseconds of the wall clock reading since day 0"""
    return day_number(i[p + 'y'], i[p + 'mo'], i[p + 'd']) * DAY + tod_us(i[p + 'h'], i[p + 'mi'], i[p + 's'], i[p + 'ms'])


def instant(i, p=''):
    return wall(i, p) - (i[p + 'oh'] * 60 + i[p + 'om']) * 60000000


def make(I, i, p=''):
    """LocalTime(ptime, UTCOffset)"""
    d = mk_date(I, i[p + 'y'], i[p + 'mo'], i[p + 'd'])
    pt = Lib('ptime', us=simp(d.n * DAY + tod_us(i[p + 'h'], i[p + 'mi'], i[p + 's'], i[p + 'ms'])))
    off = I.construct(I.prog.find('dcp::UTCOffset::UTCOffset', 2), I.prog.type('dcp::UTCOffset'), [i[p + 'oh'], i[p + 'om']])
    t = I.construct(I.prog.find('dcp::LocalTime::LocalTime', 2), I.prog.type('dcp::LocalTime'), [pt, off])
    I.nameobj(t, 'time' + p)
    return t


def getters(I, t):
    out = {}
    for k, n in (('y', 'year'), ('mo', 'month'), ('d', 'day'), ('h', 'hour'), ('mi', 'minute'), ('s', 'second'), ('ms', 'millisecond')):
        out[k] = I.rv(I.call_named('dcp::LocalTime::' + n, t, []))
    return out


GET = [('y', 'int'), ('mo', 'int'), ('d', 'int'), ('h', 'int'), ('mi', 'int'), ('s', 'int'), ('ms', 'int')]


def digits(v, n):
    return [48 + fmod(fdiv(v, 10 ** k), 10) for k in range(n - 1, -1, -1)]


def date_text(o):
    return digits(o['y'], 4) + [45] + digits(o['mo'], 2) + [45] + digits(o['d'], 2)


def time_text(o, sec=True, ms=False):
    return digits(o['h'], 2) + [58] + digits(o['mi'], 2) + ([58] + digits(o['s'], 2) if sec else []) + ([46] + digits(o['ms'], 3) if ms else [])


def zone_text(oh, om):
    neg = Or(oh < 0, om < 0)
    return [If(neg, 45, 43)] + digits(Abs(oh), 2) + [58] + digits(Abs(om), 2)


def text(o, oh, om, ms, tz):
    return date_text(o) + [84] + time_text(o, True, ms) + (zone_text(oh, om) if tz else [])


def chars_eq(C, s, cs):
    return And([eq(C.len(s), len(cs))] + [eq(C.at(s, k), cs[k]) for k in range(len(cs))] if s.chars() is None or len(s.chars()) == len(cs) else [False])


def sampler(p=''):
    """near-miss pairs are more interesting than independent draws"""
    fs = {f.name: f for f in fields(p)}

    def f(r):
        i = {n: x.sample(r) for n, x in fs.items()}
        i[p + 'd'] = min(i[p + 'd'], month_days(i[p + 'y'], i[p + 'mo']))
        if i[p + 'oh'] * i[p + 'om'] < 0:
            i[p + 'om'] = -i[p + 'om']
        return i
    return f


def is_string_ctor(f):
    return 'basic_string' in f['params'][0]['t'].key


def parse(I, s):
    """LocalTime(string)"""
    t = I.construct(I.prog.find('dcp::LocalTime::LocalTime', 1, is_string_ctor), I.prog.type('dcp::LocalTime'), [s])
    I.nameobj(t, 'parsed')
    return t


def digit(c):
    return And(c >= 48, c <= 57)


def value(C, s, a, n):
    v = 0
    for k in range(n):
        v = v * 10 + (C.at(s, a + k) - 48)
    return v
