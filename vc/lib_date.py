"""Assumed contracts of boost::gregorian and boost::posix_time (proleptic Gregorian calendar, microsecond ticks)."""
import z3
from .core import *
from .sym import *
from .values import *
from .lib import model, ctor, throw, V, H

DAY = 86400 * 1000000


def leap(y):
    return Or(And(eq(fmod(y, 4), 0), ne(fmod(y, 100), 0)), eq(fmod(y, 400), 0))


MD = z3.Function('month_days', z3.IntSort(), z3.IntSort(), z3.IntSort())


def month_days(y, m):
    """days in a month: exact on numbers, uninterpreted on terms (as day_number)"""
    if is_sym(y) or is_sym(m):
        return MD(num(y), num(m))
    return month_formula(y, m)


def month_formula(y, m):
    return If(eq(m, 2), If(leap(y), 29, 28), If(Or(eq(m, 4), eq(m, 6), eq(m, 9), eq(m, 11)), 30, 31))


def valid_date(y, m, d):
    return And(y >= 1400, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_days(y, m))


CUM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


DN = z3.Function('day_number', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def day_number(y, m, d):
    """day number of a date: exact on numbers; on terms an uninterpreted function of which only the order lemma is used
    (a counterexample is sought with the exact formula)"""
    if is_sym(y) or is_sym(m) or is_sym(d):
        return DN(num(y), num(m), num(d))
    return day_formula(y, m, d)


def day_formula(y, m, d):
    c = 0
    for k in range(12, 0, -1):
        c = If(eq(m, k), CUM[k], c)
    c = c + If(And(m > 2, leap(y)), 1, 0)
    p = y - 1
    return 365 * p + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400) + c + d


FIRST = day_number(1400, 1, 1)
LAST = day_number(9999, 12, 31)


def civil(n):
    import datetime
    o = n
    d = datetime.date.fromordinal(o)
    return d.year, d.month, d.day


def ymd(I, n):
    """year, month, day of a day number (fresh names, characterised by day_number)"""
    n = simp(n)
    if not is_sym(n):
        if not (FIRST <= n <= LAST):
            throw('boost::gregorian::bad_year')
        return civil(n)
    P = I.P
    cache = I.ghost.setdefault('civil', {})
    k = n.get_id()
    if k in cache:
        return cache[k][:3]
    if not P.branch(And(n >= FIRST, n <= LAST)):
        throw('boost::gregorian::bad_year')
    y, m, d = P.fresh_int('year', 1400, 9999), P.fresh_int('month', 1, 12), P.fresh_int('day', 1, 31)
    e = month_days(y, m)
    P.assume(And(e >= 28, e <= 31, d <= e))
    P.assume(day_number(y, m, d) == n)
    known(I, y, m, d, n)
    cache[k] = (y, m, d, n)
    return y, m, d


def known(I, y, m, d, n):
    """order lemma: day_number is strictly monotone on valid dates (checked exhaustively, see lemma_check)"""
    ds = I.ghost.setdefault('dates', [(y0, m0, d0, day_formula(y0, m0, d0)) for y0, m0, d0 in ((1401, 1, 1), (1970, 1, 1), (9998, 12, 31))])
    if is_sym(n):
        I.P.refine.append(day_formula(y, m, d) == n)
        I.P.refine.append(month_formula(num(y), num(m)) == month_days(num(y), num(m)))
    for (y2, m2, d2, n2) in ds:
        lt = lex_lt((y, m, d), (y2, m2, d2))
        gt = lex_lt((y2, m2, d2), (y, m, d))
        for f in (Iff(lt, n < n2), Iff(gt, n2 < n)):
            if is_sym(f):
                I.P.assume(f)
    ds.append((y, m, d, n))


def mk_date(I, y, m, d):
    P = I.P
    e = month_days(y, m)
    if is_sym(e):
        P.assume(And(e >= 28, e <= 31))
        P.refine.append(e == month_formula(y, m))
    if not P.branch(And(d >= 1, d <= e)):
        throw('boost::gregorian::bad_day_of_month')
    n = simp(day_number(y, m, d))
    if is_sym(n):
        c = I.ghost.setdefault('civil', {})
        if n.get_id() not in c:
            P.assume(And(n >= FIRST, n <= LAST))
            known(I, y, m, d, n)
            c[n.get_id()] = (y, m, d, n)
    return Lib('date', n=n)


@ctor('boost::gregorian::greg_year')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, Lib):
        return v.copy(I)
    if not I.P.branch(And(v >= 1400, v <= 9999)):
        throw('boost::gregorian::bad_year')
    return Lib('greg', v=v)


@ctor('boost::gregorian::greg_month')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, Lib):
        return v.copy(I)
    if not I.P.branch(And(v >= 1, v <= 12)):
        throw('boost::gregorian::bad_month')
    return Lib('greg', v=v)


@ctor('boost::gregorian::greg_day')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, Lib):
        return v.copy(I)
    if not I.P.branch(And(v >= 1, v <= 31)):
        throw('boost::gregorian::bad_day_of_month')
    return Lib('greg', v=v)


@model('greg::operator unsigned short', 'greg::as_number', 'boost::date_time::int_adapter::as_number')
def _(I, f, o, a):
    return o.v


@ctor('boost::date_time::int_adapter')
def _(I, f, t, a):
    v = V(a[0])
    return Lib('greg', v=v.v if isinstance(v, Lib) else v)


@ctor('boost::gregorian::date')
def _(I, f, t, a):
    if not a:
        return Lib('date', n=None)
    if len(a) == 1:
        return V(a[0]).copy(I)
    return mk_date(I, V(a[0]).v, V(a[1]).v, V(a[2]).v)


@ctor('boost::gregorian::date_duration', 'boost::date_time::months_duration', 'boost::date_time::years_duration', 'boost::date_time::weeks_duration')
def _(I, f, t, a):
    v = V(a[0])
    return Lib('days' if 'date_duration' in t.n else 'months' if 'months' in t.n else 'years', v=v.v if isinstance(v, Lib) else v)


@model('days::days', 'months::number_of_months')
def _(I, f, o, a):
    return o.v


def add_months(I, date, k):
    y, m, d = ymd(I, date.n)
    P = I.P
    last = eq(d, month_days(y, m))
    q = y * 12 + (m - 1) + k
    y2, m2 = fdiv(q, 12), fmod(q, 12) + 1
    if is_sym(q):
        yy, mm = P.fresh_int('year'), P.fresh_int('month', 1, 12)
        P.assume(And(yy * 12 + mm - 1 == q))
        y2, m2 = yy, mm
    if not P.branch(And(y2 >= 1400, y2 <= 9999)):
        throw('boost::gregorian::bad_year')
    if is_sym(y2):
        P.ranges[y2.decl().name()] = (1400, 9999)
    e = month_days(y2, m2)
    if is_sym(e):
        P.assume(And(e >= 28, e <= 31))
        P.refine.append(e == month_formula(y2, m2))
    if P.branch(last):
        d2 = e
    else:
        d2 = If(d > e, e, d)
    if is_sym(d2):
        v = P.fresh_int('day', 1, 31)
        P.assume(v == d2)
        d2 = v
    return mk_date(I, y2, m2, d2).n


def date_shift(I, o, x, sgn):
    if x.cls == 'days':
        return simp(o.n + sgn * x.v)
    if x.cls == 'months':
        return add_months(I, o, sgn * x.v)
    if x.cls == 'years':
        return add_months(I, o, sgn * x.v * 12)
    raise Unsupported('date arithmetic')


@model('boost::date_time::operator+=', 'date::operator+=')
def _(I, f, o, a):
    o, x = (V(a[0]), V(a[1])) if o is None else (o, V(a[0]))
    I.wrote(o, None)
    o.n = date_shift(I, o, x, 1)
    return o.copy(I)


@model('boost::date_time::operator-=', 'date::operator-=')
def _(I, f, o, a):
    o, x = (V(a[0]), V(a[1])) if o is None else (o, V(a[0]))
    I.wrote(o, None)
    o.n = date_shift(I, o, x, -1)
    return o.copy(I)


@model('boost::date_time::operator+', 'date::operator+')
def _(I, f, o, a):
    o, x = (V(a[0]), V(a[1])) if o is None else (o, V(a[0]))
    return Lib('date', n=date_shift(I, o, x, 1))


@model('boost::date_time::operator-', 'date::operator-')
def _(I, f, o, a):
    o, x = (V(a[0]), V(a[1])) if o is None else (o, V(a[0]))
    if x.cls == 'date':
        return Lib('days', v=simp(o.n - x.n))
    return Lib('date', n=date_shift(I, o, x, -1))


@model('date::year')
def _(I, f, o, a):
    return Lib('greg', v=ymd(I, o.n)[0])


@model('date::month')
def _(I, f, o, a):
    return Lib('greg', v=ymd(I, o.n)[1])


@model('date::day')
def _(I, f, o, a):
    return Lib('greg', v=ymd(I, o.n)[2])


@model('date::operator=', 'ptime::operator=', 'duration::operator=')
def _(I, f, o, a):
    o.assign(I, V(a[0]))
    return ObjLV(o)


# ---- times

@ctor('boost::posix_time::time_duration')
def _(I, f, t, a):
    if not a:
        return Lib('duration', us=0)
    if len(a) == 1:
        return V(a[0]).copy(I)
    h, m, s = V(a[0]), V(a[1]), V(a[2])
    fr = V(a[3]) if len(a) > 3 else 0
    P = I.P
    if P.branch(Or(h < 0, m < 0, s < 0, fr < 0)):
        tot = ((Abs(h) * 3600 + Abs(m) * 60 + Abs(s)) * 1000000) + Abs(fr)
        return Lib('duration', us=simp(-tot))
    return Lib('duration', us=simp((h * 3600 + m * 60 + s) * 1000000 + fr))


@ctor('boost::posix_time::hours')
def _(I, f, t, a):
    return Lib('duration', us=simp(V(a[0]) * 3600000000))


@ctor('boost::posix_time::minutes')
def _(I, f, t, a):
    return Lib('duration', us=simp(V(a[0]) * 60000000))


@ctor('boost::posix_time::seconds')
def _(I, f, t, a):
    return Lib('duration', us=simp(V(a[0]) * 1000000))


@ctor('boost::date_time::subsecond_duration')
def _(I, f, t, a):
    k = 1000 if '1000,' in t.key.replace(' ', '') or t.key.endswith('1000>') else 1
    return Lib('duration', us=simp(V(a[0]) * k))


@model('boost::posix_time::hours', 'boost::posix_time::minutes', 'boost::posix_time::seconds', 'boost::posix_time::milliseconds')
def _(I, f, o, a):
    k = {'hours': 3600000000, 'minutes': 60000000, 'seconds': 1000000, 'milliseconds': 1000}[f['sn'].rsplit('::', 1)[1]]
    return Lib('duration', us=simp(V(a[0]) * k))


def tdiv(a, b):
    """division truncating towards zero, b > 0"""
    return If(a >= 0, fdiv(a, b), -fdiv(-a, b))


def radix(I, e, units):
    """mixed-radix digits of a linear term whose parts are already digits: each remainder lies in [0, unit) by its known bounds"""
    ts = [(e, 1)]
    lin = []
    while ts:
        x, k = ts.pop()
        if not is_sym(x):
            lin.append((x, k))
        elif z3.is_int_value(x):
            lin.append((x.as_long(), k))
        elif z3.is_add(x):
            ts += [(c, k) for c in x.children()]
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            ts.append((x.arg(1), k * x.arg(0).as_long()))
        else:
            lin.append((x, k))
    out = []
    for j, u in enumerate(units):
        q = 0
        rest = []
        for x, k in lin:
            if not is_sym(x):
                q = q + x * k // u
                if x * k % u:
                    rest.append((x * k % u, 1))
            elif k % u == 0:
                q = q + x * (k // u)
            else:
                rest.append((x, k))
        lo = hi = 0
        for x, k in rest:
            a, b = I.P.bounds(x)
            if a is None or b is None:
                return None
            lo, hi = lo + min(a * k, b * k), hi + max(a * k, b * k)
        if lo < 0 or hi >= u:
            return None
        if j == 0:
            a, b = I.P.bounds(simp(q))
            if len(units) > 2 and (a is None or a < 0):
                return None
        out.append(simp(q))
        lin = rest
    return tuple(out)


def hms(I, us):
    """hours, minutes, seconds and microseconds of a duration, all with its sign"""
    us = simp(us)
    if not is_sym(us):
        sg, a = (1, us) if us >= 0 else (-1, -us)
        return sg * (a // 3600000000), sg * (a // 60000000 % 60), sg * (a // 1000000 % 60), sg * (a % 1000000)
    d = radix(I, us, (3600000000, 60000000, 1000000, 1))
    if d is not None:
        return d
    c = I.ghost.setdefault('hms', {})
    k = us.get_id()
    if k not in c:
        P = I.P
        neg = P.branch(us < 0)
        m = -us if neg else us
        lo, hi = P.bounds(m)
        h = P.fresh_int('hours', 0, None if hi is None else hi // 3600000000)
        mi, s, f = P.fresh_int('minutes', 0, 59), P.fresh_int('seconds', 0, 59), P.fresh_int('micros', 0, 999999)
        P.assume(m == h * 3600000000 + mi * 60000000 + s * 1000000 + f)
        c[k] = ((-h, -mi, -s, -f) if neg else (h, mi, s, f), us)
    return c[k][0]


@model('duration::hours')
def _(I, f, o, a):
    return hms(I, o.us)[0]


@model('duration::minutes')
def _(I, f, o, a):
    return hms(I, o.us)[1]


@model('duration::seconds')
def _(I, f, o, a):
    return hms(I, o.us)[2]


@model('duration::total_seconds')
def _(I, f, o, a):
    return simp(tdiv(o.us, 1000000))


@model('duration::total_milliseconds')
def _(I, f, o, a):
    return simp(tdiv(o.us, 1000))


@model('duration::fractional_seconds')
def _(I, f, o, a):
    return hms(I, o.us)[3]


@model('duration::is_negative')
def _(I, f, o, a):
    return o.us < 0


@model('duration::invert_sign', 'duration::operator-')
def _(I, f, o, a):
    if a:
        return Lib('duration', us=simp(o.us - V(a[0]).us))
    return Lib('duration', us=simp(-o.us))


@model('duration::operator+')
def _(I, f, o, a):
    return Lib('duration', us=simp(o.us + V(a[0]).us))


@model('duration::operator*')
def _(I, f, o, a):
    return Lib('duration', us=simp(o.us * V(a[0])))


@ctor('boost::posix_time::ptime')
def _(I, f, t, a):
    if len(a) == 1:
        return V(a[0]).copy(I)
    if not a:
        return Lib('ptime', us=None)
    d, td = V(a[0]), V(a[1])
    r = Lib('ptime', us=simp(d.n * DAY + td.us))
    return r


@model('ptime::date')
def _(I, f, o, a):
    return Lib('date', n=split_us(I, o.us)[0])


def split_us(I, us):
    us = simp(us)
    if not is_sym(us):
        return us // DAY, us % DAY
    d = radix(I, us, (DAY, 1))
    if d is not None:
        return d
    c = I.ghost.setdefault('split', {})
    k = us.get_id()
    if k not in c:
        n = I.P.fresh_int('dayno')
        t = I.P.fresh_int('tod', 0, DAY - 1)
        I.P.assume(n * DAY + t == us)
        c[k] = (n, t, us)
    return c[k][:2]


@model('ptime::time_of_day')
def _(I, f, o, a):
    us = split_us(I, o.us)[1]
    return Lib('duration', us=us)


@model('ptime::operator+=')
def _(I, f, o, a):
    x = V(a[0])
    I.wrote(o, None)
    o.us = simp(o.us + (x.us if x.cls == 'duration' else x.v * DAY))
    return o.copy(I)


@model('ptime::operator-=')
def _(I, f, o, a):
    x = V(a[0])
    I.wrote(o, None)
    o.us = simp(o.us - (x.us if x.cls == 'duration' else x.v * DAY))
    return o.copy(I)


@model('ptime::operator+')
def _(I, f, o, a):
    x = V(a[0])
    return Lib('ptime', us=simp(o.us + (x.us if x.cls == 'duration' else x.v * DAY)))


@model('ptime::operator-')
def _(I, f, o, a):
    x = V(a[0])
    if x.cls == 'ptime':
        return Lib('duration', us=simp(o.us - x.us))
    return Lib('ptime', us=simp(o.us - (x.us if x.cls == 'duration' else x.v * DAY)))


@model('ptime::operator<', 'duration::operator<')
def _(I, f, o, a):
    return o.us < V(a[0]).us


@model('ptime::operator==', 'duration::operator==')
def _(I, f, o, a):
    return eq(o.us, V(a[0]).us)


@model('boost::operators_detail::operator>', 'boost::operators_impl::operator>')
def _(I, f, o, a):
    return V(a[0]).us > V(a[1]).us


@model('boost::operators_detail::operator<=', 'boost::operators_impl::operator<=')
def _(I, f, o, a):
    return V(a[0]).us <= V(a[1]).us


@model('boost::operators_detail::operator>=', 'boost::operators_impl::operator>=')
def _(I, f, o, a):
    return V(a[0]).us >= V(a[1]).us


@model('boost::operators_detail::operator!=', 'boost::operators_impl::operator!=')
def _(I, f, o, a):
    return ne(V(a[0]).us, V(a[1]).us)


# ---- the clock and the zone of the machine: any values
@model('boost::date_time::second_clock::universal_time')
def _(I, f, o, a):
    return Lib('ptime', us=I.P.fresh_int('now', (FIRST + 366) * DAY, (LAST - 366) * DAY))


@model('boost::date_time::c_local_adjustor::utc_to_local')
def _(I, f, o, a):
    z = I.opts.get('zone_minutes')
    if z is None:
        z = I.P.fresh_int('zone_minutes', -11 * 60, 12 * 60)
    return Lib('ptime', us=simp(V(a[0]).us + z * 60000000))


@model('time')
def _(I, f, o, a):
    return I.P.fresh_int('time', 0, 1 << 40)


@model('localtime')
def _(I, f, o, a):
    s = StructObj(None)
    P = I.P
    for n, lo, hi in (('tm_sec', 0, 60), ('tm_min', 0, 59), ('tm_hour', 0, 23), ('tm_mday', 1, 31), ('tm_mon', 0, 11), ('tm_year', 0, 8000), ('tm_gmtoff', -43200, 50400)):
        s.fields[n] = P.fresh_int(n, lo, hi)
    return Ptr(ObjLV(s))


def lemma_check():
    """the order lemma and the day-number formula, for every date the library can represent"""
    import datetime
    n = 0
    o = datetime.date(1400, 1, 1).toordinal()
    for y in range(1400, 10000):
        lp = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
        assert lp == leap(y)
        for m in range(1, 13):
            k = month_days(y, m)
            assert day_number(y, m, 1) == o, (y, m)
            assert datetime.date.fromordinal(o) == datetime.date(y, m, 1)
            o += k
            n += k
    return n


for _k in ('greg_year', 'greg_month', 'greg_day'):
    pass
