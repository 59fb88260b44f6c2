"""Reading a time from text: YYYY-MM-DDTHH:MM:SS[.fraction][zone], zone = Z or +HH:MM or -HH:MM"""
from specs.timelib import *

SEP = {4: 45, 7: 45, 10: 84, 13: 58, 16: 58}
NUM = [('y', 0, 4), ('mo', 5, 2), ('d', 8, 2), ('h', 11, 2), ('mi', 14, 2), ('s', 17, 2)]
DIG = [k for n, a, c in NUM for k in range(a, a + c)]


def head(C, s):
    """the date and time part is well formed"""
    return And([eq(C.at(s, k), c) for k, c in SEP.items()] + [digit(C.at(s, k)) for k in DIG])


LIMITS = {'mo': (1, 12), 'd': (1, 31), 'h': (0, 23), 'mi': (0, 59), 's': (0, 59)}


def in_limits(C, s):
    return And([And(value(C, s, a, c) >= LIMITS[n][0], value(C, s, a, c) <= LIMITS[n][1]) for n, a, c in NUM if n in LIMITS])


def run(I, i):
    t = parse(I, i['s'])
    out = getters(I, t)
    out['text'] = I.rv(I.call_named('dcp::LocalTime::as_string', t, [True, True]))
    return out


def head_post(C, i, o):
    r = [('accepted', o['exc'] is None)]
    if o['exc'] is None:
        r += [('field-' + n, eq(o[n], value(C, i['s'], a, c))) for n, a, c in NUM]
    return r


def zone_is(C, o, oh, om):
    return lambda: And([eq(C.at(o['text'], 23 + k), c) for k, c in enumerate(zone_text(oh, om))])


def post_plain(C, i, o):
    return head_post(C, i, o) + ([('no-fraction', eq(o['ms'], 0)), ('utc', zone_is(C, o, 0, 0))] if o['exc'] is None else [])


def zone_vals(C, s, p):
    h, m = value(C, s, p + 1, 2), value(C, s, p + 4, 2)
    neg = eq(C.at(s, p), 45)
    return If(neg, -h, h), If(neg, -m, m)


def zone_ok(C, s, p):
    return And(Or(eq(C.at(s, p), 43), eq(C.at(s, p), 45)), eq(C.at(s, p + 3), 58), *[digit(C.at(s, p + k)) for k in (1, 2, 4, 5)])


def in_range(oh, om):
    return And(oh >= -11, oh <= 12, om >= -59, om <= 59)


def post_zone(p):
    def f(C, i, o):
        oh, om = zone_vals(C, i['s'], p)
        r = [('out-of-range-zone-refused', Implies(Not(in_range(oh, om)), o['exc'] is not None)),
             ('accepted', Implies(in_range(oh, om), o['exc'] is None))]
        if o['exc'] is None:
            r += head_post(C, i, o)[1:] + [('zone', zone_is(C, o, oh, om))]
            r.append(('fraction', eq(o['ms'], frac(C, i['s'], p - 20) if p > 19 else 0)))
        return r
    return f


def frac(C, s, n):
    """milliseconds of a fraction of n digits starting at character 20"""
    v = 0
    for k in range(3):
        v = v * 10 + (C.at(s, 20 + k) - 48 if k < n else 0)
    return v


def frac_pre(n):
    return lambda C, s: And([eq(C.at(s, 19), 46)] + [digit(C.at(s, 20 + k)) for k in range(n)])


EX = ['2013-01-05T18:06:59', '2011-11-20T01:06:59.456-09:30', '2013-01-05T18:06:59+04:00', '2013-01-05T18:06:59Z', '2024-02-29T23:59:60.5Z']


def fixed(n, shape):
    """a sampler for strings of the given shape: # is a digit"""
    def f(r):
        out = ''
        for c in shape:
            if c == '#':
                out += r.choice('0123456789')
            elif c == '?':
                out += r.choice('+-')
            else:
                out += c
        for n, a, c in NUM:
            if n in LIMITS:
                out = out[:a] + '%02d' % r.randint(*LIMITS[n]) + out[a + 2:]
        return {'s': S(out)}
    return f


HEAD = '####-##-##T##:##:##'
OUT = GET + [('text', 'str')]
contracts = []


def add(name, shape, extra, post):
    n = len(shape)
    contracts.append(Contract(name, SRC, [FixStrIn('s', n, alphabet='0123456789')], run, post, pre=lambda C, i: And(head(C, i['s']), in_limits(C, i['s']), extra(C, i['s'])),
                              driver='localtime', op='parse', outs=OUT, sample=fixed(n, shape)))


add('plain', HEAD, lambda C, s: True, post_plain)
add('zulu', HEAD + 'Z', lambda C, s: eq(C.at(s, 19), 90), post_plain)
add('zone', HEAD + '?##:##', lambda C, s: zone_ok(C, s, 19), post_zone(19))


# ---- fractions of any number of digits; end is where the fraction ends
class EndIn(IntIn):
    """position of the end of the fraction: known to the contract only"""

    def enc(self, v):
        return ''


def frac_any(C, i):
    """milliseconds of a fraction from character 20 to the end of it"""
    d = lambda k: If(i['end'] > 20 + k, C.at(i['s'], 20 + k) - 48, 0) if C.sym else C.at(i['s'], 20 + k) - 48 if i['end'] > 20 + k else 0
    return d(0) * 100 + d(1) * 10 + d(2)


def digits_to_end(C, i):
    return And(i['end'] > 20, i['end'] <= C.len(i['s']), eq(C.at(i['s'], 19), 46), C.every(i['s'], 20, i['end'], digit))


def guarded(f, need):
    """conditions about characters are asked only of strings that have them"""
    def g(C, i):
        if C.sym:
            C.I.P.term(i['end'])
        elif not need(C.len(i['s']), i['end']):
            return False
        return f(C, i)
    return g


def fraction(name, tail_len, tail, post, shape):
    def pre(C, i):
        return And(eq(C.len(i['s']), i['end'] + tail_len), head(C, i['s']), in_limits(C, i['s']), digits_to_end(C, i), tail(C, i['s'], i['end']))

    def sample(r):
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 9, 12, 30])
        s = fixed(0, HEAD + '.' + '#' * n + shape)(r)
        s['end'] = 20 + n
        return s
    contracts.append(Contract(name, SRC, [StrIn('s', alphabet='0123456789'), EndIn('end', 0, 1 << 40)], run, post, pre=guarded(pre, lambda n, e: n >= 21 and e > 20 and n == e + tail_len),
                              driver='localtime', op='parse', outs=OUT, sample=sample))


def post_fraction(C, i, o):
    r = [x for x in post_plain(C, i, o) if x[0] != 'no-fraction']
    return r + ([('fraction', eq(o['ms'], frac_any(C, i)))] if o['exc'] is None else [])


def post_fraction_zone(C, i, o):
    oh, om = zone_vals(C, i['s'], i['end'])
    r = [('out-of-range-zone-refused', Implies(Not(in_range(oh, om)), o['exc'] is not None)), ('accepted', Implies(in_range(oh, om), o['exc'] is None))]
    if o['exc'] is None:
        r += head_post(C, i, o)[1:] + [('zone', zone_is(C, o, oh, om)), ('fraction', eq(o['ms'], frac_any(C, i)))]
    return r


fraction('fraction', 0, lambda C, s, e: True, post_fraction, '')
fraction('fraction-zulu', 1, lambda C, s, e: eq(C.at(s, e), 90), post_fraction, 'Z')
fraction('fraction-zone', 6, lambda C, s, e: zone_ok(C, s, e), post_fraction_zone, '?##:##')


# ---- what is not a time is refused, whatever its length: one contract for each thing that may be wrong
def sgn(c):
    return Or(eq(c, 43), eq(c, 45))


def long_enough(C, s, n=19):
    return C.len(s) >= n


def malformed(name, wrong, spoil, n=19):
    """wrong: what is wrong with a string of at least n characters; spoil: makes it so"""
    def pre(C, i):
        if not C.sym and C.len(i['s']) < n:
            return False
        return And(long_enough(C, i['s'], n), wrong(C, i['s']))

    def sample(r):
        s = list(r.choice(EX if n == 19 else [e for e in EX if len(e) > n]))
        spoil(r, s)
        return {'s': S(''.join(s))}
    contracts.append(Contract(name, SRC, [StrIn('s', alphabet='0123456789-T:+.Z', examples=EX)], run, lambda C, i, o: [('refused', o['exc'] is not None)],
                              pre=pre, driver='localtime', op='parse', outs=OUT, sample=sample))


def put(ks, chars):
    def f(r, s):
        s[r.choice(ks)] = r.choice(chars)
    return f


malformed('wrong-separator', lambda C, s: Or([ne(C.at(s, k), c) for k, c in SEP.items()]), put(list(SEP), '0x :-T.Z+/'))
for name, a, c in NUM:
    malformed('wrong-' + {'y': 'year', 'mo': 'month', 'd': 'day', 'h': 'hour', 'mi': 'minute', 's': 'second'}[name],
              lambda C, s, a=a, c=c: Or([And(Not(digit(C.at(s, k))), Not(sgn(C.at(s, k)))) for k in range(a, a + c)]), put(list(range(a, a + c)), 'x :T.Z/'))
malformed('wrong-zone-mark', lambda C, s: And(ne(C.at(s, 19), 46), Not(sgn(C.at(s, 19))), ne(C.at(s, 19), 90)), lambda r, s: s.insert(19, r.choice('zT: 0')), 20)
contracts.append(Contract('too-short', SRC, [StrIn('s', alphabet='0123456789-T:+.Z', examples=EX)], run, lambda C, i, o: [('refused', o['exc'] is not None)],
                          pre=lambda C, i: C.len(i['s']) < 19, driver='localtime', op='parse', outs=OUT, sample=lambda r: {'s': S(r.choice(EX)[:r.randrange(0, 20)])}))


# what follows the seconds or the fraction; end is where it starts
def after(C, i):
    """the fraction, if there is one, consists of digits and ends at the end"""
    s, e = i['s'], i['end']
    n = C.len(s)
    return And(Or(And(eq(e, 19), ne(C.at(s, 19), 46)), And(eq(C.at(s, 19), 46), e > 20)), C.every(s, 20, e, digit))


def tail(name, wrong, spoil):
    def pre(C, i):
        return And(i['end'] >= 19, C.len(i['s']) > i['end'], after(C, i), wrong(C, i['s'], i['end'], C.len(i['s'])))

    def sample(r):
        n = r.choice([0, 1, 2, 3, 4, 9])
        s = fixed(0, HEAD + ('.' + '#' * n if n else ''))(r)['s']
        s = ''.join(chr(c) for c in s.chars())
        return {'s': S(s + spoil(r)), 'end': len(s)}
    contracts.append(Contract(name, SRC, [StrIn('s', alphabet='0123456789'), EndIn('end', 0, 1 << 40)], run, lambda C, i, o: [('refused', o['exc'] is not None)],
                              pre=guarded(pre, lambda n, e: e >= 19 and n > e), driver='localtime', op='parse', outs=OUT, sample=sample))


def mangle(r):
    z = list('%s%02d:%02d' % (r.choice('+-'), r.randint(0, 11), r.randint(0, 59)))
    k = r.random()
    if k < 0.3:
        z[3] = r.choice('0 -.x')
    elif k < 0.6:
        z[r.choice([1, 2, 4, 5])] = r.choice('x :T')
    elif k < 0.8:
        z = z[:r.randint(1, 5)]
    else:
        z += list(r.choice(['0', ':00', ' ', 'Z']))
    return ''.join(z)


def wrong_zone(C, s, e, n):
    if not C.sym:
        return C.at(s, e) in (43, 45) and (n != e + 6 or C.at(s, e + 3) != 58 or any(not 48 <= C.at(s, e + k) <= 57 and C.at(s, e + k) not in (43, 45) for k in (1, 2, 4, 5)))
    return And(sgn(C.at(s, e)), Or(ne(n, e + 6), ne(C.at(s, e + 3), 58), *[And(Not(digit(C.at(s, e + k))), Not(sgn(C.at(s, e + k)))) for k in (1, 2, 4, 5)]))


tail('wrong-zone', wrong_zone, mangle)
tail('more-after-zulu', lambda C, s, e, n: And(eq(C.at(s, e), 90), n > e + 1), lambda r: 'Z' + r.choice(['Z', ' ', '0', '+01:00', 'foo']))
tail('wrong-fraction-or-zone-mark', lambda C, s, e, n: And(Not(sgn(C.at(s, e))), ne(C.at(s, e), 90), Or(ne(e, 19), ne(C.at(s, e), 46)), Or(eq(e, 19), Not(digit(C.at(s, e))))),
     lambda r: r.choice(['x', ' ', 'z', ':', 'T', '.', 'é']) + r.choice(['', 'Z', '1', '+01:00']))


def no_digits(C, s):
    if not C.sym:
        return C.at(s, 19) == 46 and (C.len(s) == 20 or not digit(C.at(s, 20)))
    C.I.P.term(z3.IntVal(20))
    return And(eq(C.at(s, 19), 46), Or(eq(C.len(s), 20), Not(digit(C.at(s, 20)))))


def empty_fraction(r, s):
    s[19:] = '.' + r.choice(['', 'Z', '+01:00', '-01:00', 'x', ' 1'])


malformed('empty-fraction', no_digits, empty_fraction, 20)
SPEC = Spec('P03', contracts, DRV, ASSUME)
