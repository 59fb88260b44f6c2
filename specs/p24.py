"""Small types used throughout: sizes, fractions, colours, markers and their texts"""
from specs.numbers import *

SRC = ['types.cc', 'locale_convert.cc', 'raw_convert.cc']
DRV = {'types': Driver('types', SRC + ['exceptions.cc'], ['-lfmt', '-lboost_filesystem', '-lxml++-2.6', '-lglibmm-2.4', '-lglib-2.0'])}

# kind: (type, to text, from text, [(enumerator, text written, other texts read)])
WORDS = {
    'effect': ('dcp::Effect', 'effect_to_string', 'string_to_effect', [('NONE', 'none'), ('BORDER', 'border'), ('SHADOW', 'shadow')]),
    'direction': ('dcp::Direction', 'direction_to_string', 'string_to_direction',
                  [('LTR', 'ltr', 'horizontal'), ('RTL', 'rtl'), ('TTB', 'ttb', 'vertical'), ('BTT', 'btt')]),
    'marker': ('dcp::Marker', 'marker_to_string', 'marker_from_string', [(a + b, a + b) for b in ('OC', 'TC', 'OI', 'EC', 'MC', 'OB') for a in ('FF', 'LF')]),
    'status': ('dcp::Status', 'status_to_string', 'string_to_status', [('FINAL', 'final'), ('TEMP', 'temp'), ('PRE', 'pre')]),
    'formulation': ('dcp::Formulation', 'formulation_to_string', 'string_to_formulation',
                    [(x.upper().replace('-', '_'), x) for x in ('modified-transitional-1', 'multiple-modified-transitional-1', 'dci-any', 'dci-specific')]),
    'luminance-unit': ('dcp::Luminance::Unit', 'Luminance::unit_to_string', 'Luminance::string_to_unit',
                       [('CANDELA_PER_SQUARE_METRE', 'candela-per-square-metre'), ('FOOT_LAMBERT', 'foot-lambert')]),
}


def write_word(kind):
    t, to, _, ws = WORDS[kind]
    return Contract('write-' + kind, SRC, [ChoiceIn('v', range(len(ws)))], lambda I, i: {'s': I.rv(I.call_named('dcp::' + to, None, [I.prog.type(t).cs[ws[i['v']][0]]]))},
                    lambda C, i, o: [('no-exception', o['exc'] is None), ('word', lambda: C.streq(o['s'], ws[i['v']][1]))], driver='types', op='w_' + kind, outs=[('s', 'str')])


def read_word(kind):
    t, _, frm, ws = WORDS[kind]

    def run(I, i):
        v = I.rv(I.call_named('dcp::' + frm, None, [i['s']]))
        r = -1
        for k, w in enumerate(ws):
            r = If(eq(v, I.prog.type(t).cs[w[0]]), k, r)
        return {'v': r}

    def post(C, i, o):
        words = [(k, x) for k, w in enumerate(ws) for x in w[1:]]
        return [('exactly-' + x, lambda k=k, x=x: Implies(C.streq(i['s'], x), o['exc'] is None and eq(o['v'], k))) for k, x in words] + \
               [('others-refused', Implies(Not(Or([C.streq(i['s'], x) for _, x in words])), o['exc'] is not None))]
    ex = [x for w in ws for x in w[1:]]
    return Contract('read-' + kind, SRC, [StrIn('s', alphabet=''.join(sorted(set(''.join(ex)))), examples=ex + [x.upper() for x in ex] + [x[:-1] for x in ex] + [x + 'x' for x in ex])], run, post,
                    driver='types', op='r_' + kind, outs=[('v', 'int')], summaries=MESSAGES)


INT = (-(1 << 31), (1 << 31) - 1)


def ints(*ns):
    return [IntIn(n, INT[0], INT[1], [0, 1, 2, 24, 25, 30, 48, 1000, 1001, 1080, 2048, 24000, 100000, -1]) for n in ns]


def make(I, t, args):
    return I.construct(I.prog.find('dcp::%s::%s' % (t, t), len(args)), I.prog.type('dcp::' + t), args)


def op(I, name, t, x, y):
    return I.rv(I.call(I.prog.find('dcp::operator' + name, 2, lambda f: f['params'][0]['t'].key.find('dcp::' + t) >= 0), None, [ObjLV(x), ObjLV(y)]))


def run_same(t, names):
    def run(I, i):
        x, y = make(I, t, [i['a' + n] for n in names]), make(I, t, [i['b' + n] for n in names])
        return {'eq': op(I, '==', t, x, y), 'ne': op(I, '!=', t, x, y)}
    return run


def post_same(names):
    def post(C, i, o):
        same = And([eq(i['a' + n], i['b' + n]) for n in names])
        return [('no-exception', o['exc'] is None), ('equal', lambda: Iff(o['eq'], same)), ('not-equal', lambda: Iff(o['ne'], Not(same)))]
    return post


def near(names):
    def sample(r):
        a = {('a' + n): r.choice([0, 1, 2, 255, 1080, r.randint(*INT)]) for n in names}
        for n in names:
            a['b' + n] = a['a' + n] if r.random() < 0.8 else r.choice([0, 1, 2, 255, 1080])
        if r.random() < 0.2 and len(names) == 2:
            x, y = names
            a['b' + x], a['b' + y] = a['a' + y], a['a' + x]
        return a
    return sample


def same(name, t, names):
    return Contract(name, SRC, ints(*['a' + n for n in names] + ['b' + n for n in names]), run_same(t, names), post_same(names), driver='types', op='eq_' + t, outs=[('eq', 'bool'), ('ne', 'bool')], sample=near(names))


def run_less(I, i):
    return {'lt': op(I, '<', 'Fraction', make(I, 'Fraction', [i['an'], i['ad']]), make(I, 'Fraction', [i['bn'], i['bd']]))}


def post_less(C, i, o):
    good = And(i['ad'] > 0, i['bd'] > 0)
    return [('refused-unless-denominators-positive', Iff(good, o['exc'] is None)),
            ('order-of-the-values', lambda: Implies(good, o['exc'] is None and Iff(o['lt'], i['an'] * i['bd'] < i['bn'] * i['ad'])))]


def run_fraction(I, i):
    I.text = i['s']
    f = I.construct(I.prog.find('dcp::Fraction::Fraction', 1, lambda f: 'string' in f['params'][0]['t'].key), I.prog.type('dcp::Fraction'), [i['s'].copy(I)])
    return {'n': I.rv(f.fields['numerator']), 'd': I.rv(f.fields['denominator'])}


def post_fraction(C, i, o):
    return [('accepted', o['exc'] is None), ('numerator', lambda: eq(o['n'], number_at(C, i['s'], 0, i['p']))), ('denominator', lambda: eq(o['d'], number_at(C, i['s'], i['p'] + 1, C.len(i['s']))))]


def sample_fraction(r):
    a, b = [r.choice(['24', '1', '25', '24000', '1001', '0', '-1', '+1', '', 'x', '1x', '1.5', '2147483647', '2147483648', str(r.randint(0, 99999))]) for _ in '12']
    return {'s': S(a + ' ' + b), 'p': len(a)}


def sample_unfraction(k):
    def f(r):
        bits = [r.choice(['24', '1', '', '25', 'x', ':']) for _ in range(k + 1)]
        d = {'s': S(' '.join(bits))}
        at = 0
        for j in range(k):
            at += len(bits[j]) + (1 if j else 0)
            d['p%d' % j] = at
        return d
    return f


def unfraction(k):
    def pre(C, i):
        n = C.len(i['s'])
        return only(C, i, 32, [i['p%d' % j] for j in range(k)], 0, n)
    return Contract('fraction-with-%d-spaces' % k, SRC, [StrIn('s', alphabet='12 ')] + [PosIn('p%d' % j) for j in range(k)], run_fraction, lambda C, i, o: [('refused', o['exc'] is not None)], pre=pre,
                    driver='types', op='r_fraction', outs=[('n', 'int'), ('d', 'int')], summaries=dict(MESSAGES, **{'dcp::raw_convert': some_number}), sample=sample_unfraction(k))


def run_fraction_text(I, i):
    return {'s': I.rv(I.call_named('dcp::Fraction::as_string', make(I, 'Fraction', [i['n'], i['d']]), []))}


def decimal(cs):
    """(value, the characters are a decimal number as written by the library)"""
    neg = bool(cs) and not is_sym(cs[0]) and cs[0] == 45
    ds = cs[1:] if neg else cs
    x = 0
    for c in ds:
        x = x * 10 + (c - 48)
    return -x if neg else x, And(len(ds) > 0, *[digit(c) for c in ds] + ([ne(ds[0], 48)] if len(ds) > 1 or neg else []))


def post_fraction_text(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    cs = [C.at(o['s'], k) for k in range(C.len(o['s']))]
    at = [k for k, c in enumerate(cs) if not is_sym(c) and c == 32]
    if len(at) != 1:
        return [('one-space', False)]
    n, ok1 = decimal(cs[:at[0]])
    d, ok2 = decimal(cs[at[0] + 1:])
    return [('numerator', And(ok1, eq(n, i['n']))), ('denominator', And(ok2, eq(d, i['d'])))]


RGB = ('r', 'g', 'b')


def run_colour_text(I, i):
    c = make(I, 'Colour', [i[n] for n in RGB])
    return {'rgb': I.rv(I.call_named('dcp::Colour::to_rgb_string', c, [])), 'argb': I.rv(I.call_named('dcp::Colour::to_argb_string', c, []))}


def hexchar(v):
    return If(v < 10, v + 48, v + 55)


def hexval(c):
    return If(c <= 57, c - 48, If(c <= 70, c - 55, c - 87))


def post_colour_text(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    want = []
    for n in RGB:
        want += [hexchar(i[n] / 16 if is_sym(i[n]) else i[n] // 16), hexchar(i[n] % 16)]
    r = []
    for k, pre in (('rgb', []), ('argb', [70, 70])):
        n = C.len(o[k])
        r += [(k + '-length', eq(n, 6 + len(pre))), (k + '-digits', lambda k=k, pre=pre: And([eq(C.at(o[k], j), c) for j, c in enumerate(pre + want)]))]
    return r


def run_colour(I, i):
    c = I.construct(I.prog.find('dcp::Colour::Colour', 1, lambda f: 'string' in f['params'][0]['t'].key), I.prog.type('dcp::Colour'), [i['s'].copy(I)])
    return {n: I.rv(c.fields[n]) for n in RGB}


def is_hex(c):
    return Or(digit(c), And(c >= 65, c <= 70), And(c >= 97, c <= 102))


def pre_colour(C, i):
    return And([is_hex(C.at(i['s'], k)) for k in range(C.len(i['s']))])


def post_colour(C, i, o):
    s = i['s']
    return [('accepted', o['exc'] is None)] + [(n, lambda n=n, k=k: eq(o[n], hexval(C.at(s, 2 + 2 * k)) * 16 + hexval(C.at(s, 3 + 2 * k)))) for k, n in enumerate(RGB)]


def hexes(n):
    return lambda r: {'s': S(''.join(r.choice('0123456789abcdefABCDEF') for _ in range(n if isinstance(n, int) else r.randint(*n))))}


def unit(I, k):
    return I.prog.type('dcp::Luminance::Unit').cs[WORDS['luminance-unit'][3][k][0]]


def run_luminance(I, i):
    x = I.construct(I.prog.find('dcp::Luminance::Luminance', 2), I.prog.type('dcp::Luminance'), [i['v'], unit(I, i['u'])])
    u = I.rv(I.call_named('dcp::Luminance::unit', x, []))
    return {'v': I.rv(I.call_named('dcp::Luminance::value', x, [])), 'u': If(eq(u, unit(I, 1)), 1, If(eq(u, unit(I, 0)), 0, -1)), 'fl': I.rv(I.call_named('dcp::Luminance::value_in_foot_lamberts', x, []))}


def approx(x, y):
    """x is y but for rounding; y is not negative"""
    d = x - y
    e = y * 1e-5 if not is_sym(y) else y / 100000
    return And(d <= e, d >= -e)


def post_luminance(C, i, o):
    v = i['v']
    if o['exc'] is not None:
        return [('only-negative-refused', v < 0)]
    return [('negative-refused', v >= 0), ('value', approx(o['v'], v)), ('unit', eq(o['u'], i['u'])), ('foot-lamberts', approx(o['fl'] * (1 if i['u'] else 3.426), v))]


def run_luminance_eq(I, i):
    x, y = [I.construct(I.prog.find('dcp::Luminance::Luminance', 2), I.prog.type('dcp::Luminance'), [i[k + 'v'], unit(I, i[k + 'u'])]) for k in 'ab']
    return {'eq': op(I, '==', 'Luminance', x, y)}


def post_luminance_eq(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    d = i['av'] - i['bv']
    u = i['au'] == i['bu']
    # to a thousandth, give or take the rounding of the values themselves
    return [('equal', Implies(And(u, d < 0.0009, d > -0.0009), o['eq'])), ('different', Implies(Or(not u, d > 0.0011, d < -0.0011), Not(o['eq'])))]


def sample_lum(r):
    a = r.choice([48.0, 14.0, r.uniform(0, 500)])
    return {'av': a, 'bv': r.choice([a, a, a + 0.002, abs(a - 0.002), r.uniform(0, 500)]), 'au': r.choice([0, 1]), 'bu': r.choice([0, 1])}


FR = dict(driver='types', op='r_fraction', outs=[('n', 'int'), ('d', 'int')], summaries=dict(MESSAGES, **{'dcp::raw_convert': some_number}))
SPEC = Spec('P24', [f(k) for k in WORDS for f in (write_word, read_word)] + [
    same('size-equality', 'Size', ('w', 'h')), same('fraction-equality', 'Fraction', ('n', 'd')), same('colour-equality', 'Colour', RGB),
    Contract('fraction-order', SRC, ints('an', 'ad', 'bn', 'bd'), run_less, post_less, driver='types', op='lt_fraction', outs=[('lt', 'bool')]),
    Contract('fraction-read', SRC, [StrIn('s', alphabet='12 x'), PosIn('p')], run_fraction, post_fraction, pre=lambda C, i: only(C, i, 32, [i['p']], 0, C.len(i['s'])), sample=sample_fraction, **FR),
    unfraction(0), unfraction(2), unfraction(3),
    Contract('fraction-write', SRC, ints('n', 'd'), run_fraction_text, post_fraction_text, driver='types', op='w_fraction', outs=[('s', 'str')]),
    Contract('colour-write', SRC, [IntIn(n, 0, 255, [0, 9, 10, 15, 16, 255]) for n in RGB], run_colour_text, post_colour_text, driver='types', op='w_colour', outs=[('rgb', 'str'), ('argb', 'str')]),
    Contract('colour-read', SRC, [FixStrIn('s', 8)], run_colour, post_colour, pre=pre_colour, driver='types', op='r_colour', outs=[(n, 'int') for n in RGB], sample=hexes(8)),
    Contract('colour-too-short', SRC, [VarStrIn('s', 0, 6)], run_colour, lambda C, i, o: [('refused', o['exc'] is not None)], pre=pre_colour, driver='types', op='r_colour', outs=[(n, 'int') for n in RGB],
             sample=hexes((0, 6))),
    Contract('luminance', SRC, [RealIn('v', -1000, 1e6, [0, 48, 14, -1, 1e-3]), ChoiceIn('u', [0, 1])], run_luminance, post_luminance, driver='types', op='luminance', outs=[('v', 'flt'), ('u', 'int'), ('fl', 'flt')],
             summaries=MESSAGES, tol=1e-5),
    Contract('luminance-equality', SRC, [RealIn('av', 0, 500), ChoiceIn('au', [0, 1]), RealIn('bv', 0, 500), ChoiceIn('bu', [0, 1])], run_luminance_eq, post_luminance_eq, driver='types', op='eq_luminance',
             outs=[('eq', 'bool')], summaries=MESSAGES, sample=sample_lum),
], DRV, ['exception objects are opaque'])
