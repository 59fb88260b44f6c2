"""Times in compositions are read from and written to text exactly"""
from vc.contract import *
from specs.numbers import *
from specs import p21
from specs.p21 import T, F, mk, get, OUT, DRV

SRC = ['dcp_time.cc', 'raw_convert.cc']

def colons(C, i):
    return [i['p%d' % k] for k in range(1, i['colons'] + 1)]


def pre(C, i):
    n, k = C.len(i['s']), i['colons']
    ps = colons(C, i)
    if not C.sym and any(p >= n for p in ps):
        return False
    c = only(C, i, 58, ps, 0, n if k < 4 else ps[-1] + 1)
    if k == 2:
        d = [i['q1'], i['q2']][:i['dots']]
        if not C.sym and any(p >= n for p in d):
            return False
        c = And(c, only(C, i, 46, d, ps[1] + 1, n if i['dots'] < 2 else d[-1] + 1))
    return c


def run(I, i):
    tcr = Opt(True, i['tcr']) if i['smpte'] else Opt()
    t = I.construct(I.prog.find(T + '::Time', 2, lambda f: 'string' in f['params'][0]['t'].key), I.prog.type(T), [i['s'].copy(I), tcr])
    return get(I, t)


def post(C, i, o):
    k, n = i['colons'], C.len(i['s'])
    ps = colons(C, i)
    form = None
    if k == 3:
        seps, rate = ps, i['tcr'] if i['smpte'] else 250
        form = True
    elif k == 2 and i['dots'] == 1 and not i['smpte']:
        seps, rate = ps + [i['q1']], 1000
        form = True
    if not form:
        return [('refused', o['exc'] is not None)]
    q = [-1] + seps + [n]
    ln = [b - a - 1 for a, b in zip(q, q[1:])]
    ok = And(*[between(1, x, m) for x, m in zip(ln, (2, 2, 2, 3))])
    r = [('refused', Implies(Not(ok), o['exc'] is not None)), ('accepted', Implies(ok, o['exc'] is None))]
    if o['exc'] is None:
        r.append(('rate', eq(o['tcr'], rate)))
        for name, a, x, m in zip('hmse', q, ln, (2, 2, 2, 3)):
            for l in range(1, m + 1):
                if not C.sym and x != l:
                    continue
                cs = [C.at(i['s'], a + 1 + j) for j in range(l)]
                v = 0
                for c in cs:
                    v = v * 10 + (c - 48)
                if name == 'e' and k == 2:
                    # after a point: a decimal fraction of a second
                    v = v * 10 ** (3 - l)
                r.append(('field-%s-of-%d' % (name, l), Implies(And(eq(x, l), *[digit(c) for c in cs]), eq(o[name], v))))
    return r


def sample(r):
    k = r.choice([0, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5])
    w = lambda m: ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 2, 2, 2, m, m, r.randint(0, 4)])))
    p = [w(2), w(2), w(2), w(3), w(2), w(2)][:k + 1]
    if k == 2 and r.random() < 0.8:
        p[2] = '.'.join(w(3) for _ in range(r.choice([1, 2, 2, 2, 3])))
    s = ':'.join(p)
    if r.random() < 0.1 and s:
        j = r.randrange(len(s))
        s = s[:j] + r.choice('x -+.:') + s[j + 1:]
    c = [j for j, x in enumerate(s) if x == ':']
    d = [j for j, x in enumerate(s) if x == '.' and (len(c) == 2 and j > c[1])]
    i = {'s': S(s), 'colons': min(4, len(c)), 'dots': min(2, len(d)), 'smpte': r.random() < 0.5, 'tcr': r.choice(p21.RATE)}
    for j in range(1, 5):
        i['p%d' % j] = c[j - 1] if len(c) >= j else 0
    for j in (1, 2):
        i['q%d' % j] = d[j - 1] if len(d) >= j else 0
    return i


def enc(i):
    return '%s %d' % (hexs(i['s']), i['tcr'] if i['smpte'] else 0)


def run_text(I, i):
    t = mk(I, i)
    std = I.prog.type('dcp::Standard').cs
    return {'smpte': I.rv(I.call_named(T + '::as_string', t, [std['SMPTE']])), 'interop': I.rv(I.call_named(T + '::as_string', t, [std['INTEROP']]))}


def is_text(C, s, i, w):
    """HH:MM:SS: and the units in at least w digits"""
    n = C.len(s)
    dig = lambda x, nd: [48 + (fdiv(x, 10 ** k) % 10) for k in range(nd - 1, -1, -1)]
    head = dig(i['h'], 2) + [58] + dig(i['m'], 2) + [58] + dig(i['s'], 2) + [58]
    if not w <= n - 9 <= 10:
        return False
    nd = n - 9
    return And(i['e'] < 10 ** nd, Or(nd == w, i['e'] >= 10 ** (nd - 1)), *[eq(C.at(s, k), c) for k, c in enumerate(head + dig(i['e'], nd))])


def post_text(C, i, o):
    return [('no-exception', o['exc'] is None), ('smpte', lambda: is_text(C, o['smpte'], i, 2)), ('interop', lambda: is_text(C, o['interop'], i, 3))]


contracts = [Contract('write', SRC, p21.ins(rate=96000), run_text, post_text, pre=p21.ok(''), driver='time', op='text', outs=[('smpte', 'str'), ('interop', 'str')])]
for k in range(5):
    for smpte in (True, False):
        for dots in ((0, 1, 2) if k == 2 else (0,)):
            contracts.append(Contract('read-%s-%d-colons%s' % ('smpte' if smpte else 'interop', k, '-%d-points' % dots if k == 2 else ''), SRC,
                                      [StrIn('s'), GhostIn('colons', [k]), GhostIn('dots', [dots]), ChoiceIn('smpte', [smpte]), IntIn('tcr', 1, 96000)] + [PosIn('p%d' % j) for j in range(1, 5)] + [PosIn('q1'), PosIn('q2')],
                                      run, post, pre=(lambda k, smpte, dots: lambda C, i: i['colons'] == k and i['dots'] == dots and i['smpte'] == smpte and pre(C, i))(k, smpte, dots),
                                      driver='time', op='parse', outs=OUT, sample=(lambda k, smpte, dots: lambda r: fit(r, k, smpte, dots))(k, smpte, dots), enc=enc, deadline=200, opts={'split_limit': 5}, summaries=dict(MESSAGES, **{'dcp::raw_convert': known_number(3)})))


def fit(r, k, smpte, dots):
    while True:
        i = sample(r)
        i['smpte'] = smpte
        if i['colons'] == k and i['dots'] == dots:
            return i


SPEC = Spec('P22', contracts, DRV)
