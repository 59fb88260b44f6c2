"""Frequency shift keying of the synchronisation signal"""
import itertools
from vc.contract import *
from specs.p09 import SRC, DRV, BitsIn

FULL = 1 << 23
WAVE = [[int(x * FULL) for x in (0.03827, 0.09239, 0.09239, 0.03827)], [int(x * FULL) for x in (0.07071, 0.07071, -0.07071, -0.07071)]]
FIELDS = ('_data', '_data_position', '_sample_position', '_last_polarity', '_last_bit')


def encode(bits, pol, last):
    """four samples a bit; the sign changes at the start of every bit that follows a 0"""
    out = []
    for b in bits:
        pol = pol ^ (not last)
        out += [v if pol else -v for v in WAVE[b]]
        last = b
    return out, pol, last


def history(pol, last, d, j, k):
    """data to send first so that the coder is in the given state at sample k of bit j of d"""
    for n in range(0, 5):
        for h in itertools.product((False, True), repeat=n):
            p, l = encode(h, False, False)[1:]
            p, l = encode(d[:j], p, l)[1:]
            if k > 0:
                p, l = p ^ (not l), d[j]
            if (p, l) == (pol, last):
                return list(h)
    return None


def coder(I):
    t = I.prog.type('dcp::FSK')
    f = I.construct(I.prog.find('dcp::FSK::FSK', 0), t, [])
    if sorted(f.fields) != sorted(FIELDS):
        raise Unsupported('state of the coder is not the one the contract is written for')
    return f


def wave(b, k):
    """sample k of a bit of either value (both may be symbolic)"""
    r = [WAVE[0][3], WAVE[1][3]]
    for q in (2, 1, 0):
        r = [If(eq(k, q), WAVE[v][q], r[v]) for v in (0, 1)]
    return If(b, r[1], r[0])


def run_get(I, i):
    if i['d'].items is not None:
        return concrete(I, i)
    f = coder(I)
    f.fields['_data'].assign(I, i['d'].copy(I))
    f.fields['_data_position'], f.fields['_sample_position'] = i['j'], i['k']
    f.fields['_last_polarity'], f.fields['_last_bit'] = i['pol'], i['last']
    s = I.rv(I.call_named('dcp::FSK::get', f, []))
    return {'sample': s, 'd': f.fields['_data'], 'j': f.fields['_data_position'], 'k': f.fields['_sample_position'], 'pol': f.fields['_last_polarity'], 'last': f.fields['_last_bit']}


def concrete(I, i):
    f = I.construct(I.prog.find('dcp::FSK::FSK', 0), I.prog.type('dcp::FSK'), [])
    out = []
    h, n = plan(i)
    for bits, m in ((h, 4 * len(h)), (i['d'].items, n)):
        if bits or bits is not h:
            I.call_named('dcp::FSK::set_data', f, [Arr(i['d'].t, list(bits))])
            out += [I.rv(I.call_named('dcp::FSK::get', f, [])) for _ in range(m)]
    return {'samples': out}


def plan(i):
    if 'h' in i:
        return i['h'].items, 4 * len(i['d'].items)
    return history(i['pol'], i['last'], i['d'].items, i['j'], i['k']), 4 * len(i['d'].items)


def inv(C, i):
    j, k, d = i['j'], i['k'], i['d']
    if not C.sym:
        return 0 <= j < len(d.items) and (i['last'] == d.items[j] if k > 0 else j == 0 or i['last'] == d.items[j - 1]) and history(i['pol'], i['last'], d.items, j, k) is not None
    return And(j >= 0, j < d.size(), k >= 0, k <= 3, Implies(k > 0, Iff(i['last'], C.at(d, j))), Implies(And(eq(k, 0), j > 0), Iff(i['last'], C.at(d, simp(j - 1)))), d.size() < 1 << 30)


def whole(i, o):
    h, n = plan(i)
    want, p, l = encode(h, False, False)
    want += encode(i['d'].items, p, l)[0]
    return [('no-exception', o['exc'] is None), ('samples', o['exc'] is None and o['samples'] == want)]


def post_get(C, i, o):
    if not C.sym:
        return whole(i, o)
    if o['exc'] is not None:
        return [('no-exception', False)]
    b = C.at(i['d'], i['j'])
    pol = z3.Xor(i['pol'], z3.And(i['k'] == 0, z3.Not(i['last'])))
    w = wave(b, i['k'])
    return [('no-exception', True), ('sample', eq(o['sample'], If(pol, w, -w))), ('fits-24-bits', And(o['sample'] >= -FULL, o['sample'] < FULL)),
            ('next-sample', eq(o['k'], If(i['k'] < 3, i['k'] + 1, 0))), ('next-bit', eq(o['j'], If(i['k'] < 3, i['j'], i['j'] + 1))),
            ('polarity-remembered', Iff(o['pol'], pol)), ('bit-remembered', Iff(o['last'], b)),
            ('data-kept', And(eq(o['d'].size(), i['d'].size()), C.forall(i['d'].size(), lambda q: Iff(C.at(o['d'], q), C.at(i['d'], q)))))]


def run_set(I, i):
    if i['d'].items is not None:
        return concrete(I, i)
    f = coder(I)
    start = dict(f.fields)
    g = coder(I)
    g.fields['_data'].assign(I, i['h'].copy(I))
    g.fields['_data_position'], g.fields['_sample_position'] = i['j'], i['k']
    g.fields['_last_polarity'], g.fields['_last_bit'] = i['pol'], i['last']
    I.call_named('dcp::FSK::set_data', g, [i['d'].copy(I)])
    return {'start': start, 'after': dict(g.fields)}


def post_set(C, i, o):
    if not C.sym:
        return whole(i, o)
    if o['exc'] is not None:
        return [('no-exception', False)]
    s, a = o['start'], o['after']
    return [('no-exception', True), ('starts-negative-after-a-zero', And(Not(s['_last_polarity']), Not(s['_last_bit']))),
            ('from-the-first-sample-of-the-first-bit', And(eq(a['_data_position'], 0), eq(a['_sample_position'], 0))),
            ('polarity-carried-over', And(Iff(a['_last_polarity'], i['pol']), Iff(a['_last_bit'], i['last']))),
            ('data', And(eq(a['_data'].size(), i['d'].size()), C.forall(i['d'].size(), lambda q: Iff(C.at(a['_data'], q), C.at(i['d'], q)))))]


def sample_get(r):
    d = BitsIn('d', minlen=1, smax=12).sample(r)
    h = [r.random() < 0.5 for _ in range(r.randint(0, 4))]
    j, k = r.randrange(len(d.items)), r.randrange(4)
    p, l = encode(h, False, False)[1:]
    p, l = encode(d.items[:j], p, l)[1:]
    if k:
        p, l = p ^ (not l), d.items[j]
    return {'d': d, 'j': j, 'k': k, 'pol': p, 'last': l}


def enc(i):
    h, n = plan(i)
    return '%s %s %d' % (BitsIn('').enc(Arr(None, h)), BitsIn('').enc(i['d']), n)


PARSE = lambda tok: {'samples': [int(x) for x in tok[1:]]}
SPEC = Spec('P10', [
    Contract('next-sample', SRC, [BitsIn('d', minlen=1, smax=12), IntIn('j', 0, 1 << 30), IntIn('k', 0, 3), BoolIn('pol'), BoolIn('last')], run_get, post_get, pre=inv,
             sample=sample_get, driver='stream', op='fsk', enc=enc, parse=PARSE),
    Contract('new-data', SRC, [BitsIn('h', smax=6), BitsIn('d', minlen=1, smax=12), IntIn('j', 0, 1 << 30), IntIn('k', 0, 3), BoolIn('pol'), BoolIn('last')], run_set, post_set,
             driver='stream', op='fsk', enc=enc, parse=PARSE),
], DRV, ['the coder is asked for at most four samples a bit (class invariant), fewer than 2^30 bits'])
