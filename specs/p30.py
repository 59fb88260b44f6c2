"""Channels of a sound configuration and their identifiers"""
from vc.contract import *
from vc.lib import V
from vc.values import *
from vc import ast as vast

SRC = ['main_sound_configuration.cc']
DRV = {'mca': Driver('mca', SRC + ['exceptions.cc', 'locale_convert.cc'], ['-lfmt', '-lboost_filesystem'], partial=True)}
IDS = {'l': 0, 'r': 1, 'c': 2, 'lfe': 3, 'ls': 4, 'lss': 4, 'lslss': 4, 'rs': 5, 'rss': 5, 'rsrss': 5, 'hi': 6, 'vin': 7, 'vi-n': 7, 'lc': 8, 'rc': 9, 'lrs': 10, 'lsr': 10, 'rrs': 11, 'rsr': 11,
       'dbox': 12, 'dbox2': 12, 'mtn': 12, 'sync': 13, 'fsksync': 13, 'slvs': 14}
WRITTEN = {0: ('L', 'Left'), 1: ('R', 'Right'), 2: ('C', 'Center'), 3: ('LFE', 'LFE'), 4: ('Lss', 'Left Side Surround'), 5: ('Rss', 'Right Side Surround'), 6: ('HI', 'Hearing Impaired'),
           7: ('VIN', 'Visually Impaired-Narrative'), 10: ('Lrs', 'Left Rear Surround'), 11: ('Rrs', 'Right Rear Surround'), 12: ('DBOX', 'D-BOX Motion Code Primary Stream'), 13: ('FSKSync', 'FSK Sync'),
           14: ('SLVS', 'Sign Language Video Stream')}
FIVE = {4: ('Ls', 'Left Surround'), 5: ('Rs', 'Right Surround')}
CHANNELS = sorted(WRITTEN)
CLS = 'dcp::MainSoundConfiguration'
KNOWN = z3.Function('known_id', *[z3.IntSort()] * 3, z3.BoolSort())
CHANNEL = z3.Function('channel_of_id', *[z3.IntSort()] * 4)


def of(c, f):
    return FIVE[c] if f == 0 and c in FIVE else WRITTEN[c]


def value(o):
    """of an optional channel: -1 for none"""
    return If(o.has, o.val, -1) if is_sym(o.has) else o.val if o.has else -1


# ------------------------------------------------------------------ identifiers

def run_id(I, i):
    r = V(I.call_named('dcp::mca_id_to_channel', None, [i['s'].copy(I)]))
    return {'channel': I.rv(value(r))}


def post_id(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    cs = i['s'].chars()
    low = lambda c: If(And(c >= 65, c <= 90), c + 32, c)
    same = lambda w: And([eq(low(c), ord(x)) for c, x in zip(cs, w)])
    want = -1
    for w, n in IDS.items():
        if len(w) == len(cs):
            want = If(same(w), n, want)
    return [('channel-of-the-identifier', eq(o['channel'], want))]


def ids(n):
    return Contract('identifier-of-%d' % n, SRC, [FixStrIn('s', n, alphabet='lrcsfehivn-dbox2mtyk', examples=[x for w in IDS if len(w) == n for x in (w, w.upper(), w.capitalize())])], run_id, post_id, driver='mca', op='id', outs=['channel'],
                    parse=lambda t: {'channel': int(t[0])}, nsamples=200)


def post_any(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    if not C.sym:
        return post_id(C, i, o)
    n, at = C.len(i['s']), lambda k: C.at(i['s'], k)
    low = lambda c: If(And(c >= 65, c <= 90), c + 32, c)
    want = num(-1)
    for w, c in IDS.items():
        want = If(And(eq(n, len(w)), And([eq(low(at(k)), ord(x)) for k, x in enumerate(w)])), c, want)
    return [('channel-of-the-identifier', eq(o['channel'], want))]


# labels: in the order of the dictionary, or their bytes
LABELS = {0: 0, 1: 1, 2: 2, 3: 3, 4: 5, 5: 7, 6: 8, 7: 9, 10: 10, 11: 11, 12: 12, 13: [6, 14, 43, 52, 4, 1, 1, 13, 3, 2, 1, 16, 0, 0, 0, 0], 14: [6, 14, 43, 52, 4, 1, 1, 13, 13, 15, 3, 2, 1, 1, 0, 0]}


def label_made(I, f, t, a):
    p = V(a[0])
    I.label = list(p.lv.a.items[:16]) if isinstance(p.lv.a, Arr) else None
    return Lib('ASDCP::UL')


def entry(I, f, t, a):
    return Ptr(ElemLV(I, Arr(vast._types['unsigned char'], [V(a[0])] * 16, kind='heap'), 0))


def run_label(I, i):
    I.call_named('dcp::channel_to_mca_universal_label', None, [i['c'], i['f'], Ptr(ObjLV(Lib('ASDCP::Dictionary')))])
    return {'label': I.label}


def post_label(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    n = {4: 4, 5: 6}.get(i['c'], LABELS[i['c']]) if i['f'] == 0 else LABELS[i['c']]
    return [('label-of-the-channel', o['label'] == (n if isinstance(n, list) else [n] * 16))]


def run_channel(I, i):
    c, f = i['c'], i['f']
    s = V(I.call_named('dcp::channel_to_mca_id', None, [c, f]))
    n = V(I.call_named('dcp::channel_to_mca_name', None, [c, f]))
    return {'id': s, 'name': n, 'back': I.rv(value(V(I.call_named('dcp::mca_id_to_channel', None, [s.copy(I)]))))}


def post_channel(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    s, n = of(i['c'], i['f'])
    return [('identifier-of-the-channel', o['id'].pystr() == s), ('name-of-the-channel', o['name'].pystr() == n), ('identifier-reads-back', eq(o['back'], i['c']))]


# ------------------------------------------------------------------ configurations

T = lambda I: I.prog.type(CLS)


def show(I, c):
    o = {'text': V(I.call_named(CLS + '::as_string', c, [])).copy(I), 'valid': I.P.branch(I.rv(I.call_named(CLS + '::valid', c, [])))}
    if not o['valid']:
        refused = 0
        for f, a in ((CLS + '::field', []), (CLS + '::channels', []), (CLS + '::mapping', [0])):
            try:
                I.call_named(f, c, a)
            except CppThrow as e:
                refused += exc_name(e.val) == 'dcp::MainSoundConfigurationError'
        o['refused'] = refused
        return o
    o['field'] = I.rv(I.call_named(CLS + '::field', c, []))
    n = I.P.concretise(I.rv(I.call_named(CLS + '::channels', c, [])))
    o['map'] = [I.rv(value(V(I.call_named(CLS + '::mapping', c, [k])))) for k in range(n)]
    return o


def run_built(I, i):
    c = I.construct(I.prog.find(CLS + '::' + CLS.split('::')[1], 2), T(I), [i['f'], i['n0']])
    I.nameobj(c, 'conf')
    for k, ch in i['before']:
        I.call_named(CLS + '::set_mapping', c, [k, ch])
    I.call_named(CLS + '::set_channels', c, [i['n']])
    for k, ch in i['set']:
        I.call_named(CLS + '::set_mapping', c, [k, ch])
    return show(I, c)


def post_built(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    m = [-1] * i['n']
    for k, c in [x for x in i['before'] if x[0] < i['n']] + list(i['set']):
        m[k] = c
    text = ('51', '71')[i['f']] + ('/' if m else '') + ','.join('-' if c < 0 else of(c, i['f'])[0] for c in m)
    return [('valid', o['valid'] is True), ('text', o['text'].pystr() == text), ('field', eq(o.get('field'), i['f'])), ('channels', [eq(x, y) for x, y in zip(o.get('map', ()), m)] == [True] * i['n'] == [True] * len(o.get('map', ())))]


def built(name, sets, ns, n0=(6,), before=((),)):
    ins = [ChoiceIn('f', [0, 1]), ChoiceIn('n0', n0), ChoiceIn('n', ns), ChoiceIn('before', before), ChoiceIn('set', sets)]
    enc = lambda i: '%d %d %d %s' % (i['f'], i['n'], i['n0'], ' '.join('%d %s' % (len(x), ' '.join('%d %d' % tuple(y) for y in x)) for x in (i['before'], i['set'])))
    return Contract(name, SRC, ins, run_built, post_built, driver='mca', op='built', enc=enc, parse=parse, nsamples=300)


def parse(t):
    o = {'text': Str([list(bytes.fromhex(t[0][1:]))]).norm(), 'valid': t[1] == '1'}
    if not o['valid']:
        o['refused'] = int(t[2])
        return o
    o['field'] = int(t[2])
    o['map'] = [int(x) for x in t[4:]]
    return o


class TokensIn(In):
    """identifiers of given lengths, of any characters but separators"""

    def __init__(self, name, shapes, known=False):
        self.name, self.shapes, self.known = name, shapes, known

    def sym(self, P):
        shape = self.shapes[P.choose(len(self.shapes))]
        r = []
        for k, n in enumerate(shape):
            cs = [P.fresh_int('%s_%d_%d' % (self.name, k, j), -128, 127, exact=True) for j in range(n)]
            for c in cs:
                P.assume(And(c != 44, c != 47))
            if self.known:
                P.assume(KNOWN(*padded(cs)))
                P.assume(Not(cs[0] == 45))
            r.append(cs)
        return r

    def concrete(self, m, v):
        return [[m.eval(c, model_completion=True).as_long() for c in cs] for cs in v]

    def sample(self, r):
        n = r.choice([1, 1, 2, 3, 6, 8, 15, 16, 16, 17, 18])
        return [[ord(c) for c in r.choice(['-', '-'] + list(IDS) * 3 + ['L', 'Ls', 'FSKSync', 'zz', ''] * (r.random() < 0.1))] for _ in range(n)]

    def enc(self, v):
        return ''


def padded(cs):
    return [num(c) for c in list(cs) + [0] * (3 - len(cs))]


def text(i):
    cs = list(i['field'].chars()) + [47]
    for k, t in enumerate(i['ids']):
        cs += ([44] if k else []) + list(t)
    return cs


def id_model(I, f, t, a):
    cs = V(a[0]).chars()
    if all(not is_sym(c) for c in cs) or len(cs) > 3:
        return NotImplemented
    o = Opt(I.P.branch(KNOWN(*padded(cs))), CHANNEL(*padded(cs)))
    I.P.assume(And(o.val >= 0, o.val <= 14))
    return o


def run_read(I, i):
    c = I.construct(I.prog.find(CLS + '::' + CLS.split('::')[1], 1), T(I), [Str([text(i)])])
    I.nameobj(c, 'conf')
    return show(I, c)


def post_read(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    cs = text(i)
    got = o['text'].chars()
    r = [('text-kept', len(got) == len(cs) and And([eq(x, y) for x, y in zip(got, cs)]))]
    dash = lambda t: len(t) == 1 and eq(t[0], 45)
    if C.sym:
        known = lambda t: KNOWN(*padded(t)) if t else False
        chan = lambda t: CHANNEL(*padded(t))
    else:
        name = lambda t: bytes(x & 255 for x in t).decode('latin1').lower()
        known = lambda t: name(t) in IDS
        chan = lambda t: IDS[name(t)]
    ok = And(len(i['ids']) <= 16, And([Or(dash(t), known(t)) for t in i['ids']]))
    r.append(('valid-if-every-channel-is-known', ok if o['valid'] else Not(ok)))
    if not o['valid']:
        return r + [('refused', o['refused'] == 3)]
    f = i['field'].chars()
    is_ = lambda s: And(len(f) == 2, And([eq(c, ord(x)) for c, x in zip(f, s)]))
    r.append(('field', eq(o['field'], If(is_('51'), 0, If(is_('71'), 1, 2)))))
    r.append(('as-many-channels', len(o['map']) == len(i['ids'])))
    if len(o['map']) == len(i['ids']):
        r.append(('channels', And([eq(m, If(dash(t), -1, chan(t)) if C.sym else -1 if dash(t) else chan(t)) for m, t in zip(o['map'], i['ids'])])))
    return r


class FieldIn(FixStrIn):
    def sym(self, P):
        s = FixStrIn.sym(self, P)
        for c in s.chars():
            P.assume(c != 47)
        return s

    def sample(self, r):
        return S(r.choice(['51', '71', '51', '71', '15', 'xx']))


def read(name, shapes, known=False, model=True):
    return Contract(name, SRC, [FieldIn('field', 2), TokensIn('ids', shapes, known)], run_read, post_read, summaries={'dcp::mca_id_to_channel': id_model} if model else None, driver='mca', op='read', enc=lambda i: hexs(Str([text(i)])), parse=parse, diff=False, nsamples=300)


def run_field(I, i):
    c = I.construct(I.prog.find(CLS + '::' + CLS.split('::')[1], 1), T(I), [i['field'].copy(I)])
    I.nameobj(c, 'conf')
    return show(I, c)


def post_field(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    f, got = i['field'].chars(), o['text'].chars()
    is_ = lambda s: And(len(f) == 2, And([eq(c, ord(x)) for c, x in zip(f, s)]))
    return [('text-kept', len(got) == len(f) and And([eq(x, y) for x, y in zip(got, f)])), ('valid', o['valid'] is True), ('field', eq(o.get('field'), If(is_('51'), 0, If(is_('71'), 1, 2)))), ('no-channels', o.get('map') == [])]


def field(n):
    return Contract('field-only-%d' % n, SRC, [FieldIn('field', n)], run_field, post_field, driver='mca', op='read', enc=lambda i: hexs(i['field']), parse=parse, nsamples=60,
                    sample=lambda r: {'field': S(''.join(r.choice('517 x') for _ in range(n)))})


import itertools
contracts = [ids(n) for n in range(9)] + [Contract('identifier-of-any-length', SRC, [StrIn('s', alphabet='lrcsfehivn-dbox2mtyk', examples=list(IDS) + ['LFE', 'fsksyncx', 'l' * 20])], run_id, post_any, driver='mca', op='id', outs=['channel'], parse=lambda t: {'channel': int(t[0])}, cut_after=1),
                                        Contract('labels-of-channels', SRC, [ChoiceIn('c', CHANNELS), ChoiceIn('f', [0, 1, 2])], run_label, post_label, driver='mca', op='label', parse=lambda t: {'label': [int(x) for x in t[1:]]},
                                                 summaries={'ASDCP::Dictionary::ul': entry, 'ASDCP::UL::UL': label_made}),
                                        Contract('identifiers-of-channels', SRC, [ChoiceIn('c', CHANNELS), ChoiceIn('f', [0, 1, 2])], run_channel, post_channel, driver='mca', op='channel', outs=['id', 'name', 'back'],
                                                 parse=lambda t: {'id': Str([list(bytes.fromhex(t[0][1:]))]).norm(), 'name': Str([list(bytes.fromhex(t[1][1:]))]).norm(), 'back': int(t[2])}),
                                        built('number-of-channels', [()], range(17), (0, 1, 6, 16))] + \
    [built('channel-in-place-of-%d' % n, [((k, c),) for k in range(n) for c in CHANNELS], [n]) for n in (1, 2, 6, 8, 16)] + \
    [built('two-channels', [((j, c), (k, d)) for j in range(3) for k in range(3) for c in CHANNELS for d in (0, 4, 13)], [3])] + \
    [built('channels-kept', [()], range(8), (4,), [((k, c), (3, 0)) for k in range(4) for c in CHANNELS])] + \
    [read('read-%d' % n, [x for x in itertools.product((1, 2, 3), repeat=n)]) for n in (1, 2, 3)] + [read('read-many', [(1,) * n for n in range(4, 19)], True)] + [field(n) for n in range(5)]
SPEC = Spec('P30', contracts, DRV, ['numbers of channels and lengths of identifiers in texts are enumerated (up to 18, and 3 bytes each); longer identifiers in texts and texts with more than one stroke are only sampled'])
