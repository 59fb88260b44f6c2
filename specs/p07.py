"""Names used in the XML: alignment, content kind, subtitle standard"""
from vc.contract import *

SRC = ['h_align.cc', 'v_align.cc', 'content_kind.cc', 'subtitle_standard.cc']
DRV = {'tables': Driver('tables', SRC + ['name_format.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lboost_filesystem', '-lfmt'])}
H = ['left', 'center', 'right']
VA = ['top', 'center', 'bottom']
S429 = 'http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/content-kind'
S2067 = 'http://www.smpte-ra.org/schemas/2067-3/2013#content-kind'
KINDS = [(k, '') for k in 'feature short trailer test transitional rating teaser policy psa advertisement'.split()] + \
        [(k, S429) for k in ('clip', 'promo', 'stereocard')] + [(k, S2067) for k in ('episode', 'highlights', 'event')]


def enum_of(I, prog, t, names, i):
    """value of the i-th enumerator, by name: the numbering does not matter"""
    return prog.type(t).cs[names[i].upper()]


def to_string(fn, t, names):
    return Contract(fn, SRC, [ChoiceIn('v', range(3))], lambda I, i: {'s': I.rv(I.call_named('dcp::' + fn, None, [enum_of(I, I.prog, t, names, i['v'])]))},
                    lambda C, i, o: [('no-exception', o['exc'] is None), ('name', lambda: C.streq(o['s'], names[i['v']]))],
                    driver='tables', op={'halign_to_string': 'h2s', 'valign_to_string': 'v2s'}[fn], outs=[('s', 'str')])


def lower(c):
    return If(And(c >= 65, c <= 90), c + 32, c)


def ieq(C, s, name):
    """s is name, ignoring the case of ASCII letters"""
    n = C.len(s)
    if not is_sym(n) and n != len(name):
        return False
    return And([eq(n, len(name))] + [eq(lower(C.at(s, k)), ord(ch)) for k, ch in enumerate(name)])


def from_string(fn, t, names):
    def post(C, i, o):
        r = []
        for k, nm in enumerate(names):
            r.append(('exactly-' + nm, lambda nm=nm, k=k: Iff(ieq(C, i['s'], nm), o['exc'] is None and eq(o['v'], k))))
        r.append(('others-refused', Implies(Not(Or([ieq(C, i['s'], nm) for nm in names])), o['exc'] is not None)))
        return r

    def run(I, i):
        v = I.rv(I.call_named('dcp::' + fn, None, [i['s']]))
        # the enumerator, as its position in the documented order
        inv = {I.prog.type(t).cs[n.upper()]: k for k, n in enumerate(names)}
        r = -1
        for val, k in inv.items():
            r = If(eq(v, val), k, r)
        return {'v': r}
    return Contract(fn, SRC, [StrIn('s', alphabet='lefcntrighopbm EL', examples=names + [x.upper() for x in names] + [x.title() for x in names])], run, post,
                    driver='tables', op={'string_to_halign': 's2h', 'string_to_valign': 's2v'}[fn], outs=[('v', 'int')])


def run_kind(I, i):
    k = I.rv(I.call_named('dcp::ContentKind::from_name', None, [i['s']]))
    return kind_out(I, k)


def kind_out(I, k, p=''):
    sc = I.rv(I.call_named('dcp::ContentKind::scope', k, []))
    has = I.P.branch(sc.has)
    return {'name': I.rv(I.call_named('dcp::ContentKind::name', k, [])), 'has': has, 'scope': sc.val if has else Str([])}


def post_kind(C, i, o):
    r = [('others-refused', Implies(Not(Or([ieq(C, i['s'], nm) for nm, _ in KINDS])), o['exc'] is not None))]
    for nm, sc in KINDS:
        r.append(('exactly-' + nm, lambda nm=nm, sc=sc: Implies(ieq(C, i['s'], nm), o['exc'] is None and And(C.streq(o['name'], nm), C.streq(o['scope'], sc), Iff(o['has'], sc != '')))))
    return r


def run_kinds(I, i):
    v = I.rv(I.call_named('dcp::ContentKind::all', None, []))
    out = []
    for k in v.items:
        o = kind_out(I, I.rv(k))
        out += [o['name'], o['scope']]
    return {'all': out}


def post_kinds(C, i, o):
    want = sorted(KINDS)
    got = sorted((show(o['all'][k]), show(o['all'][k + 1])) for k in range(0, len(o['all']), 2))
    return [('every-kind-once', got == want)]


def opt(I, has, s):
    return Opt(has, s if has else None)


def run_kindeq(I, i):
    t = I.prog.type('dcp::ContentKind')
    c = I.prog.find('dcp::ContentKind::ContentKind', 2)
    x = I.construct(c, t, [i['a'], opt(I, i['as'], i['asc'])])
    y = I.construct(c, t, [i['b'], opt(I, i['bs'], i['bsc'])])
    pk = lambda f: 'ContentKind' in f['params'][0]['t'].key
    f = I.prog.find('dcp::operator==', 2, pk)
    return {'eq': I.rv(I.call(f, None, [ObjLV(x), ObjLV(y)])), 'ne': I.rv(I.call(I.prog.find('dcp::operator!=', 2, pk), None, [ObjLV(x), ObjLV(y)])),
            'self': I.rv(I.call(f, None, [ObjLV(x), ObjLV(x)]))}


def post_kindeq(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    same = And(C.streq(i['a'], i['b']), i['as'] == i['bs'], C.streq(i['asc'], i['bsc']) if i['as'] and i['bs'] else True)
    return [('no-exception', True), ('equal-iff-name-and-scope', Iff(o['eq'], same)), ('not-equal', Iff(o['ne'], Not(same))), ('reflexive', o['self'])]


STD = ['INTEROP', 'SMPTE_2007', 'SMPTE_2010', 'SMPTE_2014']


def run_std(I, i):
    v = I.prog.type('dcp::SubtitleStandard').cs[STD[i['v']]]
    return {'base': I.rv(I.call_named('dcp::uses_baseline', None, [v])), 'box': I.rv(I.call_named('dcp::uses_bounding_box', None, [v]))}


SPEC = Spec('P07', [
    to_string('halign_to_string', 'dcp::HAlign', H), to_string('valign_to_string', 'dcp::VAlign', VA),
    from_string('string_to_halign', 'dcp::HAlign', H), from_string('string_to_valign', 'dcp::VAlign', VA),
    Contract('content-kind', SRC, [StrIn('s', alphabet='abcdefghilnoprstvy E', examples=[k for k, _ in KINDS] + [k.upper() for k, _ in KINDS])], run_kind, post_kind,
             driver='tables', op='kind', outs=[('name', 'str'), ('has', 'bool'), ('scope', 'str')]),
    Contract('all-content-kinds', SRC, [], run_kinds, post_kinds, driver='tables', op='kinds', outs=[('all', 'strs')]),
    Contract('content-kind-equality', SRC, [StrIn('a', alphabet='ab', smax=2), ChoiceIn('as', [False, True]), StrIn('asc', alphabet='ab', smax=2),
                                            StrIn('b', alphabet='ab', smax=2), ChoiceIn('bs', [False, True]), StrIn('bsc', alphabet='ab', smax=2)], run_kindeq, post_kindeq,
             driver='tables', op='kindeq', outs=[('eq', 'bool'), ('ne', 'bool'), ('self', 'bool')]),
    Contract('subtitle-standard', SRC, [ChoiceIn('v', range(4))], run_std,
             lambda C, i, o: [('no-exception', o['exc'] is None), ('baseline', lambda: Iff(o['base'], i['v'] in (0, 3))), ('bounding-box', lambda: Iff(o['box'], i['v'] in (1, 2)))],
             driver='tables', op='std', outs=[('base', 'bool'), ('box', 'bool')]),
], DRV, ['exception objects are opaque', 'toupper/tolower as in the C locale'])
