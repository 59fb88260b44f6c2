"""Every byte is moved or the failure is reported"""
from vc.contract import *
from vc.lib_stdio import world
from specs.p11 import SRC, DRV, new_file, path, closes
from vc import ast as vast

BIG = 1 << 40
BYTES = dict(et='unsigned char', smax=12)


def chunks(i):
    """transfers limited to the planned sizes, one after the other (real code and concrete runs)"""
    st = {'k': 0}

    def f(I, n, s, left=None):
        p = i['plan'].items
        m = min(n, p[st['k']]) if st['k'] < len(p) else n
        st['k'] += 1
        if s.content is not None:
            m = min(m, s.size - s.pos)
        return m
    return f


def run_read(I, i):
    conc = i['content'].items is not None
    I.opts['stdio'] = {'fopen': lambda I, n: (True, 0)}
    if conc:
        I.opts['stdio']['fread'] = chunks(i)
    f = new_file(I, 'a', 'r')
    s = world(I).streams[0]
    s.content, s.size = i['content'], i['content'].size()
    ub = vast._types['unsigned char']
    if conc:
        buf = Arr(ub, [170] * (i['size'] + 2))
    else:
        buf = Arr(ub, None, z3.Array('buf', z3.IntSort(), z3.IntSort()), simp(i['size'] + 2))
    I.name(buf, 'buffer')
    I.io = (s, buf, buf.copy(I), i['size'])
    thrown = False
    try:
        I.call_named('dcp::File::checked_read', f, [Ptr(ElemLV(I, buf, 0)), i['size']])
    except CppThrow:
        thrown = True
    return {'thrown': thrown, 'buffer': buf if not conc else list(buf.items), 'pos': s.pos, 'misuse': False}


def io_invariants(I, L):
    if not hasattr(I, 'io'):
        return []
    s, buf, before, size = I.io
    k = z3.Int('place')
    done = lambda: num(s.pos)
    out = [('progress', lambda: And(done() >= 0, done() <= num(size))),
           ('bytes so far', lambda: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < done()), z3.Select(buf.arr, k) == z3.Select(s.content.arr, k))) if buf.items is None else None),
           ('rest untouched', lambda: z3.ForAll([k], z3.Implies(k >= done(), z3.Select(buf.arr, k) == z3.Select(before.arr, k))) if buf.items is None else None)]
    for q in L.entry:
        v = L.entry[q]
        if isinstance(v, tuple) or isinstance(v, bool) or v is UNINIT or v is None or not (isinstance(v, int) or z3.is_int(v)):
            continue
        out.append(('%s counts' % (q,), lambda q=q: eq(L.now[q], done())))
        out.append(('%s counts down' % (q,), lambda q=q: eq(L.now[q], num(size) - done())))
    return out


def post_read(C, i, o):
    n, sz = C.len(i['content']), i['size']
    if o['exc'] is not None:
        return [('no-exception', False)]
    # the caller gets everything or an exception; a file long enough is an exception only if a read gives nothing
    r = [('no-misuse', not o['misuse'])]
    if C.sym:
        if o['thrown']:
            return r
        r += [('long-enough', n >= sz), ('all-bytes', C.forall(sz, lambda k: eq(C.at(o['buffer'], k), C.at(i['content'], k)))),
              ('nothing-beyond', C.forall(simp(sz + 2), lambda k: Implies(k >= sz, eq(C.at(o['buffer'], k), z3.Select(C.I.io[2].arr, k))))), ('position', eq(o['pos'], sz))]
        return r
    stuck = any(p == 0 for p in i['plan'].items)
    r.append(('fails-only-when-it-must', not o['thrown'] or n < sz or stuck))
    if not o['thrown']:
        r += [('long-enough', n >= sz), ('all-bytes', list(o['buffer'][:sz]) == list(i['content'].items[:sz])), ('nothing-beyond', list(o['buffer'][sz:]) == [170, 170]), ('position', o['pos'] == sz)]
    return r


def run_write(I, i):
    conc = i['d'].items is not None
    I.opts['stdio'] = {'fopen': lambda I, n: (True, 0)}
    if conc:
        I.opts['stdio']['fwrite'] = chunks(i)
        I.opts['stdio']['ferror'] = lambda I, s: int(i['failing'])
    f = new_file(I, 'a', 'w')
    s = world(I).streams[0]
    d = i['d'].copy(I)
    thrown = False
    try:
        I.call_named('dcp::File::checked_write', f, [Ptr(ElemLV(I, d, 0)), d.size()])
    except CppThrow:
        thrown = True
    I.destroy(f)
    return {'thrown': thrown, 'out': s.out if not conc else list(s.out.items), 'misuse': False}


def post_write(C, i, o):
    n = C.len(i['d'])
    if o['exc'] is not None:
        return [('no-exception', False)]
    r = [('no-misuse', not o['misuse'])]
    if not C.sym:
        short = sum(1 for p in i['plan'].items if p < n) > 0
        return r + [('fails-only-when-it-must', not o['thrown'] or short), ('all-bytes-in-order', o['thrown'] or list(o['out']) == list(i['d'].items)),
                    ('nothing-else', list(o['out']) == list(i['d'].items[:len(o['out'])]))]
    if o['thrown']:
        return r
    return r + [('all-written', eq(o['out'].size(), n)), ('all-bytes-in-order', C.forall(n, lambda k: eq(C.at(o['out'], k), C.at(i['d'], k))))]


def array_data(I, a):
    t = I.prog.type('dcp::ArrayData')
    d = I.construct(I.prog.find('dcp::ArrayData::ArrayData', 0), t, [])
    v = [x for x in d.fields.values() if isinstance(x, SPtr)]
    if len(v) != 1 or len(d.fields) != 1:
        raise Unsupported('ArrayData is not a shared vector')
    v[0].o.assign(I, a.copy(I))
    return d


def run_datawrite(I, i):
    conc = i['d'].items is not None
    I.opts['stdio'] = {'fopen': lambda I, n: (i['ok'], 13)}
    if conc:
        I.opts['stdio']['fwrite'] = chunks(i)
    d = array_data(I, i['d'])
    renames = []

    def ren(I, f, t, a):
        renames.append((a[0].get().s if isinstance(a[0], LV) else a[0].s, a[1].get().s if isinstance(a[1], LV) else a[1].s))
        world(I).calls.append(('rename',))
    I.summaries = dict(I.summaries or {})
    I.summaries['boost::filesystem::rename'] = ren
    thrown = False
    try:
        if i['via']:
            I.call_named('dcp::Data::write_via_temp', d, [path('temp'), path('final')])
        else:
            I.call_named('dcp::Data::write', d, [path('final')])
    except CppThrow:
        thrown = True
    w = world(I)
    return {'thrown': thrown, 'streams': [(s.path, s.mode, s.out if not conc else [x & 255 for x in s.out.items], max(0, s.closed)) for s in w.streams], 'renames': renames, 'misuse': False,
            'last': bool(renames) and w.calls[-1][0] == 'rename'}


def post_datawrite(C, i, o):
    n = C.len(i['d'])
    if o['exc'] is not None:
        return [('no-exception', False)]
    r = [('no-misuse', not o['misuse']), ('one-file', len(o['streams']) == 1), ('cannot-open-is-reported', i['ok'] or o['thrown']),
         ('replaced-only-after-success', len(o['renames']) == (1 if i['via'] and not o['thrown'] else 0) and (not o['renames'] or o['last']))]
    if len(o['streams']) == 1:
        p, mode, out, closed = o['streams'][0]
        r += [('file-name', C.streq(p, 'temp' if i['via'] else 'final')), ('binary', C.streq(mode, 'wb')), ('closed', closed == (1 if i['ok'] else 0))]
        if C.sym:
            if not o['thrown']:
                r += [('all-written', eq(out.size(), n)), ('all-bytes-in-order', C.forall(n, lambda k: eq(C.at(out, k), C.at(i['d'], k))))]
        else:
            short = sum(1 for x in i['plan'].items if x < n) > 0
            r += [('all-bytes-in-order', o['thrown'] or list(out) == list(i['d'].items)), ('fails-only-when-it-must', not o['thrown'] or short or not i['ok'])]
    for a, b in o['renames']:
        r += [('renames-temporary-to-final', And(C.streq(a, 'temp'), C.streq(b, 'final')))]
    return r


def parse_datawrite(tok):
    o = {'thrown': tok[0] == '1', 'streams': [], 'renames': []}
    p = 2
    for _ in range(int(tok[1])):
        k = int(tok[p + 2])
        o['streams'].append((dec1(tok[p], 'str'), dec1(tok[p + 1], 'str'), [int(x) for x in tok[p + 3:p + 3 + k]], int(tok[p + 3 + k])))
        p += 4 + k
    k = int(tok[p])
    p += 1
    for _ in range(k):
        o['renames'].append((dec1(tok[p], 'str'), dec1(tok[p + 1], 'str')))
        p += 2
    o['misuse'], o['last'] = tok[p] == '1', tok[p + 1] == '1'
    return o


def run_arraydata(I, i):
    conc = i['content'].items is not None

    def opened(I, s):
        s.content, s.size = i['content'], i['content'].size()
    I.opts['stdio'] = {'fopen': lambda I, n: (i['ok'], 13), 'opened': opened}
    if conc:
        I.opts['stdio']['fread'] = chunks(i)
    I.summaries = dict(I.summaries or {})
    I.summaries['boost::filesystem::file_size'] = lambda I, f, t, a: i['fsize']
    t = I.prog.type('dcp::ArrayData')
    pk = lambda f: 'path' in f['params'][0]['t'].key
    thrown, got = False, []
    try:
        d = I.construct(I.prog.find('dcp::ArrayData::ArrayData', 1, pk), t, [path('a')])
        got = [x for x in d.fields.values() if isinstance(x, SPtr)][0].o
    except CppThrow:
        thrown = True
    return {'thrown': thrown, 'got': got if not conc or thrown else [x & 255 for x in got.items], 'closes': closes(I), 'misuse': False}


def post_arraydata(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    n, c = i['fsize'], i['content']
    r = [('no-misuse', not o['misuse']), ('cannot-open-is-reported', i['ok'] or o['thrown']), ('closed', o['closes'] == ([1] if i['ok'] else [0]))]
    if not C.sym:
        short = len(c.items) < n or any(x < n for x in i['plan'].items)
        return r + [('all-bytes', o['thrown'] or list(o['got']) == list(c.items[:n]) and len(c.items) >= n), ('fails-only-when-it-must', not o['thrown'] or short or not i['ok'])]
    if o['thrown']:
        return r
    return r + [('all-read', And(eq(o['got'].size(), n), C.len(c) >= n)), ('all-bytes', C.forall(n, lambda k: eq(C.at(o['got'], k), C.at(c, k))))]


def eq_invariants(I, L):
    """what a loop that stops at the first difference knows: everything before its counter, or after it, is the same"""
    if not hasattr(I, 'pair'):
        return []
    a, b, n = I.pair
    k = z3.Int('place')
    same = lambda lo, hi: z3.ForAll([k], z3.Implies(z3.And(k >= num(lo), k < num(hi)), a[k] == b[k]))
    out = []
    for q, v in L.entry.items():
        if isinstance(v, (tuple, bool)) or v is UNINIT or v is None or not (isinstance(v, int) or z3.is_int(v)):
            continue
        out += [('same before %s' % (q,), lambda q=q: And(L.now[q] >= 0, same(0, L.now[q]))), ('same from %s' % (q,), lambda q=q: And(L.now[q] >= 0, same(L.now[q], n))),
                ('same after %s' % (q,), lambda q=q: And(L.now[q] >= -1, same(L.now[q] + 1, n)))]
    return out


def run_eq(I, i):
    if i['a'].items is None and i['b'].items is None:
        I.pair = i['a'].arr, i['b'].arr, i['a'].size()
    a, b = array_data(I, i['a']), array_data(I, i['b'])
    pk = lambda f: 'Data' in f['params'][0]['t'].key
    return {'eq': I.rv(I.call(I.prog.find('dcp::operator==', 2, pk), None, [ObjLV(a), ObjLV(b)])), 'ne': I.rv(I.call(I.prog.find('dcp::operator!=', 2, pk), None, [ObjLV(a), ObjLV(b)]))}


def post_eq(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    r = [('no-exception', True), ('opposites', Iff(o['eq'], Not(o['ne'])))]
    if not C.sym:
        return r + [('equal-iff-same-bytes', o['eq'] == (i['a'].items == i['b'].items))]
    n = C.len(i['a'])
    k = z3.Int('anyplace')
    same = z3.And(num(n) == num(C.len(i['b'])), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < num(n)), i['a'].arr[k] == i['b'].arr[k])))
    return r + [('equal-only-if-same-bytes', Implies(o['eq'], same)), ('different-only-if-bytes-differ', Implies(o['ne'], Not(same)))]


PLAN = ArrIn('plan', 0, 6, et='int', smax=4)
def parse_read(tok):
    k = int(tok[1])
    return {'thrown': tok[0] == '1', 'buffer': [int(x) for x in tok[2:2 + k]], 'pos': int(tok[2 + k]), 'misuse': tok[3 + k] == '1'}


def parse_arraydata(tok):
    k = int(tok[1])
    m = int(tok[2 + k])
    return {'thrown': tok[0] == '1', 'got': [int(x) for x in tok[2:2 + k]], 'closes': [int(x) for x in tok[3 + k:3 + k + m]], 'misuse': tok[3 + k + m] == '1'}


def parse_write(tok):
    k = int(tok[1])
    return {'thrown': tok[0] == '1', 'out': [int(x) for x in tok[2:2 + k]], 'misuse': tok[2 + k] == '1'}


SPEC = Spec('P12', [
    Contract('checked_read', SRC, [ArrIn('content', 0, 255, **BYTES), IntIn('size', 0, BIG, range(14)), PLAN], run_read, post_read, pre=lambda C, i: C.sym or i['size'] < 40,
             sample=lambda r: {'size': r.randint(0, 13)}, driver='file', op='read', parse=parse_read, cut_after=1, loop_invs=[('*', io_invariants)]),
    Contract('checked_write', SRC, [ArrIn('d', 0, 255, **BYTES), PLAN, BoolIn('failing')], run_write, post_write, driver='file', op='write', parse=parse_write),
    Contract('data-write', SRC, [ArrIn('d', 0, 255, maxlen=(1 << 31) - 1, **BYTES), ChoiceIn('ok', [True, False]), PLAN, ChoiceIn('via', [False, True])], run_datawrite, post_datawrite,
             driver='file', op='datawrite', parse=parse_datawrite),
    Contract('data-read', SRC, [ArrIn('content', 0, 255, **BYTES), ChoiceIn('ok', [True, False]), PLAN, IntIn('fsize', 0, BIG, range(14))], run_arraydata, post_arraydata, pre=lambda C, i: C.sym or i['fsize'] < 40,
             sample=lambda r: {'fsize': r.randint(0, 13)}, driver='file', op='arraydata', parse=parse_arraydata),
    Contract('data-equality', SRC, [ArrIn('a', 0, 3, maxlen=(1 << 31) - 1, et='unsigned char', smax=3), ArrIn('b', 0, 3, maxlen=(1 << 31) - 1, et='unsigned char', smax=3)], run_eq, post_eq,
             driver='file', op='dataeq', outs=[('eq', 'bool'), ('ne', 'bool')], cut_after=1, loop_invs=[('*', eq_invariants)]),
], DRV, ['stdio functions behave as their manual says: a transfer moves any number of bytes up to the number asked for', 'errors that only fclose reports are not considered', 'exception objects are opaque'])
