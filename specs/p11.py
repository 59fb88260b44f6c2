"""A file object owns its stream: closed exactly once, moved, given away, never used when not open"""
from vc.contract import *
from vc.lib_stdio import world

SRC = ['file.cc', 'data.cc', 'filesystem.cc', 'array_data.cc']
WRAP = ['fopen', 'fopen64', 'fclose', 'fread', 'fwrite', 'feof', 'ferror', 'fgets', 'fputs', 'fseek', 'ftell', 'fseeko', 'ftello', 'fseeko64', 'ftello64',
        '_ZN5boost10filesystem6detail9file_sizeERKNS0_4pathEPNS_6system10error_codeE', '_ZN5boost10filesystem6detail6renameERKNS0_4pathES4_PNS_6system10error_codeE']
DRV = {'file': Driver('file', SRC + ['exceptions.cc', 'locale_convert.cc'], ['-lboost_filesystem', '-lfmt'] + ['-Wl,--wrap=' + w for w in WRAP])}


def path(s):
    return Lib('path', s=S(s) if isinstance(s, str) else s)


def new_file(I, p, mode):
    return I.construct(I.prog.find('dcp::File::File', 2), I.prog.type('dcp::File'), [path(p), S(mode) if isinstance(mode, str) else mode])


def stream_id(p):
    return -1 if not isinstance(p, Ptr) or p.null else p.lv.get().id


def state(I, f, n=''):
    ptr = I.rv(I.call_named('dcp::File::get', f, []))
    return {'id' + n: stream_id(ptr), 'open' + n: I.P.branch(I.rv(I.call_named('dcp::File::operator bool', f, []))), 'path' + n: I.rv(I.call_named('dcp::File::path', f, [])).s,
            'error' + n: I.rv(I.call_named('dcp::File::open_error', f, []))}


def closes(I):
    return [max(0, s.closed) for s in world(I).streams]


def run_open(I, i):
    I.opts['stdio'] = {'fopen': lambda I, n: (i['ok'], i['err'])}
    f = new_file(I, i['path'].copy(I), i['mode'].copy(I))
    o = state(I, f)
    w = world(I)
    o['opened'] = len(w.streams)
    o['rpath'], o['rmode'] = w.streams[0].path, w.streams[0].mode
    I.destroy(f)
    o['closes'] = closes(I)
    o['misuse'] = False
    return o


def nul(C, s):
    """no NUL inside: such names cannot be passed to fopen"""
    return C.forall(C.len(s), lambda k: ne(C.at(s, k), 0)) if not C.sym else quant(C, s)


def quant(C, s):
    k = z3.Int('anypos')
    p = s.parts[0]
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p.n), p.arr[k] != 0))


def post_open(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    ok = i['ok']
    return [('no-exception', True), ('open-iff-opened', o['open'] == ok and o['id'] == (0 if ok else -1)), ('name', C.streq(o['path'], i['path'])), ('opened-once', o['opened'] == 1),
            ('name-passed-on', C.streq(o['rpath'], i['path'])), ('mode-passed-on', C.streq(o['rmode'], i['mode'])), ('error', eq(o['error'], 0 if ok else i['err'])),
            ('closed-exactly-once', o['closes'] == [1 if ok else 0]), ('no-misuse', not o['misuse'])]


OPS = {'move-construction': 0, 'move-assignment': 1, 'self-assignment': 2, 'close': 3, 'take': 4}


def prep(I, f, what):
    if what == 1:
        I.call_named('dcp::File::close', f, [])
    elif what == 2:
        I.call_named('dcp::File::take', f, [])


def run_own(op):
    def run(I, i):
        I.opts['stdio'] = {'fopen': lambda I, n: ((i['ok1'], i['e1']), (i['ok2'], i['e2']))[n]}
        a = new_file(I, 'a', 'r')
        b = new_file(I, 'b', 'w')
        prep(I, a, i['w1'])
        prep(I, b, i['w2'])
        c, given = None, -1
        t = I.prog.type('dcp::File')
        mv = lambda f: f['params'][0]['t'].k == 'ref' and 'File' in f['params'][0]['t'].key
        if op == 'move-construction':
            c = I.construct(I.prog.find('dcp::File::File', 1, mv), t, [ObjLV(b)])
        elif op in ('move-assignment', 'self-assignment'):
            I.call(I.prog.find('dcp::File::operator=', 1, mv), a, [ObjLV(b if op == 'move-assignment' else a)])
        elif op == 'close':
            I.call_named('dcp::File::close', a, [])
        else:
            given = stream_id(I.rv(I.call_named('dcp::File::take', a, [])))
        o = {'given': given}
        o.update(state(I, c or a))
        o.update(state(I, b, '2'))
        o['before'] = closes(I)
        for x in (c, b, a):
            if x is not None:
                I.destroy(x)
        o['after'] = closes(I)
        o['misuse'] = False
        return o
    return run


def post_own(op):
    def post(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        ok = [i['ok1'], i['ok2']]
        err = [0 if i['ok1'] else i['e1'], 0 if i['ok2'] else i['e2']]
        what = [i['w1'], i['w2']]
        holds = [k if ok[k] and what[k] == 0 else -1 for k in (0, 1)]
        closed = [1 if ok[k] and what[k] == 1 else 0 for k in (0, 1)]
        taken = [ok[k] and what[k] == 2 for k in (0, 1)]
        x = dict(id=holds[0], path='a', error=err[0])
        y = dict(id=holds[1], path='b', error=err[1])
        given = -1
        if op == 'move-construction':
            x, y = dict(y), dict(id=-1, path=None, error=None)
        elif op == 'move-assignment':
            closed[0] += holds[0] >= 0
            x, y = dict(y), dict(id=-1, path=None, error=None)
        elif op == 'close':
            closed[0] += holds[0] >= 0
            x['id'] = -1
        elif op == 'take':
            given, x['id'] = holds[0], -1
            taken[0] = taken[0] or given >= 0
        r = [('no-exception', True), ('stream', o['id'] == x['id']), ('name', C.streq(o['path'], x['path'])), ('error', eq(o['error'], x['error'])),
             ('open-iff-stream', o['open'] == (x['id'] >= 0)), ('other-stream', o['id2'] == y['id']), ('other-open-iff-stream', o['open2'] == (y['id'] >= 0)),
             ('given-away', o['given'] == given), ('closed-when-due', o['before'] == closed), ('no-misuse', not o['misuse']),
             ('closed-exactly-once-unless-given-away', o['after'] == [1 if ok[k] and not taken[k] else 0 for k in (0, 1)])]
        if y['path'] is not None:
            r += [('other-name', C.streq(o['path2'], y['path'])), ('other-error', eq(o['error2'], y['error']))]
        return r
    return post


def own(op):
    def parse(tok):
        o = {'given': int(tok[0])}
        p = 1
        for n in ('', '2'):
            o['id' + n], o['open' + n], o['path' + n], o['error' + n] = int(tok[p]), tok[p + 1] == '1', dec1(tok[p + 2], 'str'), int(tok[p + 3])
            p += 4
        for n in ('before', 'after'):
            k = int(tok[p])
            o[n] = [int(x) for x in tok[p + 1:p + 1 + k]]
            p += 1 + k
        o['misuse'] = tok[p] == '1'
        return o
    return Contract(op, SRC, [ChoiceIn('ok1', [True, False]), IntIn('e1', 1, 133), ChoiceIn('w1', [0, 1, 2]), ChoiceIn('ok2', [True, False]), IntIn('e2', 1, 133), ChoiceIn('w2', [0, 1, 2])],
                    run_own(op), post_own(op), driver='file', op='own', enc=lambda i: '%d %d %d %d %d %d %d' % (OPS[op], i['ok1'], i['e1'], i['w1'], i['ok2'], i['e2'], i['w2']), parse=parse)


WRAPS = {'write': (0, 'fwrite'), 'read': (1, 'fread'), 'eof': (2, 'feof'), 'gets': (3, 'fgets'), 'puts': (4, 'fputs'), 'seek': (5, 'fseek'), 'tell': (6, 'ftell'), 'error': (7, 'ferror'),
         'checked_read': (8, None), 'checked_write': (9, None)}


def run_wrap(m):
    def run(I, i):
        fn = WRAPS[m][1]
        I.opts['stdio'] = {'fopen': lambda I, n: (True, 0), 'raw': True, fn: (lambda I, *a: i['ret'])}
        f = new_file(I, 'a', 'r+')
        prep(I, f, i['what'])
        buf = Arr(I.prog.type('char'), [ord(c) for c in 'hello'] + [0] * 59)
        p = Ptr(ElemLV(I, buf, 0))
        args = {'write': [p, 2, i['x']], 'read': [p, 2, i['x']], 'gets': [p, i['x']], 'puts': [p], 'seek': [i['x'], i['y']], 'checked_read': [p, 3], 'checked_write': [p, 3]}.get(m, [])
        r = I.rv(I.call_named('dcp::File::' + m, f, args))
        if m == 'gets':
            r = 0 if r.null else 1 if r.lv.same(p.lv) else 2
        calls = []
        for c in world(I).calls:
            if c[0] in ('fopen', 'fclose'):
                continue
            calls.append((c[0], [x for x in c[2:] if not isinstance(x, Ptr)], [x.lv.same(p.lv) for x in c[2:] if isinstance(x, Ptr)]))
        if not is_sym(i['ret']):
            calls = [' '.join([c[0]] + [str(x) for x in c[1]] + (['hello'] if m == 'puts' else [])) for c in calls]
        return {'ret': r if r is not None else 0, 'calls': calls, 'misuse': False}
    return run


def post_wrap(m):
    fn = WRAPS[m][1]

    def post(C, i, o):
        if i['what'] != 0:
            return [('refused-when-not-open', o['exc'] is not None)]
        if fn is None:
            return []
        if o['exc'] is not None:
            return [('no-exception', False)]
        want = {'write': [2, i['x']], 'read': [2, i['x']], 'gets': [i['x']], 'seek': [i['x'], i['y']]}.get(m, [])
        ret = i['ret'] if m != 'gets' else int(bool(i['ret'])) if not C.sym else If(i['ret'], 1, 0)
        r = [('no-exception', True), ('result-passed-back', eq(o['ret'], ret)), ('no-misuse', not o['misuse']), ('called-once', len(o['calls']) == 1)]
        if len(o['calls']) == 1:
            c = o['calls'][0]
            if C.sym and not isinstance(c, str):
                r.append(('arguments-passed-on', c[0] == fn and len(c[1]) == len(want) and And([eq(x, y) for x, y in zip(c[1], want)] + [all(c[2])])))
            else:
                r.append(('arguments-passed-on', (c if isinstance(c, str) else show(c)) == ' '.join([fn] + [str(x) for x in want] + (['hello'] if m == 'puts' else []))))
        return r
    return post


def wrap(m):
    n = WRAPS[m][0]
    ret = BoolIn('ret') if m == 'gets' else IntIn('ret', 0, 20) if m in ('read', 'write') else IntIn('ret', -(1 << 63), (1 << 63) - 1) if m == 'tell' else IntIn('ret', -(1 << 31), (1 << 31) - 1)
    x = IntIn('x', 0, 20) if m in ('read', 'write', 'gets') else IntIn('x', -(1 << 63), (1 << 63) - 1)

    def parse(tok):
        k = int(tok[1])
        return {'ret': int(tok[0]), 'calls': [dec1(t, 'str').pystr() for t in tok[2:2 + k]], 'misuse': tok[2 + k] == '1'}
    return Contract('%s-wrapper' % m, SRC, [ret, x, IntIn('y', 0, 2), ChoiceIn('what', [0, 1, 2])], run_wrap(m), post_wrap(m), driver='file', op='wrap', parse=parse,
                    pre=lambda C, i: And(i['what'] != 0 or WRAPS[m][1] is not None, i['ret'] <= i['x'] if m in ('read', 'write') else True),
                    enc=lambda i: '%d %d %d %d %d' % (n, i['ret'], i['x'], i['y'], i['what']))


def parse_open(tok):
    o = {'id': int(tok[0]), 'open': tok[1] == '1', 'path': dec1(tok[2], 'str'), 'error': int(tok[3]), 'opened': int(tok[4]), 'rpath': dec1(tok[5], 'str'), 'rmode': dec1(tok[6], 'str')}
    k = int(tok[7])
    o['closes'] = [int(x) for x in tok[8:8 + k]]
    o['misuse'] = tok[8 + k] == '1'
    return o


SPEC = Spec('P11', [
    Contract('open', SRC, [StrIn('path', alphabet='ab/ .', minlen=1), StrIn('mode', alphabet='rwab+', minlen=1, smax=3), ChoiceIn('ok', [True, False]), IntIn('err', 1, 133)], run_open, post_open,
             pre=lambda C, i: And(nul(C, i['path']), nul(C, i['mode'])), driver='file', op='open', parse=parse_open),
] + [own(o) for o in OPS] + [wrap(m) for m in WRAPS], DRV, ['stdio functions behave as their manual says; every outcome of each call is considered', 'exception objects are opaque'])
