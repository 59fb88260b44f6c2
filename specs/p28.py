"""Keys keep their value, of any length"""
from vc.contract import *
from vc.lib import V, cstr
from vc.values import *

SRC = ['key.cc']
DRV = {'key': Driver('key', ['key.cc'], ['-lfmt'])}
MOST = 1 << 24


def hex2bin(I, f, t, a):
    """two digits to a byte, as many as there is room for"""
    s, d, n = cstr(I, a[0]), V(a[1]), simp(V(a[2]))
    P = I.P
    P.oblige('enough-digits', 2 * n <= s.length(), 'safety')
    if not is_sym(n):
        for k in range(n):
            d.lv.a.put(I, simp(d.lv.i + k), 16 * digit(s.at(I, 2 * k)) + digit(s.at(I, 2 * k + 1)))
    else:
        A = d.lv.a
        P.oblige('room-for-the-bytes', And(d.lv.i >= 0, d.lv.i + n <= A.size()), 'safety')
        I.wrote(A, 'elems')
        old, k, v = A.arr, z3.Int('k!hex'), s.parts[0]
        j = k - num(d.lv.i)
        A.arr = z3.Lambda([k], z3.If(z3.And(j >= 0, j < n), 16 * digit(z3.Select(v.arr, v.off + 2 * j)) + digit(z3.Select(v.arr, v.off + 2 * j + 1)), z3.Select(old, k)))
    V(a[3]).lv.set(n)
    return 0


def fill_random(I, f, t, a):
    d, n = V(a[0]), simp(V(a[1]))
    A = d.lv.a
    I.P.oblige('room-for-the-bytes', And(d.lv.i >= 0, d.lv.i + n <= A.size()), 'safety')
    if not is_sym(n):
        for k in range(n):
            A.put(I, simp(d.lv.i + k), (k * 7 + 3) & 255)
    else:
        I.wrote(A, 'elems')
        A.arr = z3.Array(I.P.fresh('random'), z3.IntSort(), z3.IntSort())
        bytes_only(I, A.arr)
    I.filled = n
    return d


MODELS = {'Kumu::hex2bin': hex2bin, 'Kumu::FortunaRNG::FillRandom': fill_random, 'Kumu::FortunaRNG::FortunaRNG': lambda I, f, t, a: Lib('Kumu::FortunaRNG')}


def digit(c):
    """value of a hexadecimal digit"""
    return If(c >= 97, c - 87, If(c >= 65, c - 55, c - 48))


def character(v):
    return If(v < 10, v + 48, v + 87)


def is_hex(c):
    return Or(And(c >= 48, c <= 57), And(c >= 65, c <= 70), And(c >= 97, c <= 102))


def bytes_only(I, arr):
    k = z3.Int('any!byte')
    I.P.assume(z3.ForAll([k], z3.And(z3.Select(arr, k) >= 0, z3.Select(arr, k) <= 255)))


T = lambda I: I.prog.type('dcp::Key')
ctor = lambda I, n, want=None: I.prog.find('dcp::Key::Key', n, want)


def make(I, v, name):
    """from the bytes given; the bytes are changed afterwards"""
    given = v.copy(I)
    given.kind = 'heap'
    I.name(given, name + '.given')
    if v.items is None:
        bytes_only(I, v.arr)
    k = I.construct(ctor(I, 2), T(I), [Ptr(ElemLV(I, given, 0)), v.size()])
    I.nameobj(k, name)
    if given.items is None:
        given.arr = z3.Array(I.P.fresh('later'), z3.IntSort(), z3.IntSort())
    else:
        given.items[:] = [165] * len(given.items)
    return k


def drop(I, k):
    I.call_named('dcp::Key::~Key', k, [])


def show(I, k, hexed=True):
    n = I.rv(I.call_named('dcp::Key::length', k, []))
    p = I.rv(I.call_named('dcp::Key::value', k, []))
    a = p.lv.a
    I.P.oblige('value-still-there', not a.freed, 'safety')
    I.P.oblige('value-as-long-as-said', And(eq(p.lv.i, 0), n <= a.size()), 'safety')
    o = {'length': n, 'value': a.copy(I) if a.items is None else list(a.items[:I.P.concretise(n)])}
    I.key = (a, n)
    o['hex'] = I.rv(I.call_named('dcp::Key::hex', k, [])) if hexed else S('')
    return o


def invariants(I, L):
    if not hasattr(I, 'key') or I.key[0].items is not None:
        return []
    a, n = I.key
    k = z3.Int('place')
    out = []
    for q, v in L.entry.items():
        if not (isinstance(v, tuple) and v[0] in ('arr', 'str')):
            continue
        if v[0] == 'arr':
            now = lambda q=q: L.now[q][1]
            at = lambda j, q=q: z3.Select(now(q).arr, j)
            sym = lambda q=q: now(q).items is None
            size = lambda q=q: num(now(q).size())
        else:
            now = lambda q=q: L.now[q][1].parts[0]
            at = lambda j, q=q: z3.Select(now(q).arr, now(q).off + j)
            sym = lambda q=q: len(L.now[q][1].parts) == 1 and isinstance(now(q), View)
            size = lambda q=q: num(now(q).n)
        start = num(v[1].size() if v[0] == 'arr' else v[1].length())
        b = lambda j: z3.Select(a.arr, j)
        out += [('%s same size' % (q,), lambda q=q, start=start, size=size: size(q) == start),
                ('%s grows' % (q,), lambda q=q, size=size: size(q) == 2 * L.it),
                ('%s digits' % (q,), lambda q=q, at=at, sym=sym: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < 2 * L.it), at(k, q) == character(z3.If(k % 2 == 0, b(k / 2) / 16, b(k / 2) % 16)))) if sym(q) else None),
                ('%s nothing after' % (q,), lambda q=q, at=at, sym=sym: z3.ForAll([k], z3.Implies(z3.And(k >= 2 * L.it, k < num(size(q))), at(k, q) == 0)) if sym(q) else None)]
    return out


def holds(C, o, n, b, hexed=True):
    """a key of n bytes b(k)"""
    if o['exc'] is not None:
        return [('no-exception', False)]
    if not C.sym:
        want = [b(k) for k in range(n)]
        return [('length', o['length'] == n), ('value', o['value'] == want)] + ([('hexadecimal-text', o['hex'].pystr() == ''.join('%02x' % x for x in want))] if hexed else [])
    r = [('length', eq(o['length'], n)), ('value', lambda: C.forall(n, lambda k: eq(C.at(o['value'], k), b(k))))]
    if hexed:
        r += [('two-digits-for-each-byte', eq(C.len(o['hex']), 2 * n)),
              ('hexadecimal-text', lambda: C.forall(n, lambda k: And(eq(C.at(o['hex'], 2 * k), character(fdiv(b(k), 16))), eq(C.at(o['hex'], 2 * k + 1), character(fmod(b(k), 16))))))]
    return r


def run_bytes(I, i):
    return show(I, make(I, i['v'], 'key'))


def run_text(I, i):
    k = I.construct(ctor(I, 1, lambda f: 'string' in f['params'][0]['t'].key), T(I), [i['s'].copy(I)])
    I.nameobj(k, 'key')
    return show(I, k, False)


def pre_text(C, i):
    n = C.len(i['s'])
    C.every(i['s'], 0, n, is_hex) if C.sym else None
    return And(eq(fmod(n, 2), 0), True if C.sym else C.every(i['s'], 0, n, is_hex))


def post_text(C, i, o):
    return holds(C, o, fdiv(C.len(i['s']), 2), lambda k: 16 * digit(C.at(i['s'], 2 * k)) + digit(C.at(i['s'], 2 * k + 1)), False)


def run_random(I, i):
    k = I.construct(ctor(I, 1, lambda f: f['params'][0]['t'].isint), T(I), [i['n']])
    I.nameobj(k, 'key')
    o = show(I, k, False)
    I.P.oblige('all-of-it-random', eq(getattr(I, 'filled', -1), i['n']), 'post')
    return o


def run_copy(I, i):
    a = make(I, i['v'], 'a')
    b = I.construct(ctor(I, 1, lambda f: f['params'][0]['t'].k == 'ref' and 'Key' in f['params'][0]['t'].key), T(I), [ObjLV(a)])
    I.nameobj(b, 'b')
    drop(I, a)
    o = show(I, b)
    drop(I, b)
    return o


def run_assign(I, i):
    a, b = make(I, i['v'], 'a'), make(I, i['w'], 'b')
    I.call_named('dcp::Key::operator=', a, [ObjLV(b)])
    c = make(I, i['w'], 'c')
    same = I.P.branch(I.rv(I.call_named('dcp::operator==', None, [ObjLV(b), ObjLV(c)])))
    drop(I, c)
    drop(I, b)
    o = show(I, a)
    drop(I, a)
    return dict(o, same=same)


def run_self(I, i):
    a = make(I, i['v'], 'a')
    I.call_named('dcp::Key::operator=', a, [ObjLV(a)])
    o = show(I, a)
    drop(I, a)
    return o


def run_equal(I, i):
    a, b = make(I, i['v'], 'a'), make(I, i['w'], 'b')
    r = {'eq': I.P.branch(I.rv(I.call_named('dcp::operator==', None, [ObjLV(a), ObjLV(b)]))), 'ne': I.P.branch(I.rv(I.call_named('dcp::operator!=', None, [ObjLV(a), ObjLV(b)])))}
    drop(I, a)
    drop(I, b)
    return r


def post_equal(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    n, m = C.len(i['v']), C.len(i['w'])
    if not C.sym:
        same = list(i['v'].items) == list(i['w'].items)
        return [('equal-as-bytes', o['eq'] == same), ('unequal-as-bytes', o['ne'] == (not same))]
    k = z3.Int('some')
    same = z3.And(n == m, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(i['v'].arr, k) == z3.Select(i['w'].arr, k))))
    return [('equal-as-bytes', same if o['eq'] else z3.Not(same)), ('unequal-as-bytes', z3.Not(same) if o['ne'] else same)]


def draw_pair(r):
    e = ArrIn('', 0, 255, smax=20)
    a = e.sample(r)
    b = Arr(a.t, list(a.items)) if r.random() < 0.6 else e.sample(r)
    if r.random() < 0.5 and b.items:
        b.items[r.choice([0, -1, r.randrange(len(b.items))])] ^= 1 << r.randrange(8)
    elif r.random() < 0.3:
        b.items.append(0)
    return {'v': a, 'w': b}


VALUE = lambda n: ArrIn(n, 0, 255, maxlen=MOST, smax=40, pts=[9, 10, 15, 16, 159, 160, 255])
OUTS = [('length', 'int'), ('value', 'ints'), ('hex', 'str')]
CUT = dict(summaries=MODELS, cut_after=1, loop_invs=[('*', invariants)], driver='key')
contracts = [
    Contract('from-bytes', SRC, [VALUE('v')], run_bytes, lambda C, i, o: holds(C, o, C.len(i['v']), lambda k: C.at(i['v'], k)), op='bytes', outs=OUTS, **CUT),
    Contract('from-text', SRC, [StrIn('s', maxlen=2 * MOST, alphabet='0123456789abcdefABCDEF')], run_text, post_text, pre=pre_text, op='text', outs=OUTS[:2], **CUT,
             sample=lambda r: {'s': S(''.join(r.choice('0123456789abcdefABCDEF') for _ in range(2 * r.randint(0, 20))))}),
    Contract('random', SRC, [IntIn('n', 0, MOST, [16, 20])], run_random, lambda C, i, o: [('length', o['exc'] is None and eq(o['length'], i['n']))], op='random', outs=OUTS[:2], **CUT, sample=lambda r: {'n': r.randint(0, 40)}),
    Contract('copied', SRC, [VALUE('v')], run_copy, lambda C, i, o: holds(C, o, C.len(i['v']), lambda k: C.at(i['v'], k)), op='copy', outs=OUTS, **CUT),
    Contract('assigned', SRC, [VALUE('v'), VALUE('w')], run_assign, lambda C, i, o: holds(C, o, C.len(i['w']), lambda k: C.at(i['w'], k)) + [('source-unchanged', lambda: o['same'])], op='assign', outs=[('same', 'bool')] + OUTS, **CUT),
    Contract('assigned-to-itself', SRC, [VALUE('v')], run_self, lambda C, i, o: holds(C, o, C.len(i['v']), lambda k: C.at(i['v'], k)), op='self', outs=OUTS, **CUT),
    Contract('equality', SRC, [VALUE('v'), VALUE('w')], run_equal, post_equal, op='equal', outs=[('eq', 'bool'), ('ne', 'bool')], sample=draw_pair, **CUT),
]
SPEC = Spec('P28', contracts, DRV, ['reading digits and random bytes is done by asdcplib, by its contract', 'random bytes are arbitrary'])
