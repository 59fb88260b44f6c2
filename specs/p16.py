"""Look-up tables do not depend on what was asked for before"""
from specs.curves import *

REAL, INT = z3.RealSort(), z3.IntSort()
TABLE = z3.Function('table', REAL, REAL, INT, z3.BoolSort(), z3.ArraySort(INT, REAL))
SIZE = z3.Function('table_size', REAL, REAL, INT, z3.BoolSort(), INT)
CURVE = ['gamma', [2.2]]
CLS = 'dcp::GammaTransferFunction'


class KeyIn(In):
    """[from, to, bit depth, inverse, scale] of a request"""
    PTS = [0.0, 1.0, 0.0625, 0.5]

    def __init__(self, name):
        self.name = name

    def sym(self, P):
        n = self.name
        return [RealIn(n + '_from', 0, 1).sym(P), RealIn(n + '_to', 0, 1).sym(P), IntIn(n + '_bits', 1, 16).sym(P), P.fresh_bool(n + '_inverse') if hasattr(P, 'fresh_bool') else z3.Bool(n + '_inverse'),
                IntIn(n + '_scale', 0, 65535).sym(P)]

    def concrete(self, m, v):
        e = lambda x: m.eval(x, model_completion=True)
        return [flt_of(e(v[0])), flt_of(e(v[1])), e(v[2]).as_long(), z3.is_true(e(v[3])), e(v[4]).as_long()]

    def sample(self, r):
        return [r.choice(self.PTS), r.choice(self.PTS), r.randint(1, 4), r.random() < 0.5, r.choice([1, 255, 4095, 65535])]

    def enc(self, v):
        return '%s %s %d %d %d' % (v[0].hex(), v[1].hex(), v[2], v[3], v[4])


def draw(r):
    k = KeyIn('')
    a = k.sample(r)
    out = {'d': a}
    for n in ('was', 'was_int'):
        b = list(a)
        for j in range(5):
            if r.random() < 0.3:
                b[j] = k.sample(r)[j]
        out[n] = b
    return out


def rounded(v):
    fl = z3.ToInt(v)
    d = v - z3.ToReal(fl)
    return z3.If(d < z3.Q(1, 2), fl, z3.If(d > z3.Q(1, 2), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))


def setup(I, i, ints):
    """a transfer function whose caches hold any earlier results"""
    f = curve(I, *CURVE)
    I.summaries = dict(I.summaries or {})

    def table(I, d, et):
        n = SIZE(*d)
        I.P.assume(z3.And(n >= 0, n <= 65536))
        k = z3.Int('place')
        a = TABLE(*d)
        I.P.assume(z3.ForAll([k], z3.And(z3.Select(a, k) >= -100, z3.Select(a, k) <= 100)))
        return Arr(et, None, a, n)

    def make(I, fn, this, args):
        a = [I.rv(x) for x in args]
        return table(I, [I.to_sort(a[0], REAL), I.to_sort(a[1], REAL), num(a[2]), I.to_sort(a[3], z3.BoolSort())], fn['ret'].a[0])
    for g in I.prog.functions.values():
        if g['n'].endswith('::make_double_lut'):
            I.summaries[g['key']] = make
    maps = [v for v in f.fields.values() if isinstance(v, MapObj)]
    if len(maps) != 2:
        raise Unsupported('caches are not the two the contract is written for')

    def lazy(e, isint, et):
        def g(I, k):
            fields = ('from', 'to', 'bit_depth', 'inverse', 'scale')
            if not isinstance(k, StructObj) or sorted(k.fields) != sorted(fields):
                raise Unsupported('cache key is not the one the contract is written for')
            old = k.copy(I)
            for n, v in list(zip(fields, e))[:5 if isint else 4]:
                old.fields[n] = v
            same = deep_eq(I, old, k)

            def val():
                t = table(I, e[:4], et)
                if not isint:
                    return t
                a = z3.Array(I.P.fresh('cached'), INT, INT)
                j = z3.Int('place')
                I.P.assume(z3.ForAll([j], z3.Select(a, j) == rounded(z3.Select(t.arr, j) * z3.ToReal(e[4]))))
                return Arr(et, None, a, t.n)
            return same, val
        return g
    for m in maps:
        isint = m.t.a[1].a[0].k == 'int'
        m.lazy = lazy(i['was_int'] if isint else i['was'], isint, m.t.a[1].a[0])
    if 'threads' not in i:
        return f
    held = lambda I, m: I.P.oblige('cache-used-under-its-lock', m not in maps or bool(I.locks), 'safety')
    I.opts['on_map'] = held
    return f


def run_double(I, i):
    d = i['d']
    if not is_sym(d[0]):
        return {'lut': concrete(I, i, False)}
    f = setup(I, i, False)
    v = I.rv(I.call_named('dcp::TransferFunction::double_lut', f, d[:4]))
    return {'lut': v, 'held': bool(I.locks)}


def run_int(I, i):
    d = i['d']
    if not is_sym(d[0]):
        return {'lut': concrete(I, i, True)}
    f = setup(I, i, True)
    I.wanted = i['d']
    v = I.rv(I.call_named('dcp::TransferFunction::int_lut', f, d))
    return {'lut': v, 'held': bool(I.locks)}


def concrete(I, i, isint):
    f = curve(I, *CURVE)
    I.call_named('dcp::TransferFunction::double_lut', f, i['was'][:4])
    I.call_named('dcp::TransferFunction::int_lut', f, i['was_int'])
    v = I.rv(I.call_named('dcp::TransferFunction::int_lut', f, i['d']) if isint else I.call_named('dcp::TransferFunction::double_lut', f, i['d'][:4]))
    return list(v.items)


def invariants(I, L):
    if not hasattr(I, 'wanted'):
        return []
    d = I.wanted
    k = z3.Int('place')
    want = lambda j: rounded(z3.Select(TABLE(*d[:4]), j) * z3.ToReal(d[4]))
    out = []
    for q, v in L.entry.items():
        if not (isinstance(v, tuple) and v[0] == 'arr'):
            continue
        now = lambda q=q: L.now[q][1]
        start = num(v[1].size())
        out += [('%s same size' % (q,), lambda q=q, start=start: num(now(q).size()) == start),
                ('%s grows' % (q,), lambda q=q: num(now(q).size()) == L.it),
                ('%s filled' % (q,), lambda q=q: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L.it), z3.Select(now(q).arr, k) == want(k))) if now(q).items is None else None)]
    return out


def post(isint):
    def f(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        d = i['d']
        lut = o['lut']
        if C.sym:
            v = lambda k: z3.Select(TABLE(*d[:4]), k)
            w = (lambda k: rounded(v(k) * z3.ToReal(d[4]))) if isint else v
            return [('no-exception', True), ('size-as-asked-for', eq(lut.size(), SIZE(*d[:4]))), ('table-asked-for', C.forall(lut.size(), lambda k: eq(C.at(lut, k), w(k))))]
        a = {'curve': CURVE[0], 'p': CURVE[1], 'from': d[0], 'to': d[1], 'inverse': d[3]}
        n = 1 << d[2]
        ok = lambda x, k: abs(x - entry(a, n, k)[0] * d[4]) <= 0.5 + 1e-6 if isint else near(x, entry(a, n, k)[0])
        return [('no-exception', True), ('size-as-asked-for', len(lut) == n), ('table-asked-for', all(ok(x, k) for k, x in enumerate(lut)))]
    return f


def run_shared(I, i):
    if not is_sym(i['d'][0]):
        return {'right': True}
    o = (run_int if i['ints'] else run_double)(I, i)
    return {'right': True, 'held': o['held']}


KEYS = [KeyIn('d'), KeyIn('was'), KeyIn('was_int')]
SPEC = Spec('P16', [
    Contract('double-table', SRC, KEYS, run_double, post(False), sample=draw, driver='curve', op='again', enc=lambda i: '0 ' + ' '.join(k.enc(i[k.name]) for k in KEYS), outs=[('lut', 'flts')]),
    Contract('integer-table', SRC, KEYS, run_int, post(True), sample=draw, driver='curve', op='again', enc=lambda i: '1 ' + ' '.join(k.enc(i[k.name]) for k in KEYS), outs=[('lut', 'ints')],
             cut_after=1, loop_invs=[('*', invariants)]),
    Contract('shared-by-threads', SRC, KEYS + [ChoiceIn('ints', [False, True]), IntIn('threads', 2, 4)], run_shared,
             lambda C, i, o: [('no-exception', o['exc'] is None), ('right-table', o['exc'] is None and o['right']), ('lock-released', not o.get('held'))],
             sample=draw, driver='threads', op='race', enc=lambda i: str(i['threads']), outs=[('right', 'bool')], diff=False, nsamples=3, cut_after=1, loop_invs=[('*', invariants)]),
], DRV, ['a lookup finds at most one cached entry, so one arbitrary earlier entry of each cache stands for all histories', 'std::unordered_map finds an element equal (by the real operator==) to the key; how keys are hashed decides only how fast',
         'table values lie between -100 and 100 and scales between 0 and 65535'])
