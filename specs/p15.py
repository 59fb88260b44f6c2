"""Look-up tables of the transfer functions"""
from specs.curves import *

MAXBITS = 24


class CurveIn(In):
    """a curve with its parameters: [name, parameters]"""

    def __init__(self, name, which):
        self.name, self.which, self.params = name, which, ParamsIn(name + '_p')

    def sym(self, P):
        return [self.which, self.params.make(P, self.which)]

    def concrete(self, m, v):
        return [v[0], self.params.concrete(m, v[1])]

    def sample(self, r):
        return [self.which, self.params.draw(r, self.which)]

    def enc(self, v):
        return '%s %s' % (hexs(v[0]), ' '.join(RealIn('', 0, 0).enc(x) for x in v[1]))


def ask(i):
    return {'curve': i['f'][0], 'p': i['f'][1], 'from': i['from'], 'to': i['to'], 'inverse': i['inverse']}


def run(I, i):
    f = curve(I, *i['f'])
    if is_sym(i['bits']):
        n = I.P.fresh_int('entries')
        I.P.assume(n == two_to(I, i['bits']))
        I.table = (ask(i), n)
        I.P.ex.shrink.append(i['bits'])
    v = I.rv(I.call_named(CURVES[i['f'][0]][0] + '::make_double_lut', f, [i['from'], i['to'], i['bits'], i['inverse']]))
    return {'lut': v if v.items is None else list(v.items)}


def two_to(I, e):
    r = num(1 << MAXBITS)
    for k in range(MAXBITS - 1, -1, -1):
        r = z3.If(e == k, num(1 << k), r)
    return r


def invariants(I, L):
    if not hasattr(I, 'table'):
        return []
    a, n = I.table
    out = []
    k = z3.Int('place')
    for q, v in L.entry.items():
        if not (isinstance(v, tuple) and v[0] == 'arr'):
            continue
        now = lambda q=q: L.now[q][1]
        size = lambda q=q: num(now(q).size())
        start = num(v[1].size())
        at = lambda j, q=q: z3.Select(now(q).arr, j)
        f = lambda j, n: entry(a, n, j)[0]
        sym = lambda q=q: now(q).items is None
        out += [('%s same size' % (q,), lambda q=q, start=start: size(q) == start),
                ('%s grows' % (q,), lambda q=q: size(q) == L.it),
                ('%s filled up' % (q,), lambda q=q: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L.it), at(k, q) == f(k, n))) if sym(q) else None),
                ('%s filled down' % (q,), lambda q=q: z3.ForAll([k], z3.Implies(z3.And(k >= n - L.it, k < n), at(k, q) == f(k, n))) if sym(q) else None)]
    return out


def post(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    n = C.I.table[1] if C.sym else 1 << i['bits']
    lut = o['lut']
    m = C.len(lut)
    return [('no-exception', True), ('two-to-the-bit-depth-entries', eq(m, n)),
            ('every-entry-on-the-curve', lambda: C.forall(m, lambda k: Or([near(C.at(lut, k), x) for x in entry(ask(i), n, k)])))]


UNIT = lambda n: RealIn(n, 0, 1, [0, 1, 0.0625, 0.5, 0.0031308, 0.04045, 0.01125, 0.1673])
SPEC = Spec('P15', [
    Contract('%s-table' % c, SRC, [CurveIn('f', c), UNIT('from'), UNIT('to'), IntIn('bits', 1, MAXBITS), ChoiceIn('inverse', [False, True])], run, post,
             pre=lambda C, i: C.sym or i['bits'] <= 16, sample=lambda r: {'bits': r.randint(1, 7)}, driver='curve', op='table', outs=[('lut', 'flts')], opts={'symbolic_shift': True}, cut_after=1, loop_invs=[('*', invariants)])
    for c in CURVES
], DRV, ['doubles are real numbers in the proof; the real tables are compared to 1e-9 (relative above 1)', 'pow and log10 are uninterpreted functions of their arguments in the proof'])
