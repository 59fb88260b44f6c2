"""Bit streams: most significant bit first, with a CRC of what was written since it was started"""
from vc.contract import *
from vc.lib import crc_value, crc16
from vc import ast as vast

SRC = ['bitstream.cc', 'fsk.cc']
DRV = {'stream': Driver('stream', SRC + ['exceptions.cc', 'locale_convert.cc'], ['-lboost_filesystem', '-lfmt'])}


class BitsIn(ArrIn):
    def __init__(self, name, **kw):
        ArrIn.__init__(self, name, 0, 1, et='bool', **kw)

    def sym(self, P):
        n = P.fresh_int(self.name + '_len', self.minlen, self.maxlen if self.maxlen is not None else 1 << 40, exact=True)
        P.ex.shrink.append(n)
        return Arr(vast._types['bool'], None, z3.Array(self.name, z3.IntSort(), z3.BoolSort()), n)

    def concrete(self, m, v):
        n = m.eval(num(v.n), model_completion=True).as_long()
        if n > 5000:
            raise Unsupported('counterexample too long')
        return Arr(v.t, [z3.is_true(m.eval(z3.Select(v.arr, k), model_completion=True)) for k in range(n)])

    def sample(self, r):
        a = ArrIn.sample(self, r)
        a.items = [bool(x) for x in a.items]
        return a

    def enc(self, v):
        return '%d %s' % (len(v.items), ' '.join(str(int(x)) for x in v.items)) if v.items else '0'


OPS = {'write_bit': 0, 'write_from_byte': 1, 'write_from_word': 2, 'start_crc': 3, 'write_crc': 4, 'write_from_byte-all': 5, 'write_from_word-all': 6}


def stream(I, i):
    """a stream in any state: bits i['d'] written, of which those from i['from'] on were fed to a running CRC"""
    t = I.prog.type('dcp::Bitstream')
    b = I.default(t)
    b = I.construct(I.prog.find('dcp::Bitstream::Bitstream', 0), t, []) if not isinstance(b, StructObj) else b
    data = [k for k, v in b.fields.items() if isinstance(v, Arr)]
    crc = [k for k, v in b.fields.items() if isinstance(v, Opt)]
    if len(data) != 1 or len(crc) != 1 or len(b.fields) != 2:
        raise Unsupported('Bitstream is not a vector of bits and an optional CRC')
    b.fields[data[0]].assign(I, i['d'].copy(I))
    c = b.fields[crc[0]]
    if i['crc']:
        sym = i['d'].items is None
        c.has, c.val = True, Lib('boost::crc_basic', poly=i['poly'], fed=(('earlier',),) if sym else tuple(i['d'].items[i['from']:]))
    return b, data[0], crc[0]


def run(op):
    def f(I, i):
        b, d, c = stream(I, i)
        args = [i['value']] if 'value' in i else []
        args += [i['bits']] if 'bits' in i else []
        I.call_named('dcp::Bitstream::' + op.replace('-all', ''), b, args)
        out = I.rv(I.call_named('dcp::Bitstream::get', b, []))
        k = b.fields[c]
        if i['d'].items is None:
            r = {'data': out, 'running': I.P.branch(k.has)}
            if r['running']:
                r['fed'], r['poly'] = k.val.fed, k.val.poly
            return r
        try:
            I.call_named('dcp::Bitstream::write_crc', b, [])
            return {'data': [int(x) for x in out.items], 'running': True, 'after': [int(x) for x in I.rv(I.call_named('dcp::Bitstream::get', b, [])).items]}
        except CppThrow:
            return {'data': [int(x) for x in out.items], 'running': False, 'after': []}
    return f


def bit(C, v, k):
    if not is_sym(v):
        return bool((v >> k) & 1)
    return eq(fmod(fdiv(v, 1 << k), 2), 1)


def written(C, i, op):
    """the bits the operation should append"""
    if op == 'write_bit':
        return [i['value']]
    n = i.get('bits', {'write_from_byte-all': 8, 'write_from_word-all': 32}.get(op))
    return [bit(C, i['value'], k) for k in range(n - 1, -1, -1)]


def fed_before(C, i):
    return (('earlier',),) if C.sym else tuple(i['d'].items[i['from']:])


def msb16(C, v):
    return [bit(C, v, k) for k in range(15, -1, -1)]


def post(op):
    def f(C, i, o):
        if op == 'start_crc' and i['crc'] or op == 'write_crc' and not i['crc']:
            return [('refused', o['exc'] is not None)]
        if o['exc'] is not None:
            return [('no-exception', False)]
        d = i['d']
        n = C.len(d)
        new = []
        running = i['crc']
        poly = i.get('poly')
        fed = fed_before(C, i) if i['crc'] else ()
        if op == 'start_crc':
            running, poly, fed = True, i['value'], ()
        elif op == 'write_crc':
            v = crc_value(C.I, poly, fed) if C.sym else crc16(poly, fed)
            new, running = msb16(C, v), False
        else:
            new = written(C, i, op)
            fed = fed + tuple(new)
        if not C.sym:
            # the driver finished the CRC to show its state
            tail = msb16(C, crc16(poly, fed)) if running else []
            return [('no-exception', True), ('bits', [bool(x) for x in o['data']] == d.items + new), ('crc-running', o['running'] == running),
                    ('crc-covers-exactly-what-was-written', [bool(x) for x in o['after']] == (d.items + new + tail if running else []))]
        out = [('no-exception', True), ('length', eq(o['data'].size(), n + len(new))), ('crc-running', o['running'] == running),
               ('earlier-bits-kept', C.forall(n, lambda k: Iff(C.at(o['data'], k), C.at(d, k))))]
        for k, b in enumerate(new):
            out.append(('bit-%d' % k, Iff(C.at(o['data'], simp(n + k)), b)))
        if running and o['running']:
            out.append(('crc-polynomial', eq(o['poly'], poly)))
            out.append(('crc-covers-exactly-what-was-written', len(o['fed']) == len(fed) and And([x == y if isinstance(x, tuple) or isinstance(y, tuple) else Iff(x, y) for x, y in zip(o['fed'], fed)])))
        return out
    return f


def enc(op):
    def f(i):
        return ' '.join([BitsIn('d').enc(i['d']), str(i['from'] if i['crc'] else -1), str(i.get('poly', 0)), str(OPS[op]), str(int(i.get('value', 0))), str(i.get('bits', 0))])
    return f


class FromIn(In):
    """where in the stream the running CRC was started: nothing depends on it in the proof"""
    name = 'from'

    def sym(self, P):
        return P.fresh_int('from', 0, None, exact=True)

    def concrete(self, m, v):
        return m.eval(v, model_completion=True).as_long()

    def sample(self, r):
        return r.randint(0, 20)

    def enc(self, v):
        return str(v)


def contract(op, ins):
    return Contract(op, SRC, [BitsIn('d', smax=24), ChoiceIn('crc', [False, True]), IntIn('poly', 0, 65535, [0x1021, 0x8005]), FromIn()] + ins, run(op), post(op),
                    pre=lambda C, i: And(i['from'] >= 0, i['from'] <= C.len(i['d'])), driver='stream', op='bits', enc=enc(op),
                    parse=parse)


def parse(tok):
    n = int(tok[0])
    d = [int(x) for x in tok[1:1 + n]]
    run = tok[1 + n] == '1'
    m = int(tok[2 + n])
    return {'data': d, 'running': run, 'after': [int(x) for x in tok[3 + n:3 + n + m]]}


SPEC = Spec('P09', [
    contract('write_bit', [BoolIn('value')]),
    contract('write_from_byte', [IntIn('value', 0, 255), ChoiceIn('bits', range(0, 9))]),
    contract('write_from_word', [IntIn('value', 0, 0xffffffff), ChoiceIn('bits', range(0, 33))]),
    contract('write_from_byte-all', [IntIn('value', 0, 255)]),
    contract('write_from_word-all', [IntIn('value', 0, 0xffffffff)]),
    contract('start_crc', [IntIn('value', 0, 65535)]),
    contract('write_crc', []),
], DRV, ['boost::crc_basic computes the CRC of the bits it is fed (compared with a bitwise CRC each run)', 'exception objects are opaque'])
