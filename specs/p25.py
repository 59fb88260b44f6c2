"""Messages are put together from a pattern and its arguments"""
from vc.contract import *
from vc.lib import concat

TU = VERIF + '/drivers/compose_tu.cc'
SRC = [TU, 'locale_convert.cc']
DRV = {'compose': Driver('compose', ['locale_convert.cc'], ['-lboost_filesystem'])}
# number of arguments, pattern, its pieces: text or number of an argument
PATTERNS = [
    (1, '%1', [1]), (1, 'a%1', ['a', 1]), (1, '%1b', [1, 'b']), (1, 'no place', ['no place']), (1, '%1%1', [1, 1]), (1, '100%% of %1', ['100% of ', 1]), (1, '%', ['%']), (1, '%x %1%', ['%x ', 1, '%']),
    (2, '%1 %2', [1, ' ', 2]), (2, '%2 %1', [2, ' ', 1]), (2, 'of %1: %2 (%1)', ['of ', 1, ': ', 2, ' (', 1, ')']), (2, '%2%1', [2, 1]), (2, 'only %2', ['only ', 2]),
    (3, '%1/%2/%3', [1, '/', 2, '/', 3]), (3, '%3%1-%2', [3, 1, '-', 2]), (3, '%3, %3 and %2', [3, ', ', 3, ' and ', 2]),
]


def run(n, pattern):
    def f(I, i):
        fn = [g for g in I.prog.by_name['dcp::String::compose'] if g.get('body') is not None and len(g['params']) == n + 1 and all('string' in p['t'].key for p in g['params'][1:])][0]
        return {'s': I.rv(I.call(fn, None, [ObjLV(S(pattern))] + [ObjLV(i['abc'[k]]) for k in range(n)]))}
    return f


def post(n, pieces):
    def f(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        want = concat(C.I, *[S(x) if isinstance(x, str) else i['abc'[x - 1]] for x in pieces])
        return [('pieces-in-order', C.streq(o['s'], want))]
    return f


def contract(k, n, pattern, pieces):
    return Contract('pattern-%d' % (k + 1), SRC, [StrIn(c, alphabet='%1 ax', smax=4, examples=['', '%1', '%%', 'x']) for c in 'abc'[:n]], run(n, pattern), post(n, pieces), driver='compose', op='compose %d %d' % (k, n),
                    outs=[('s', 'str')], text=pattern)


SPEC = Spec('P25', [contract(k, *p) for k, p in enumerate(PATTERNS)], DRV, [])
