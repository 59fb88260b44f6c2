"""Numbers are read from and written to text exactly"""
from specs.numbers import *

SRC = ['raw_convert.cc', 'locale_convert.cc']
DRV = {'time': Driver('time', ['dcp_time.cc', 'raw_convert.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lfmt', '-lboost_filesystem'])}
# name for the driver, name in the program, width, signed
TYPES = [('uchar', 'unsigned char', 8, 0), ('ushort', 'unsigned short', 16, 0), ('int', 'int', 32, 1), ('uint', 'unsigned int', 32, 0), ('long', 'long', 64, 1), ('ulong', 'unsigned long', 64, 0),
         ('llong', 'long long', 64, 1), ('ullong', 'unsigned long long', 64, 0)]


def limits(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)




def is_type(p, t, w, s):
    return p.k == 'int' and p.w == w and bool(p.s) == bool(s)


def run_read(fn, w, s, name, ptr=False):
    def run(I, i):
        want = lambda f: is_type(f['ret'], name, w, s) and ('string' in f['params'][0]['t'].key) == (not ptr)
        fs = [f for f in I.prog.by_name['dcp::' + fn] if f.get('body') is not None and len(f['params']) == 3 and want(f)]
        fs = [f for f in fs if mangled(f, fn, name)] or fs
        return {'r': I.rv(I.call(fs[0], None, [i['s'].copy(I), 16, False]))}
    return run


MANGLED = {'unsigned char': 'h', 'unsigned short': 't', 'int': 'i', 'unsigned int': 'j', 'long': 'l', 'unsigned long': 'm', 'long long': 'x', 'unsigned long long': 'y'}


def mangled(f, fn, name):
    """long and long long are different functions of one width"""
    return ('%d%sI%sN' % (len(fn), fn, MANGLED[name])) in f['key']


def post_read(w, s):
    lo, hi = limits(w, s)

    def post(C, i, o):
        return [('no-exception', o['exc'] is None), ('value-of-the-longest-prefix', lambda: eq(o['r'], prefix([C.at(i['s'], k) for k in range(C.len(i['s']))], lo, hi)))]
    return post


def run_write(name, w, s):
    def run(I, i):
        fs = [f for f in I.prog.by_name['dcp::locale_convert'] if f.get('body') is not None and is_type(f['params'][0]['t'], name, w, s) and f['key'].count('E%si' % MANGLED[name]) + f['key'].count('EE%s' % MANGLED[name])]
        return {'s': I.rv(I.call([f for f in fs if written(f, name)][0], None, [i['v'], 16, False]))}
    return run


def written(f, name):
    return ('EE%s' % MANGLED[name]) in f['key'] and 'locale_convertINSt7__cxx1112basic_string' in f['key']


def run_trip(name, w, s):
    write = run_write(name, w, s)

    def run(I, i):
        t = write(I, i)['s']
        fs = [f for f in I.prog.by_name['dcp::locale_convert'] if f.get('body') is not None and is_type(f['ret'], name, w, s) and mangled(f, 'locale_convert', name)]
        return {'r': I.rv(I.call(fs[0], None, [t.copy(I), 16, False]))}
    return run


def post_trip(C, i, o):
    return [('no-exception', o['exc'] is None), ('reads-what-was-written', lambda: eq(o['r'], i['v']))]


def post_write(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    n, v = C.len(o['s']), i['v']
    if not C.sym:
        return [('decimal-text', show(o['s']) == str(v))]
    c0 = C.at(o['s'], 0)
    neg = not is_sym(c0) and c0 == 45
    ds = [C.at(o['s'], k) for k in range(1 if neg else 0, n)]
    x = 0
    for c in ds:
        x = x * 10 + (c - 48)
    return [('decimal-text', And(eq(-x if neg else x, v), *[digit(c) for c in ds] + ([ne(ds[0], 48)] if len(ds) > 1 or neg else [])))]


def sample_num(w, s):
    lo, hi = limits(w, s)

    def f(r):
        k = r.random()
        v = r.choice([lo, hi, hi + 1, lo - 1, 0, 1, -1, 9, 10, r.randint(lo, hi), r.randint(0, 300), hi * 10])
        t = str(v)
        if k < 0.2:
            t += r.choice(['x', ' ', '.5', '-', '0'])
        elif k < 0.3:
            t = r.choice(['', '-', '+1', ' 1', 'x', '--1', '0012', '-0'])
        return {'s': S(t[:len(str(hi)) + 2])}
    return f


def numbers(lo, hi):
    return IntIn('v', lo, hi, [x for x in (0, 1, 127, 128, 255, 9, 10, 32768, 65535) if x <= hi])


contracts = []
for n, t, w, s in TYPES:
    lo, hi = limits(w, s)
    if n != 'uint':
        contracts.append(Contract('read-' + n, SRC, [VarStrIn('s', 0, len(str(hi)) + 1)], run_read('raw_convert', w, s, t), post_read(w, s), driver='time', op='read_' + n, outs=[('r', 'int')], sample=sample_num(w, s)))
    contracts.append(Contract('write-' + n, SRC, [numbers(lo, hi)], run_write(t, w, s), post_write, driver='time', op='write_' + n, outs=[('s', 'str')]))
    if n != 'ullong':
        contracts.append(Contract('trip-' + n, SRC, [numbers(lo, hi)], run_trip(t, w, s), post_trip, driver='time', op='trip_' + n, outs=[('r', 'int')]))
SPEC = Spec('P23', contracts, DRV, ['fast_float::from_chars reads the longest prefix which is a number'])
