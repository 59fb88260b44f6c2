"""Expansion of file name templates"""
from vc.contract import *
from vc import ast as vast

SRC = ['name_format.cc']
DRV = {'tables': Driver('tables', ['h_align.cc', 'v_align.cc', 'content_kind.cc', 'subtitle_standard.cc', 'name_format.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lboost_filesystem', '-lfmt'])}
II = z3.ArraySort(z3.IntSort(), z3.IntSort())


def clean(c):
    """a character as it may appear in a file name"""
    return If(Or(eq(c, ord('/')), eq(c, ord(':'))), ord('-'), If(eq(c, ord(' ')), ord('_'), c))


class MapIn(In):
    """std::map<char, string> with any content"""

    def __init__(self, name, keys='abct%', **kw):
        self.name, self.keys = name, keys
        self.val = StrIn('', **kw)

    def sym(self, P):
        m = MapObj(None, [])
        m.present = z3.Array(self.name + '_has', z3.IntSort(), z3.BoolSort())
        m.lens = z3.Array(self.name + '_len', z3.IntSort(), z3.IntSort())
        m.vals = z3.Array(self.name + '_val', z3.IntSort(), II)
        k = z3.Int('anykey')
        P.assume(z3.ForAll([k], z3.And(m.lens[k] >= 0, m.lens[k] < 1 << 40), patterns=[m.lens[k]]))
        m.lazy = lambda I, key: (m.present[num(key)], Str([View(z3.Select(m.vals, num(key)), 0, m.lens[num(key)])]))
        return m

    def concrete(self, mod, m):
        r = MapObj(None, [])
        for k in range(-128, 128):
            if z3.is_true(mod.eval(m.present[k], model_completion=True)):
                n = mod.eval(m.lens[k], model_completion=True).as_long()
                if n > 2000:
                    raise Unsupported('counterexample too long')
                n = max(0, n)
                r.items.append([k, Str([[max(-128, min(127, mod.eval(m.vals[k][j], model_completion=True).as_long())) for j in range(n)]]).norm()])
        return r

    def sample(self, r):
        m = MapObj(None, [])
        for k in self.keys:
            if r.random() < 0.5:
                m.items.append([ord(k), self.val.sample(r)])
        return m

    def enc(self, m):
        return '%d %s' % (len(m.items), ' '.join('%d %s' % (k, hexs(v)) for k, v in m.items))


def ghosts():
    return z3.Function('OFF', z3.IntSort(), z3.IntSort()), z3.Function('START', z3.IntSort(), z3.BoolSort()), z3.Array('OUT', z3.IntSort(), z3.IntSort()), \
        z3.Function('IGN', z3.IntSort(), z3.BoolSort()), z3.Function('IGNAT', z3.IntSort(), z3.IntSort())


def define(I, i):
    """The expansion as ghost state: OUT is the expanded text, OFF(k) how much of it comes from the first k characters
    of the template, START(k) that a token starts at k.  Defined token by token (see unfold)."""
    OFF, START, OUT, IGN, AT = ghosts()
    P = I.P
    P.assume(z3.And(OFF(0) == 0, START(0)))
    c = z3.Int('anychar')
    k = z3.Int('anyplace')
    g = i['ignore'].parts[0]
    P.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < g.n), IGN(g.arr[k])), patterns=[g.arr[k]]))
    P.assume(z3.ForAll([c], z3.Implies(IGN(c), z3.And(AT(c) >= 0, AT(c) < g.n, g.arr[AT(c)] == c)), patterns=[IGN(c)]))
    I.ghost_in = i


def unfold(I, p):
    """definition of the ghosts at template position p"""
    OFF, START, OUT, IGN, AT = ghosts()
    i = I.ghost_in
    sp = i['spec'].parts[0]
    ch = I.select_char(sp.arr, p)
    key = I.select_char(sp.arr, simp(p + 1))
    m = i['values']
    rep = z3.And(ch == ord('%'), p + 1 < sp.n, m.present[key], z3.Not(IGN(key)))
    k = z3.Int('anyplace')
    L = m.lens[key]
    I.P.assume(z3.Implies(z3.And(START(p), p >= 0, p < sp.n), z3.If(
        rep, z3.And(START(p + 2), OFF(p + 2) == OFF(p) + L, z3.ForAll([k], z3.Implies(z3.And(k >= OFF(p), k < OFF(p) + L), OUT[k] == clean(m.vals[key][k - OFF(p)])), patterns=[OUT[k]])),
        z3.And(START(p + 1), OFF(p + 1) == OFF(p) + 1, OUT[OFF(p)] == clean(ch)))))


def run(I, i):
    sym = not isinstance(i['values'].items, list) or i['values'].lazy is not None
    if sym:
        define(I, i)
    t = I.prog.type('dcp::NameFormat')
    f = I.construct(I.prog.find('dcp::NameFormat::NameFormat', 1, lambda f: 'NameFormat' not in f['params'][0]['t'].key), t, [i['spec'].copy(I)])
    r = I.rv(I.call_named('dcp::NameFormat::get', f, [i['values'].copy(I), i['suffix'].copy(I), i['ignore'].copy(I)]))
    return {'name': r, 'specification': I.rv(I.call_named('dcp::NameFormat::specification', f, []))}


def invariants(I, L):
    """template loop: some string is the expansion of what some index has passed; copying loop: some string is the
    cleaned beginning of another one"""
    OFF, START, OUT, IGN, AT = ghosts()
    out = []
    strs = [k for k in L.entry if isinstance(L.entry[k], tuple) and L.entry[k][0] == 'str']
    ints = [k for k in L.entry if not isinstance(L.entry[k], (tuple, bool)) and L.entry[k] is not UNINIT and L.entry[k] is not None and (isinstance(L.entry[k], int) or z3.is_int(L.entry[k]))]
    def whole(s, p):
        def f():
            x = L.now[s][1]
            q = num(L.now[p])
            if is_sym(L.now[p]) and not z3.is_int(L.now[p]):
                return None
            unfold(I, q)
            k = z3.Int('place')
            n = num(x.length())
            return z3.And(START(q), q >= 0, OFF(q) == n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), num(x.at(I, k)) == OUT[k])))
        return f

    def part(s, p, src):
        def f():
            x, e = L.now[s][1], L.entry[s][1]
            q = num(L.now[p])
            k = z3.Int('place')
            v = src.parts[0]
            n = num(e.length())
            return z3.And(q >= 0, q <= v.n, num(x.length()) == n + q, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), num(x.at(I, k)) == num(e.at(I, k)))),
                          z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < q), num(x.at(I, simp(n + k))) == clean(v.arr[v.off + k]))))
        return f
    written = {k[0] for k in L.entry}
    for s in strs:
        frame = s[0].rsplit('.', 1)[0]
        srcs = [(nm, o) for nm, o in I.registry.items() if isinstance(o, Str) and nm not in written and nm.startswith(frame) and len(o.parts) == 1 and isinstance(o.parts[0], View)
                and not any(o.parts[0].arr.eq(I.ghost_in[x].parts[0].arr) for x in ('spec', 'suffix', 'ignore'))]
        for p in ints:
            if not srcs:
                out.append(('expanded %s %s' % (s, p), whole(s, p)))
            for nm, o in srcs:
                out.append(('copied %s %s %s' % (s, p, nm), part(s, p, o)))
    return out


def expand(spec, values, ignore):
    r = []
    k = 0
    vals = {kk: v.chars() for kk, v in values.items}
    while k < len(spec):
        if spec[k] == ord('%') and k + 1 < len(spec) and spec[k + 1] in vals and spec[k + 1] not in ignore:
            r += [clean(c) for c in vals[spec[k + 1]]]
            k += 2
        else:
            r.append(clean(spec[k]))
            k += 1
    return r


def post(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    same = ('template-kept', C.streq(o['specification'], i['spec']))
    if not C.sym:
        want = expand(i['spec'].chars(), i['values'], i['ignore'].chars()) + i['suffix'].chars()
        return [('no-exception', True), ('expansion', o['name'].chars() == want), same]
    OFF, START, OUT, IGN, AT = ghosts()
    n = num(i['spec'].length())
    total = OFF(n)
    unfold(C.I, n)
    name, suf = o['name'], i['suffix']
    k = C.I.P.fresh_int('any', 0, None)
    return [('no-exception', True), same,
            ('length', eq(name.length(), total + num(suf.length()))),
            ('expansion', Implies(k < total, eq(name.at(C.I, k), OUT[k]))),
            ('suffix-unchanged', Implies(k < num(suf.length()), eq(name.at(C.I, simp(total + k)), suf.at(C.I, k))))]


def run_eq(I, i):
    t = I.prog.type('dcp::NameFormat')
    x = I.construct(I.prog.find('dcp::NameFormat::NameFormat', 1, lambda f: 'NameFormat' not in f['params'][0]['t'].key), t, [i['a'].copy(I)])
    y = I.construct(I.prog.find('dcp::NameFormat::NameFormat', 0), t, [])
    I.call_named('dcp::NameFormat::set_specification', y, [i['b'].copy(I)])
    return {'eq': I.rv(I.call(I.prog.find('dcp::operator==', 2, lambda f: 'NameFormat' in f['params'][0]['t'].key), None, [ObjLV(x), ObjLV(y)])),
            'spec': I.rv(I.call_named('dcp::NameFormat::specification', y, []))}


EX = ['%c_%t', 'a%c', '%', '%%', 'x%', '%c%c', '%z/%t', 'pkl_%t.xml', 'a:b c']
SPEC = Spec('P08', [
    Contract('expansion', SRC, [StrIn('spec', alphabet='%ct/: a', examples=EX), MapIn('values', alphabet='ab/: %c.', examples=['x y', 'a/b', '', '%c']), StrIn('suffix', alphabet='.xml /', examples=['.xml', '']),
                                StrIn('ignore', alphabet='ct%', examples=['', 'c', 'ct'], smax=3)], run, post,
             driver='tables', op='name', outs=[('name', 'str'), ('specification', 'str')], cut_after=2, loop_invs=[('*', invariants)]),
    Contract('template-equality', SRC, [StrIn('a', alphabet='ab', smax=3), StrIn('b', alphabet='ab', smax=3)], run_eq,
             lambda C, i, o: [('no-exception', o['exc'] is None), ('equal-iff-same-template', lambda: Iff(o['eq'], C.streq(i['a'], i['b']))), ('set', lambda: C.streq(o['spec'], i['b']))],
             driver='tables', op='nameeq', outs=[('eq', 'bool'), ('spec', 'str')]),
], DRV, ['std::map<char, string> is any function from keys to strings', 'exception objects are opaque'])
