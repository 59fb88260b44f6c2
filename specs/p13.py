"""File system requests are passed on exactly, paths are made canonical lexically"""
from vc.contract import *
from vc import lib_fs
from vc.lib_fs import PathObj, Parts, FAIL

SRC = ['filesystem.cc']
B = '_ZN5boost10filesystem6detail'
E = 'PNS_6system10error_codeE'
WRAP = [B + x for x in (
    '10remove_allERKNS0_4pathE' + E, '11permissionsERKNS0_4pathENS0_5permsE' + E, '11resize_fileERKNS0_4pathEm' + E, '12copy_symlinkERKNS0_4pathES4_' + E,
    '12current_pathE' + E, '12current_pathERKNS0_4pathE' + E, '14copy_directoryERKNS0_4pathES4_' + E, '14create_symlinkERKNS0_4pathES4_' + E, '14symlink_statusERKNS0_4pathE' + E,
    '15hard_link_countERKNS0_4pathE' + E, '15last_write_timeERKNS0_4pathE' + E, '15last_write_timeERKNS0_4pathEl' + E, '15system_completeERKNS0_4pathE' + E,
    '16create_directoryERKNS0_4pathEPS3_' + E, '16create_hard_linkERKNS0_4pathES4_' + E, '16weakly_canonicalERKNS0_4pathES4_' + E, '18create_directoriesERKNS0_4pathE' + E,
    '24create_directory_symlinkERKNS0_4pathES4_' + E, '4copyERKNS0_4pathES4_j' + E, '5spaceERKNS0_4pathE' + E, '6removeERKNS0_4pathE' + E, '6renameERKNS0_4pathES4_' + E,
    '6statusERKNS0_4pathE' + E, '8absoluteERKNS0_4pathES4_' + E, '8is_emptyERKNS0_4pathE' + E, '9canonicalERKNS0_4pathES4_' + E, '9copy_fileERKNS0_4pathES4_j' + E,
    '9file_sizeERKNS0_4pathE' + E)]
DRV = {'fs': Driver('fs', SRC, ['-lboost_filesystem'] + ['-Wl,--wrap=' + w for w in WRAP])}
NS = 'dcp::filesystem::'
HUGE = (1 << 62)
# function, paths, takes an error code, request to the system, result
STAT = {'exists': lambda t: t != 1, 'is_directory': lambda t: t == 3, 'is_regular_file': lambda t: t == 2}
FUNCS = [('exists', 1, 0, 'status', 'type'), ('exists', 1, 1, 'status', 'type'), ('is_directory', 1, 0, 'status', 'type'), ('is_regular_file', 1, 0, 'status', 'type'),
         ('is_empty', 1, 0, None, 'bool'), ('create_directory', 1, 0, None, 'bool'), ('create_directory', 1, 1, None, 'bool'), ('copy', 2, 0, None, None),
         ('copy_file', 2, 0, None, None), ('copy_file', 2, 1, None, None), ('copy_file', 2, 2, None, None), ('create_directories', 1, 0, None, 'bool'), ('create_directories', 1, 1, None, 'bool'),
         ('absolute', 1, 0, None, 'path'), ('canonical', 1, 0, None, 'path'), ('remove', 1, 0, None, 'bool'), ('remove', 1, 1, None, 'bool'), ('remove_all', 1, 0, None, 'int'),
         ('remove_all', 1, 1, None, 'int'), ('file_size', 1, 0, None, 'int'), ('file_size', 1, 1, None, 'int'), ('current_path', 1, 0, 'set_current_path', None),
         ('create_hard_link', 2, 0, None, None), ('create_hard_link', 2, 1, None, None), ('create_symlink', 2, 1, None, None), ('space', 1, 0, None, 'space'),
         ('last_write_time', 1, 0, None, 'int'), ('last_write_time', 1, 1, None, 'int'), ('hard_link_count', 1, 0, None, 'int'), ('rename', 2, 0, None, None), ('rename', 2, 1, None, None)]
RESULT = S('/re/sult')


def path(s):
    return Lib('path', s=s)


def run_fs(spec):
    name, n, ec, req, kind = spec

    def run(I, i):
        I.opts['fs'] = {'fail': i['fail'], 'answer': i['answer'], 'type': i['type'], 'cwd': S('/c/wd'), 'result': RESULT}
        code = Lib('boost::system::error_code', value=99)
        args = [ObjLV(path(i['p'].copy(I))), ObjLV(path(i['q'].copy(I)))][:n]
        want = lambda f: len(f['params']) == n + (1 if ec else 0)
        if ec == 1:
            args.append(ObjLV(code))
            want = lambda f: len(f['params']) == n + 1 and 'error_code' in f['params'][n]['t'].key
        elif ec == 2:
            args.append(I.prog.type(NS + 'CopyOptions').cs['OVERWRITE_EXISTING' if i['overwrite'] else 'NONE'])
            want = lambda f: len(f['params']) == n + 1 and 'error_code' not in f['params'][n]['t'].key
        thrown, r = False, None
        try:
            r = I.rv(I.call_named(NS + name, None, args, pick=want))
        except CppThrow:
            thrown = True
        c = [x for x in lib_fs.calls(I)]
        return {'thrown': thrown, 'r': value(kind, r) if not thrown else [], 'ec': code.value, 'calls': [(x[0], list(x[1]), x[2]) for x in c]}
    return run


def value(kind, r):
    if kind is None:
        return []
    if kind == 'path':
        return [r.s]
    if kind == 'space':
        return [r.capacity, r.free, r.available]
    return [r]


def post_fs(spec):
    name, n, ec, req, kind = spec

    def post(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        r = [('failure-is-reported-once', Iff(o['thrown'], And(i['fail'], ec != 1)))]
        if ec == 1:
            r.append(('error-code', eq(o['ec'], If(i['fail'], FAIL, 0))))
        r.append(('one-request', len(o['calls']) == 1))
        if len(o['calls']) == 1:
            op, ps, flags = o['calls'][0]
            r.append(('the-request', op == (req or name)))
            r.append(('its-paths', And(len(ps) == n, *[C.streq(a, b) for a, b in zip(ps, [i['p'], i['q']])])))
            if name == 'copy_file':
                r.append(('overwrites-only-if-asked', eq(flags, 2 if ec == 2 and i['overwrite'] else 0)))
            elif name == 'copy':
                r.append(('no-options', eq(flags, 0)))
        if not o['thrown'] and kind is not None:
            ok = Not(i['fail']) if C.sym else not i['fail']
            v = o['r']
            a = i['answer']
            if kind == 'type':
                r.append(('result', Iff(v[0], And(ok, STATSYM[name](i['type'])))))
            elif kind == 'bool':
                r.append(('result', Iff(v[0], And(ok, Not(eq(a, 0))))))
            elif kind == 'int':
                r.append(('result', Implies(ok, eq(v[0], a))))
            elif kind == 'path':
                r.append(('result', C.streq(v[0], RESULT)))
            elif kind == 'space':
                r.append(('result', Implies(ok, And(eq(v[0], a), eq(v[1], a + 1), eq(v[2], a + 2)))))
        return r
    return post


STATSYM = {'exists': lambda t: Not(eq(t, 1)), 'is_directory': lambda t: eq(t, 3), 'is_regular_file': lambda t: eq(t, 2)}


def parse_fs(kind):
    def parse(tok):
        o = {'thrown': tok[0] == '1', 'ec': int(tok[1])}
        n = int(tok[2])
        o['r'] = [dec1(x, 'str') if kind == 'path' else x == '1' if kind in ('bool', 'type') else int(x) for x in tok[3:3 + n]]
        p = 3 + n
        o['calls'] = []
        for _ in range(int(tok[p])):
            k = int(tok[p + 2])
            o['calls'].append((tok[p + 1], [dec1(x, 'str') for x in tok[p + 3:p + 3 + k]], int(tok[p + 3 + k])))
            p += 3 + k
        return o
    return parse


def fs(spec):
    name, n, ec, req, kind = spec
    nm = name + ('' if n == 1 and name != 'current_path' or n == 2 else '') + ['', '-with-error-code', '-with-options'][ec]
    enc = lambda i: '%s %d %d %d %d %d %s %s' % (name, ec, i['fail'], i['answer'], i['type'], i['overwrite'], hexs(i['p']), hexs(i['q']))
    return Contract(nm, SRC, [StrIn('p', alphabet='ab/.', minlen=1, examples=['a', 'b/c', 'a.b']), StrIn('q', alphabet='ab/.', minlen=1, examples=['d', 'e/f']), BoolIn('fail'),
                              IntIn('answer', 0, HUGE, [0, 1, 2]), ChoiceIn('type', [1, 2, 3, 4, 9]), ChoiceIn('overwrite', [False, True])], run_fs(spec), post_fs(spec),
                    pre=lambda C, i: And(i['p'].length() > 0, i['q'].length() > 0), driver='fs', op='fs', enc=enc, parse=parse_fs(kind), nsamples=60)


def run_cwd(I, i):
    I.opts['fs'] = {'cwd': i['cwd']}
    r = I.rv(I.call_named(NS + 'current_path', None, [], 0))
    return {'r': r.s, 'n': len(lib_fs.calls(I))}


def run_lexical(I, i):
    def h(I, op, s, args):
        if s.concrete_len and s.pystr() is not None:
            return S(py_lexical(op, s.pystr(), [a.pystr() for a in args]))
        r = Str([View(z3.Array(I.P.fresh('text'), z3.IntSort(), z3.IntSort()), 0, I.P.fresh_int('textlen', 0, 1 << 40))])
        I.lex.append((op, s.copy(I), [a.copy(I) for a in args], r.copy(I)))
        return r
    I.lex = []
    I.opts['lexical'] = h
    p = path(i['p'].copy(I))
    before = p.s.copy(I)
    if i['what']:
        r = I.rv(I.call_named(NS + 'extension', None, [ObjLV(p)]))
    else:
        r = I.rv(I.call_named(NS + 'change_extension', None, [ObjLV(p), ObjLV(i['e'].copy(I))])).s
    return {'r': r, 'same': str_same(I, p.s, before), 'log': list(I.lex)}


def str_same(I, a, b):
    from vc.lib import str_eq
    return str_eq(I, a, b)


def py_lexical(op, s, args):
    """boost::filesystem v3, POSIX"""
    name = s.rsplit('/', 1)[-1]
    if s.endswith('/'):
        name = '.' if s.strip('/') else '/'
    dot = name.rfind('.')
    ext = name[dot:] if dot >= 0 and name not in ('.', '..') else ''
    if op == 'extension':
        return ext
    if op == 'replace_extension':
        base = s[:len(s) - len(ext)] if ext else s
        e = args[0]
        return base + ('' if not e or e.startswith('.') else '.') + e
    raise Unsupported(op)


def post_lexical(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    op = 'extension' if i['what'] else 'replace_extension'
    r = [('argument-kept', o['same'])]
    if not C.sym:
        return r + [('result', C.streq(o['r'], py_lexical(op, i['p'].pystr(), [i['e'].pystr()])))]
    r.append(('one-step', len(o['log']) == 1))
    for x, s, args, res in o['log']:
        r += [('step', x == op), ('of-the-path', C.streq(s, i['p'])), ('result', C.streq(o['r'], res)), ('with-the-extension', And(*[C.streq(a, i['e']) for a in args]))]
    return r


def run_iter(I, i):
    rec = i['recursive']
    cls = NS + ('recursive_' if rec else '') + 'directory_iterator'
    bcls = 'boost::filesystem::' + ('recursive_' if rec else '') + 'directory_iterator'
    n = i['n'] if not i['mutable_dir'] else i['n']
    I.opts['fs'] = {'entries': n, 'fail': False}
    t = I.prog.type(cls)
    o = {}
    mk = lambda: I.construct(I.prog.find(cls + '::' + cls.rsplit('::', 1)[-1], 1, lambda f: 'path' in f['params'][0]['t'].key), t, [ObjLV(path(S('dir')))])
    it = mk()
    w = [v for v in it.fields.values() if isinstance(v, Lib) and v.cls == bcls]
    if len(w) != 1:
        raise Unsupported('iterator is not a wrapped iterator')
    o['opened'] = [(c[0], c[1][0]) for c in lib_fs.calls(I)]
    o['starts'] = And(Not(w[0].end), eq(w[0].pos, 0))
    w[0].pos = i['pos']
    pk = lambda f: cls in f['params'][0]['t'].key and ('recursive' in f['params'][0]['t'].key) == rec
    end = I.rv(I.call_named(NS + 'end', None, [ObjLV(it)], 1, pk))
    b = I.rv(I.call_named(NS + 'begin', None, [ObjLV(it)], 1, pk))
    o['begins-here'] = And(Not([v for v in b.fields.values() if isinstance(v, Lib) and v.cls == bcls][0].end), eq([v for v in b.fields.values() if isinstance(v, Lib) and v.cls == bcls][0].pos, i['pos']))
    o['more'] = I.rv(I.call_named(cls + '::operator!=', it, [ObjLV(end)]))
    pth = lambda e: I.rv(I.call_named(NS + 'directory_entry::path', e, [])).s
    o['star'], o['arrow'], o['conv'], o['next'] = [], [], [], []
    if I.P.branch(i['pos'] < n):
        e = I.rv(I.call_named(cls + '::operator*', it, []))
        o['star'] = [pth(e)]
        o['conv'] = [I.rv(I.call(I.prog.find(NS + 'directory_entry::operator const boost::filesystem::path &', 0), e, [])).s]
        it2 = mk()
        w2 = [v for v in it2.fields.values() if isinstance(v, Lib) and v.cls == bcls]
        w2[0].pos = i['pos']
        o['arrow'] = [pth(I.deref(I.rv(I.call_named(cls + '::operator->', x, []))).get()) for x in (it2, it)]
        x = I.rv(I.call_named(cls + '::operator++', it, [], 0))
        wx = [v for v in x.fields.values() if isinstance(v, Lib) and v.cls == bcls][0]
        o['next'] = [wx.pos, w[0].pos if w[0] in it.fields.values() else -5]
    for k in ('star', 'arrow', 'conv'):
        o[k] = [x.at(I, 0) for x in o[k]]
    return o


def post_iter(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    want = 'open-' + ('recursive_' if i['recursive'] else '') + 'directory_iterator'
    if not C.sym:
        k = i['pos']
        return [('more', o['more'] == (k < i['n']))] + [(x, o[x] == ([k] * m if k < i['n'] else [])) for x, m in (('star', 1), ('arrow', 2), ('conv', 1))] + [('next', o['next'] == ([k + 1] * 2 if k < i['n'] else []))]
    r = [('opens-the-directory', And(len(o['opened']) == 1, *[And(x == want, C.streq(p, 'dir')) for x, p in o['opened']])), ('starts-at-the-first', o['starts']), ('begin', o['begins-here']),
         ('more', Iff(o['more'], i['pos'] < i['n']))]
    for x in ('star', 'arrow', 'conv'):
        r += [('entry-by-' + x, eq(v, i['pos'])) for v in o[x]]
    r += [('next', eq(v, i['pos'] + 1)) for v in o['next']]
    return r


# ---------------------------------------------------------------- weakly_canonical
II = z3.ArraySort(z3.IntSort(), z3.IntSort())
PART = z3.Array('PART', z3.IntSort(), z3.IntSort())
SYM = z3.Function('is_symlink', II, z3.IntSort(), z3.BoolSort())
GA, GD = z3.Function('stack', z3.IntSort(), II), z3.Function('depth', z3.IntSort(), z3.IntSort())
EMPTY = z3.K(z3.IntSort(), z3.IntVal(-1))
DOT, DOTDOT = 0, 1


def definition(k):
    """the stack after k + 1 parts from the stack after k, k >= 1"""
    p, a, d = PART[k], GA(k), GD(k)
    keep = z3.And(GA(k + 1) == a, GD(k + 1) == d)
    push = z3.And(GA(k + 1) == z3.Store(a, d, p), GD(k + 1) == d + 1)
    pop = z3.And(GA(k + 1) == a, GD(k + 1) == d - 1)
    up = z3.If(z3.And(d > 0, z3.Or(SYM(a, d), a[d - 1] == DOTDOT)), push, z3.If(d > 0, pop, keep))
    return z3.And(GA(1) == EMPTY, GD(1) == 0, z3.Implies(k >= 1, z3.If(p == DOTDOT, up, z3.If(p == DOT, keep, push))), GD(k) >= 0, PART[k] >= 0)


class PathIn(In):
    """an absolute path and which paths are symbolic links"""
    name = 'p'

    def sym(self, P):
        n = P.fresh_int('parts', 1, 1 << 30, exact=True)
        P.ex.shrink.append(n)
        return Lib('abs', n=n, parts=None, links=None)

    def concrete(self, m, v):
        n = m.eval(v.n, model_completion=True).as_long()
        if n > 200:
            raise Unsupported('counterexample too long')
        nm = lambda x: {0: '.', 1: '..'}.get(x, 'p%d' % x)
        parts = [nm(max(0, m.eval(PART[k], model_completion=True).as_long())) for k in range(1, n)]
        links, a, st = set(), EMPTY, []
        ids = [max(0, m.eval(PART[k], model_completion=True).as_long()) for k in range(1, n)]
        for x in ids:
            link = bool(st) and z3.is_true(m.eval(SYM(a, z3.IntVal(len(st))), model_completion=True))
            if link:
                links.add('/' + '/'.join(map(nm, st)))
            if x == 1 and not link and not (st and st[-1] == 1):
                if st:
                    st.pop()
            elif x != 0:
                a = z3.Store(a, len(st), x)
                st.append(x)
        return Lib('abs', n=n, parts=parts, links=sorted(links))

    def sample(self, r):
        parts = [r.choice(['a', 'b', '.', '..', '..', 'c']) for _ in range(r.randint(0, 8))]
        links = sorted(set('/' + '/'.join(r.choice('abc') for _ in range(r.randint(1, 2))) for _ in range(r.randint(0, 3))))
        return Lib('abs', n=len(parts) + 1, parts=parts, links=links)

    def enc(self, v):
        return hexs('/' + '/'.join(v.parts)) + ' %d ' % len(v.links) + ' '.join(hexs(x) for x in v.links)


def stack_text(p, names):
    return ('/' if p.root else '') + '/'.join(names[lib_fs.sel(p.arr, k)] for k in range(p.d))


def run_weak(I, i):
    v = i['p']
    I.opts['paths'] = 'stack'
    conc = v.parts is not None
    given = PathObj(False, z3.Array('given', z3.IntSort(), z3.IntSort()), z3.Int('given_depth') if not conc else 0)
    I.given = given.copy(I)
    names = {}
    if conc:
        ids = [lib_fs.part_id(x) for x in v.parts]
        names = dict(zip(ids, v.parts))
        names[1] = '..'
        part = lambda I, k: PathObj(True) if k == 0 else PathObj(False, z3.Store(EMPTY, 0, ids[k - 1]), 1)
        I.opts['symlink'] = lambda I, p: stack_text(p, names) in v.links
    else:
        def part(I, k):
            I.P.assume(num(PART[k] if is_sym(k) else PART[k]) >= 0)
            if I.P.branch(eq(k, 0)):
                return PathObj(True)
            return PathObj(False, z3.Store(EMPTY, 0, PART[k]), 1)

        def symlink(I, p):
            # the root directory is not a symbolic link
            return And(num(p.d) > 0, SYM(p.arr, num(p.d)))
        I.opts['symlink'] = symlink

    def complete(I):
        c = PathObj(True, z3.Array('complete', z3.IntSort(), z3.IntSort()), v.n - 1)
        c.parts = Parts(v.n, part)
        return c
    I.opts['complete'] = complete
    r = I.rv(I.call_named(NS + 'weakly_canonical', None, [ObjLV(given)]))
    c = [x for x in lib_fs.calls(I)]
    if conc:
        return {'text': S(stack_text(r, names))}
    return {'r': r, 'calls': c}


def weak_invariants(I, L):
    out = []
    paths = [(nm, I.registry[nm]) for nm, key in L.locs if isinstance(I.registry[nm], PathObj)]
    for q in list(L.entry):
        x = L.entry[q]
        if isinstance(x, bool) or x is UNINIT or not (isinstance(x, int) or is_sym(x) and z3.is_int(x)):
            continue
        for nm, p in paths:
            def inv(q=q, p=p):
                k = num(L.now[q])
                I.P.assume(definition(k))
                return And(k >= 0, Iff(p.root, k >= 1), If(k >= 1, And(eq(p.d, GD(k)), p.arr == GA(k)), And(eq(p.d, 0), p.arr == EMPTY)))
            out.append(('%s has %s parts' % (nm, q), inv))
    return out


def post_weak(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    if not C.sym:
        st = []
        for x in i['p'].parts:
            if x == '..':
                here = '/' + '/'.join(st)
                if st and (here in i['p'].links or st[-1] == '..'):
                    st.append(x)
                elif st:
                    st.pop()
            elif x != '.':
                st.append(x)
        return [('canonical', C.streq(o['text'], '/' + '/'.join(st)))]
    n, r = i['p'].n, o['r']
    C.I.P.assume(definition(num(n)))
    given = And(len(o['calls']) == 1, *[And(c[0] == 'system_complete', eq(c[1][0].d, C.I.given.d), c[1][0].arr == C.I.given.arr) for c in o['calls']])
    return [('completes-the-path-given', given), ('absolute', r.root), ('as-many-parts', eq(r.d, GD(num(n)))), ('the-parts', C.forall(simp(r.d), lambda k: z3.Select(r.arr, num(k)) == z3.Select(GA(num(n)), num(k))))]


SPEC = Spec('P13', [fs(s) for s in FUNCS] + [
    Contract('working-directory', SRC, [StrIn('cwd', alphabet='ab/')], run_cwd, lambda C, i, o: [('no-exception', o['exc'] is None), ('result', lambda: C.streq(o['r'], i['cwd'])), ('nothing-changed', lambda: o['n'] == 0)],
             driver='fs', op='cwd', outs=[('r', 'str'), ('n', 'int')]),
    Contract('extensions', SRC, [StrIn('p', alphabet='ab./', examples=['a.xml', 'b/c.d/e', 'a/.b', '..', 'x.']), StrIn('e', alphabet='.xm', smax=4, examples=['.xml', 'xml', '']), ChoiceIn('what', [False, True])], run_lexical, post_lexical,
             pre=lambda C, i: C.sym or '//' not in i['p'].pystr(), driver='fs', op='lexical', outs=[('r', 'str'), ('same', 'bool')]),
    Contract('directory-iteration', SRC, [IntIn('n', 0, 1 << 30), IntIn('pos', 0, 1 << 30), ChoiceIn('recursive', [False, True]), ChoiceIn('mutable_dir', [False])], run_iter, post_iter, pre=lambda C, i: And(i['pos'] <= i['n'], C.sym or i['n'] < 20),
             sample=lambda r: (lambda n: {'n': n, 'pos': r.randint(0, n)})(r.randint(0, 5)), driver='fs', op='iter',
             enc=lambda i: '%d %d %d' % (i['n'], i['pos'], i['recursive']), outs=[('more', 'bool'), ('star', 'ints'), ('arrow', 'ints'), ('conv', 'ints'), ('next', 'ints')], nsamples=60),
    Contract('weakly_canonical', SRC, [PathIn()], run_weak, post_weak, driver='fs', op='weak', outs=[('text', 'str')], cut_after=1, loop_invs=[('*', weak_invariants)]),
], DRV, ['boost::filesystem is assumed to do what it is asked; what is proved is that it is asked exactly once, with the right arguments, and its answer passed on',
         'paths are made absolute and split into parts by boost::filesystem; the root directory is not a symbolic link', 'exception objects are opaque'])
