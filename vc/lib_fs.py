"""Assumed contracts of boost::filesystem.  Functions that ask or change the file system are recorded, with their
arguments, in world(I).fs and succeed or fail as the environment I.opts['fs'] says; nothing is modelled of what a file
system does.  Paths are text, except when I.opts['paths'] == 'stack': then a path is a root mark and a stack of parts."""
import z3
from .core import *
from .sym import *
from .values import *
from .lib import model, ctor, V, throw, tostr, str_eq, H, Library
from .lib_stdio import world
from . import ast as vast

NS = 'boost::filesystem::'
FAIL = 5       # error number of an operation that fails
# file types of boost::filesystem
NOT_FOUND, REGULAR, DIRECTORY, SYMLINK = 1, 2, 3, 4


def calls(I):
    w = world(I)
    if not hasattr(w, 'fs'):
        w.fs = []
    return w.fs


def env(I, k, default=None):
    e = I.opts.get('fs') or {}
    return e.get(k, default)


def text(x):
    x = V(x)
    if isinstance(x, PathObj):
        return x.copy(None)
    return x.s if isinstance(x, Lib) else x


def error_code(I, a):
    for x in a:
        v = V(x)
        if isinstance(v, Lib) and v.cls == 'boost::system::error_code':
            return v
    return None


def system(I, op, a, paths, flags=0, result=0, failed=0):
    """one request to the system: record it, then succeed or fail"""
    ec = error_code(I, a)
    calls(I).append((op, [text(p) for p in paths], flags))
    if I.P.branch(env(I, 'fail', False)):
        if ec is None:
            throw('boost::filesystem::filesystem_error')
        I.wrote(ec, 'value')
        ec.value = FAIL
        return failed
    if ec is not None:
        I.wrote(ec, 'value')
        ec.value = 0
    return result


def answer(I):
    v = env(I, 'answer')
    return v if v is not None else I.P.fresh_int('answer', 0, None)


def simple(name, npaths, kind):
    def h(I, f, t, a):
        r = None
        if kind == 'bool':
            r = simp(num(answer(I)) != 0) if is_sym(answer(I)) else answer(I) != 0
        elif kind == 'int':
            r = answer(I)
        flags = 0
        for x in a[npaths:]:
            v = V(x)
            if isinstance(v, int) or is_sym(v):
                flags = v
        return system(I, name, a, a[:npaths], flags, r, False if kind == 'bool' else ((1 << 64) - 1 if name in ('file_size', 'hard_link_count', 'remove_all') else -1) if kind == 'int' else None)
    H[NS + name] = h


for n, p, k in (('is_empty', 1, 'bool'), ('create_directory', 1, 'bool'), ('create_directories', 1, 'bool'), ('copy', 2, None), ('copy_file', 2, 'bool'),
                ('remove', 1, 'bool'), ('remove_all', 1, 'int'), ('file_size', 1, 'int'), ('hard_link_count', 1, 'int'), ('create_hard_link', 2, None),
                ('create_symlink', 2, None), ('create_directory_symlink', 2, None), ('copy_symlink', 2, None), ('rename', 2, None), ('resize_file', 1, None)):
    simple(n, p, k)


def status(op, test):
    def h(I, f, t, a):
        ft = env(I, 'type', REGULAR)
        return system(I, op, a, a[:1], 0, test(ft), False)
    return h


H[NS + 'exists'] = status('status', lambda t: Not(eq(t, NOT_FOUND)))
H[NS + 'is_directory'] = status('status', lambda t: eq(t, DIRECTORY))
H[NS + 'is_regular_file'] = status('status', lambda t: eq(t, REGULAR))
H[NS + 'is_other'] = status('status', lambda t: And(Not(eq(t, NOT_FOUND)), Not(eq(t, REGULAR)), Not(eq(t, DIRECTORY)), Not(eq(t, SYMLINK))))


@model(NS + 'is_symlink')
def _(I, f, t, a):
    p = V(a[0])
    if isinstance(p, PathObj):
        s = I.opts['symlink'](I, p)
        return s
    return system(I, 'symlink_status', a, a[:1], 0, eq(env(I, 'type', REGULAR), SYMLINK), False)


@model(NS + 'last_write_time')
def _(I, f, t, a):
    if len(f['params']) > 1 and f['params'][1]['t'].isint:
        return system(I, 'set_last_write_time', a, a[:1], V(a[1]))
    return system(I, 'last_write_time', a, a[:1], 0, answer(I), -1)


def mkpath(s):
    return Lib('path', s=s)


def S(s):
    return Str([[ord(c) for c in s]]) if s else Str()


@model(NS + 'current_path')
def _(I, f, t, a):
    if a and not isinstance(V(a[0]), Lib) or a and V(a[0]).cls == 'path':
        return system(I, 'set_current_path', a, a[:1])
    return mkpath(env(I, 'cwd', S('/cwd')).copy(I))


@model(NS + 'absolute', NS + 'canonical')
def _(I, f, t, a):
    op = f['n'].rsplit('::', 1)[-1]
    ps = [x for x in a if isinstance(V(x), Lib) and V(x).cls == 'path']
    if len(ps) == 2 and not I.P.branch(str_eq(I, V(ps[1]).s, env(I, 'cwd', S('/cwd')))):
        return system(I, op + '-elsewhere', a, ps, 0, mkpath(S('elsewhere')))
    return system(I, op, a, ps[:1], 0, mkpath(env(I, 'result', S('/result')).copy(I)))


@model(NS + 'weakly_canonical')
def _(I, f, t, a):
    return system(I, 'weakly_canonical', a, a[:1], 0, mkpath(env(I, 'result', S('/result')).copy(I)))


@model(NS + 'system_complete')
def _(I, f, t, a):
    calls(I).append(('system_complete', [text(a[0])], 0))
    if I.opts.get('paths') == 'stack':
        return I.opts['complete'](I)
    return mkpath(env(I, 'result', S('/result')).copy(I))


@model(NS + 'space')
def _(I, f, t, a):
    v = answer(I)
    sp = lambda *x: Lib(NS + 'space_info', capacity=x[0], free=x[1], available=x[2])
    m = (1 << 64) - 1
    return system(I, 'space', a, a[:1], 0, sp(v, v + 1, v + 2), sp(m, m, m))


@ctor(NS + 'space_info')
def _(I, f, t, a):
    if a:
        return V(a[0]).copy(I)
    return Lib(t.n, capacity=UNINIT, free=UNINIT, available=UNINIT)


@ctor('boost::system::error_code')
def _(I, f, t, a):
    if a and isinstance(V(a[0]), Lib):
        return V(a[0]).copy(I)
    return Lib(t.n, value=0)


@model('boost::system::error_code::operator bool')
def _(I, f, o, a):
    return Not(eq(o.value, 0))


@model('boost::system::error_code::value')
def _(I, f, o, a):
    return o.value


@model('boost::system::error_code::clear')
def _(I, f, o, a):
    I.wrote(o, 'value')
    o.value = 0


# lexical functions of text paths: opaque, recorded
def lexical(op, I, p, args=()):
    h = I.opts.get('lexical')
    if h is None:
        raise Unsupported('path::' + op)
    return h(I, op, p.s, [text(x) for x in args])


@model('path::extension')
def _(I, f, p, a):
    return mkpath(lexical('extension', I, p))


@model('path::replace_extension')
def _(I, f, p, a):
    r = lexical('replace_extension', I, p, a)
    p.s.assign(I, r)
    return ObjLV(p)


@model('path::stem')
def _(I, f, p, a):
    return mkpath(lexical('stem', I, p))


# ---- directory iterators: a directory is a sequence of entries

def dir_iter(I, f, t, a):
    cls = t.n
    if a and isinstance(V(a[0]), Lib) and V(a[0]).cls == cls:
        return V(a[0]).copy(I)
    if not a:
        return Lib(cls, end=True, pos=None)
    r = system(I, 'open-' + cls.rsplit('::', 1)[-1], a, a[:1], 0, True, False)
    if not r:
        return Lib(cls, end=True, pos=None)
    return Lib(cls, end=False, pos=0)


ctor(NS + 'directory_iterator', NS + 'recursive_directory_iterator')(dir_iter)


def at_end(I, it):
    return True if it.end else eq(it.pos, env(I, 'entries'))


@model('boost::iterators::detail::iterator_facade_base::operator++')
def _(I, f, o, a):
    if isinstance(o, Ptr):
        return H['iterator::operator++'](I, f, o, a)
    if 'end' not in o.__dict__:
        raise Unsupported('iterator')
    I.P.oblige('no-increment-of-an-end-iterator', Not(at_end(I, o)), 'safety')
    I.wrote(o, 'pos')
    o.pos = simp(o.pos + 1)
    return ObjLV(o)


def entry(I, o):
    if 'end' not in o.__dict__:
        raise Unsupported('iterator')
    I.P.oblige('no-dereference-of-an-end-iterator', Not(at_end(I, o)), 'safety')
    return Lib(NS + 'directory_entry', p=mkpath(Str([[o.pos]])))


@model('boost::iterators::detail::iterator_facade_base::operator*')
def _(I, f, o, a):
    if isinstance(o, Ptr):
        return H['iterator::operator*'](I, f, o, a)
    return ObjLV(entry(I, o))


@model('boost::iterators::detail::iterator_facade_base::operator->')
def _(I, f, o, a):
    if isinstance(o, Ptr):
        return H['iterator::operator->'](I, f, o, a)
    return Ptr(ObjLV(entry(I, o)))


@model(NS + 'directory_entry::path', NS + 'directory_entry::operator const boost::filesystem::path &')
def _(I, f, o, a):
    return ObjLV(o.p)


def iter_eq(I, a, b):
    ea, eb = at_end(I, a), at_end(I, b)
    if a.end or b.end:
        return Iff(ea, eb)
    return Or(And(ea, eb), eq(a.pos, b.pos))


_ne, _eq = H['boost::iterators::operator!='], H['std::operator==']


@model('boost::iterators::operator!=')
def _(I, f, t, a):
    x, y = V(a[0]), V(a[1])
    if isinstance(x, Lib) and 'end' in x.__dict__:
        return Not(iter_eq(I, x, y))
    return _ne(I, f, t, a)


@model('boost::iterators::operator==')
def _(I, f, t, a):
    x, y = V(a[0]), V(a[1])
    if isinstance(x, Lib) and 'end' in x.__dict__:
        return iter_eq(I, x, y)
    return _eq(I, f, t, a)


# ---- paths as a root mark and a stack of parts

IDS = {'.': 0, '..': 1}


def part_id(s):
    return IDS.setdefault(s, 1000 + len(IDS))


class PathObj(Obj):
    """part k of the stack is arr[k], k < d; root: is there a root directory"""

    def __init__(self, root=False, arr=None, d=0):
        self.root, self.d = root, d
        self.arr = arr if arr is not None else z3.K(z3.IntSort(), z3.IntVal(-1))
        self.name, self.serial = None, 0

        self.parts = None

    def copy(self, I):
        r = PathObj(self.root, self.arr, self.d)
        r.parts = self.parts
        return r

    def assign(self, I, o):
        I.wrote(self, None)
        self.root, self.arr, self.d, self.parts = o.root, o.arr, o.d, o.parts

    def __repr__(self):
        return 'PathObj(%s,%s,%s)' % (self.root, self.d, self.arr)

    def is_part(self, p):
        """is it the one part p"""
        return And(eq(self.d, 1), Not(self.root), eq(sel(self.arr, 0), p))


def sel(a, i):
    return simp(z3.Select(a, num(i)))


def lit(s):
    """a literal path"""
    if s == '':
        return PathObj()
    if s == '/':
        return PathObj(True)
    if '/' in s:
        raise Unsupported('literal path ' + s)
    return PathObj(False, z3.Store(z3.K(z3.IntSort(), z3.IntVal(-1)), 0, part_id(s)), 1)


def to_path(I, x):
    x = V(x)
    if isinstance(x, PathObj):
        return x
    if isinstance(x, Lib):
        x = x.s
    if isinstance(x, Arr):
        x = Ptr(ElemLV(I, x, 0))
    s = tostr(I, x).pystr()
    if s is None:
        raise Unsupported('path from unknown text')
    return lit(s)


class Parts(Arr):
    """the parts of a path; part k is the root directory or an ordinary part"""

    def __init__(self, n, part):
        Arr.__init__(self, None, None, None, n)
        self.part = part

    def get(self, I, i):
        I.P.oblige('vector-index-in-range', And(i >= 0, i < self.n), 'safety')
        return self.part(I, i)


def path_eq(I, a, b):
    a, b = to_path(I, a), to_path(I, b)
    if is_sym(a.d) and is_sym(b.d):
        k = z3.Int('part')
        return And(Iff(a.root, b.root), eq(a.d, b.d), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a.d), z3.Select(a.arr, k) == z3.Select(b.arr, k))))
    if is_sym(a.d):
        a, b = b, a
    return And(Iff(a.root, b.root), eq(a.d, b.d), And([eq(sel(a.arr, k), sel(b.arr, k)) for k in range(a.d)]))


@model('PathObj::operator/=')
def _(I, f, p, a):
    x = to_path(I, a[0])
    if is_sym(x.d):
        if not I.P.branch(eq(x.d, 1)):
            if not I.P.branch(eq(x.d, 0)):
                raise Unsupported('append of a long path')
            d = 0
        else:
            d = 1
    else:
        d = x.d
    if d > 1:
        raise Unsupported('append of a long path')
    I.wrote(p, None)
    p.parts = None
    if I.P.branch(x.root):
        # boost appends the text: the root directory is only ever appended to nothing
        if not I.P.branch(And(eq(p.d, 0), Not(p.root))):
            raise Unsupported('append of an absolute path')
        p.root = True
    if d == 1:
        p.arr = z3.Store(p.arr, num(p.d), num(sel(x.arr, 0)))
        p.d = simp(p.d + 1)
    return ObjLV(p)


@model('PathObj::parent_path')
def _(I, f, p, a):
    if I.P.branch(num(p.d) > 0 if is_sym(p.d) else p.d > 0):
        return PathObj(p.root, p.arr, simp(p.d - 1))
    return PathObj()


@model('PathObj::remove_filename')
def _(I, f, p, a):
    I.wrote(p, None)
    if I.P.branch(num(p.d) > 0 if is_sym(p.d) else p.d > 0):
        p.d = simp(p.d - 1)
    else:
        p.root = False
    return ObjLV(p)


@model('PathObj::filename')
def _(I, f, p, a):
    if I.P.branch(num(p.d) > 0 if is_sym(p.d) else p.d > 0):
        return PathObj(False, z3.Store(z3.K(z3.IntSort(), z3.IntVal(-1)), 0, num(sel(p.arr, simp(p.d - 1)))), 1)
    return PathObj(p.root)


@model('PathObj::has_relative_path', 'PathObj::has_filename_v')
def _(I, f, p, a):
    return p.d > 0


@model('PathObj::has_parent_path')
def _(I, f, p, a):
    return Or(p.d > 1, And(p.d > 0, p.root))


@model('PathObj::has_root_directory', 'PathObj::is_absolute')
def _(I, f, p, a):
    return p.root


@model('PathObj::root_path', 'PathObj::root_directory')
def _(I, f, p, a):
    return PathObj(p.root)


@model('PathObj::empty')
def _(I, f, p, a):
    return And(eq(p.d, 0), Not(p.root))


@model('PathObj::clear')
def _(I, f, p, a):
    p.assign(I, PathObj())


@model('PathObj::make_preferred')
def _(I, f, p, a):
    return ObjLV(p)


@model('PathObj::operator=')
def _(I, f, p, a):
    p.assign(I, to_path(I, a[0]))
    return ObjLV(p)


@model('PathObj::operator!=')
def _(I, f, p, a):
    return Not(path_eq(I, p, a[0]))


@model('PathObj::begin', 'PathObj::end')
def _(I, f, p, a):
    if p.parts is None:
        raise Unsupported('iteration over a computed path')
    return Ptr(ElemLV(I, p.parts, 0 if f['n'].endswith('begin') else p.parts.n))


_peq, _pne = H['boost::filesystem::operator=='], H['boost::filesystem::operator!=']


@model('boost::filesystem::operator==')
def _(I, f, t, a):
    if I.opts.get('paths') == 'stack':
        return path_eq(I, a[0], a[1])
    return _peq(I, f, t, a)


@model('boost::filesystem::operator!=')
def _(I, f, t, a):
    if I.opts.get('paths') == 'stack':
        return Not(path_eq(I, a[0], a[1]))
    return _pne(I, f, t, a)


@model('boost::filesystem::operator/')
def _(I, f, t, a):
    if I.opts.get('paths') != 'stack':
        raise Unsupported('path::operator/')
    p = to_path(I, a[0]).copy(I)
    H['PathObj::operator/='](I, f, p, [a[1]])
    return p


def havoc_path(I, o):
    P = I.P
    o.parts = None
    o.root, o.d = P.fresh_bool('root'), P.fresh_int('depth', 0, 1 << 40)
    o.arr = z3.Array(P.fresh('parts'), z3.IntSort(), z3.IntSort())


PathObj.havoc = havoc_path
PathObj.cls = 'PathObj'
