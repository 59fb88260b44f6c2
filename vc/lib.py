"""Assumed contracts of library code (C++ standard library, boost, libc): nothing here is verified.
Each handler is keyed by the qualified name of the library function with template arguments removed."""
import math
import z3
from .core import *
from .sym import *
from .values import *
from .interp import Fake, Frame
from . import ast as vast

H = {}
CTOR = {}


def model(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def ctor(*names):
    def d(f):
        for n in names:
            CTOR[n] = f
        return f
    return d


STRING = 'std::basic_string'
# library structures with members: their names, and the type of those which are structures themselves
STRUCTS = {}
VECS = ('std::vector', 'std::list', 'std::array', 'std::deque', 'std::initializer_list')
MAPS = ('std::map', 'std::unordered_map', 'std::multimap')


def throw(name, *args):
    raise CppThrow(Exc(Fake(name), list(args)))


def V(x):
    return x.get() if isinstance(x, LV) else x


class Library:
    def __init__(self):
        self.dtors = {'scope': lambda I, o: o.f(I)}
        self.extra = {}
        self.globals = {'Kumu::Kilobyte': 1 << 10, 'Kumu::Megabyte': 1 << 20, 'Kumu::UUID_Length': 16, 'ASDCP::UUIDlen': 16, 'ASDCP::KeyLen': 16}

    def size_t(self):
        return vast._types['unsigned long']

    def prefers(self, f):
        """repo functions that are treated as library code"""
        return f['n'].startswith('String::compose') or f.get('sn', '').startswith('String::compose')

    # ---- objects
    def default(self, I, t):
        n = t.n
        if n == STRING:
            return Str()
        if n == 'std::array':
            return Arr(t.a[0], [I.default(t.a[0]) for _ in range(int(t.a[1]))], kind='array')
        if n in VECS:
            return linked(t, Arr(t.a[0], [], kind='vector'))
        if n in MAPS:
            return MapObj(t, [], n == 'std::multimap')
        if n in ('boost::optional', 'std::optional'):
            return Opt()
        if n in ('std::shared_ptr', 'std::unique_ptr', 'boost::shared_ptr', 'std::weak_ptr'):
            return SPtr()
        if n in ('std::function', 'boost::function'):
            return FnVal()
        if n == 'std::pair':
            s = StructObj(t)
            s.fields['first'] = I.default(t.a[0])
            s.fields['second'] = I.default(t.a[1])
            return s
        if n == 'boost::filesystem::path':
            if I.opts.get('paths') == 'stack':
                return lib_fs.PathObj()
            return Lib('path', s=Str())
        if n in ('boost::mutex', 'std::mutex'):
            return Lib('mutex')
        if n == 'tm':
            s = StructObj(t)
            for f in ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst', 'tm_gmtoff'):
                s.fields[f] = UNINIT
            return s
        if n in STRUCTS:
            s = StructObj(t)
            for k, v in STRUCTS[n].items():
                s.fields[k] = UNINIT if v is None else I.default(I.prog.type(v))
            return s
        return Lib(n)

    def construct(self, I, f, t, args, e):
        h = CTOR.get(t.n)
        if h is None:
            if f.get('ck') == 'default' and not args:
                return self.default(I, t)
            h = self.extra.get(f.get('sn'))
            if h:
                return h(I, f, None, args)
            raise Unsupported('constructor of library class %s' % f['n'])
        return h(I, f, t, args)

    def copy_construct(self, I, t, src, ck):
        if ck == 'move' and isinstance(src, FnVal):
            r = FnVal(src.f)
            I.wrote(src, None)
            src.f = None
            return r
        if ck == 'move' and isinstance(src, SPtr):
            r = SPtr(src.o)
            src.o = None
            return r
        return copyval(I, src)

    def base_construct(self, I, o, t, f, args):
        if t.n.startswith('std::enable_shared_from_this') or t.n in ('boost::noncopyable', 'boost::noncopyable_::noncopyable'):
            return True
        return False

    def aggregate(self, I, t, vals):
        if t.n == 'std::array':
            a = vals[0] if len(vals) == 1 and isinstance(vals[0], Arr) else Arr(t.a[0], vals)
            return Arr(t.a[0], a.items, kind='array')
        if t.n == 'std::pair':
            s = StructObj(t)
            s.fields['first'], s.fields['second'] = vals
            return s
        if not vals:
            return self.default(I, t)
        raise Unsupported('aggregate of ' + t.key)

    def member(self, I, o, n):
        if isinstance(o, Lib) and n in o.__dict__:
            v = o.__dict__[n]
            if isinstance(v, Obj):
                return ObjLV(v)

            def setf(x):
                I.wrote(o, n)
                o.__dict__[n] = x
            return FnLV(lambda: o.__dict__[n], setf)
        if isinstance(o, StructObj):
            from .values import FieldLV
            return FieldLV(I, o, n)
        raise Unsupported('member %s of %r' % (n, o))

    def bitcast(self, I, v, t, ft):
        v = V(v)
        if isinstance(v, Ptr):
            a = getattr(v.lv, 'a', None)
            if hasattr(a, 'recast'):
                return a.recast(I, v.lv.i, t)
            return v
        raise Unsupported('bit cast')

    def fresh_arr(self, I, t, n, base):
        srt = z3.IntSort() if t.isint else z3.RealSort() if t.k == 'float' else z3.BoolSort() if t.k == 'bool' else None
        if srt is None:
            raise Unsupported('array of symbolic length of ' + t.key)
        return Arr(t, None, z3.Array(I.P.fresh(base), z3.IntSort(), srt), n, kind='heap')

    def map_pair(self, I, m, it):
        s = StructObj(None)
        s.fields['first'] = it[0]
        s.fields['second'] = it[1]
        s.pair_of = it
        return s

    # ---- calls
    def call(self, I, f, this, args, node):
        sn = f.get('sn') or f['n']
        h = self.extra.get(sn) or H.get(sn)
        if h is None and this is not None:
            m = sn.rsplit('::', 1)[-1]
            if '::operator ' in sn:
                m = 'operator ' + sn.split('::operator ', 1)[1]
            cls = None
            if isinstance(this, Str):
                cls = STRING
            elif isinstance(this, Arr):
                cls = 'std::vector'
            elif isinstance(this, Opt):
                cls = 'boost::optional'
            elif isinstance(this, MapObj):
                cls = 'std::map'
            elif isinstance(this, SPtr):
                cls = 'std::shared_ptr'
            elif isinstance(this, FnVal):
                cls = 'std::function'
            elif isinstance(this, (Ptr, MapIt)):
                cls = 'iterator'
            elif isinstance(this, Exc):
                cls = 'exception'
            elif isinstance(this, Lib) or hasattr(this, 'cls'):
                cls = this.cls
            if cls:
                h = H.get(cls + '::' + m)
        if h is None:
            raise Unsupported('library function ' + f['n'])
        I.P.ex.stats.assumed[sn] = I.P.ex.stats.assumed.get(sn, 0) + 1
        return h(I, f, this, args)


# ---------------------------------------------------------------- strings

def cstr(I, p):
    """characters of a NUL-terminated string up to the terminator"""
    p = V(p)
    if isinstance(p, Str):
        return p
    if not isinstance(p, Ptr):
        raise Unsupported('not a C string: %r' % (p,))
    if p.null:
        I.P.oblige('no-null-dereference', False, 'safety')
    a, i = p.lv.a, p.lv.i
    if isinstance(a, Str):
        if not is_sym(i) and i == 0:
            return a.copy(I)
        return a.substr(I, i, a.length() - i)
    if a.items is None and is_sym(simp(a.size())):
        # the last element has to be NUL, so that there is a first one
        I.P.oblige('text-ends-inside-its-buffer', And(i >= 0, i < a.size(), eq(a.get(I, simp(a.size() - 1)), 0)), 'safety')
        n = I.P.fresh_int('len', 0, None)
        k = z3.Int(I.P.fresh('k'))
        I.P.assume(z3.And(num(i) + n < num(a.size()), z3.Select(a.arr, num(i) + n) == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a.arr, num(i) + k) != 0))))
        return Str([View(a.arr, i, n)])
    i = I.P.concretise(i)
    out = []
    while True:
        c = a.get(I, i)
        if c is UNINIT:
            I.P.oblige('no-read-of-uninitialised-variable', False, 'safety')
        if I.P.branch(eq(c, 0)):
            break
        out.append(c)
        i += 1
    return Str([out])


@ctor(STRING)
def string_ctor(I, f, t, args):
    ps = f['params']
    a = [x for x, p in zip(args, ps) if not (p['t'].k == 'ref' and p['t'].p.n == 'std::allocator')]
    if not a:
        return Str()
    x = V(a[0])
    if isinstance(x, Str):
        if len(a) == 1:
            return x.copy(I)
        pos = V(a[1])
        n = V(a[2]) if len(a) > 2 else NPOS
        return substr(I, x, pos, n)
    if isinstance(x, Ptr):
        if len(a) == 1:
            return cstr(I, x)
        y = V(a[1])
        if isinstance(y, Ptr):        # iterator range
            n = simp(y.lv.i - x.lv.i)
        else:
            n = y
        n = I.P.concretise(n)
        return Str([[x.lv.a.get(I, simp(x.lv.i + k)) for k in range(n)]])
    if len(a) == 2:
        n = I.P.concretise(x)
        return Str([[V(a[1])] * n])
    if isinstance(x, Arr):
        return Str([list(x.items)])
    raise Unsupported('string constructor')


def substr(I, s, pos, n=NPOS):
    ln = s.length()
    if not I.P.branch(pos <= ln if is_sym(pos) or is_sym(ln) else pos <= ln):
        throw('std::out_of_range')
    rest = simp(ln - pos)
    if not is_sym(n) and n >= NPOS - 1:
        return s.substr(I, pos, rest)
    if I.P.branch(n <= rest):
        return s.substr(I, pos, n)
    return s.substr(I, pos, rest)


@model(STRING + '::substr')
def _(I, f, s, a):
    return substr(I, s, V(a[0]), V(a[1]))


@model(STRING + '::length', STRING + '::size')
def _(I, f, s, a):
    return s.length()


@model(STRING + '::empty')
def _(I, f, s, a):
    return eq(s.length(), 0)


@model(STRING + '::operator[]')
def _(I, f, s, a):
    return ElemLV(I, s, V(a[0]))


@model(STRING + '::at')
def _(I, f, s, a):
    if not I.P.branch(V(a[0]) < s.length()):
        throw('std::out_of_range')
    return ElemLV(I, s, V(a[0]))


@model(STRING + '::front')
def _(I, f, s, a):
    I.P.oblige('front-of-nonempty-string', s.length() > 0, 'safety')
    return ElemLV(I, s, 0)


@model(STRING + '::back')
def _(I, f, s, a):
    I.P.oblige('back-of-nonempty-string', s.length() > 0, 'safety')
    return ElemLV(I, s, simp(s.length() - 1))


@model(STRING + '::c_str', STRING + '::data')
def _(I, f, s, a):
    return Ptr(ElemLV(I, s, 0))


@model(STRING + '::begin', STRING + '::cbegin')
def _(I, f, s, a):
    return Ptr(ElemLV(I, s, 0))


@model(STRING + '::end', STRING + '::cend')
def _(I, f, s, a):
    return Ptr(ElemLV(I, s, s.length()))


def tostr(I, x):
    x = V(x)
    if isinstance(x, Str):
        return x
    if isinstance(x, Ptr):
        return cstr(I, x)
    if isinstance(x, int) or is_sym(x):
        return Str([[x]])
    if isinstance(x, Arr):
        return Str([list(x.items)])
    raise Unsupported('not a string: %r' % (x,))


def concat(I, *xs):
    parts = []
    for x in xs:
        x = tostr(I, x)
        parts += [list(p) if isinstance(p, list) else p for p in x.parts]
    return Str(parts).norm()


@model(STRING + '::operator=', STRING + '::assign')
def _(I, f, s, a):
    s.assign(I, tostr(I, a[0]) if len(a) == 1 else string_ctor(I, f, None, a))
    return ObjLV(s)


@model(STRING + '::operator+=', STRING + '::append', STRING + '::push_back')
def _(I, f, s, a):
    if len(a) == 2:
        x, y = V(a[0]), V(a[1])
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            n = I.P.concretise(simp(y.lv.i - x.lv.i))
            r = Str([[x.lv.a.get(I, simp(x.lv.i + k)) for k in range(n)]])
        elif isinstance(x, Ptr):
            n = I.P.concretise(y)
            r = Str([[x.lv.a.get(I, simp(x.lv.i + k)) for k in range(n)]])
        elif isinstance(x, Str):
            r = substr(I, x, y)
        else:
            r = Str([[y] * I.P.concretise(x)])
        s.assign(I, concat(I, s, r))
    elif len(a) == 3:
        s.assign(I, concat(I, s, substr(I, V(a[0]), V(a[1]), V(a[2]))))
    else:
        s.assign(I, concat(I, s, a[0]))
    return ObjLV(s)


@model(STRING + '::clear')
def _(I, f, s, a):
    s.assign(I, Str())


@model(STRING + '::reserve', STRING + '::shrink_to_fit')
def _(I, f, s, a):
    return None


@model(STRING + '::pop_back')
def _(I, f, s, a):
    I.P.oblige('pop-from-nonempty-string', s.length() > 0, 'safety')
    s.assign(I, s.substr(I, 0, simp(s.length() - 1)))


@model(STRING + '::replace')
def _(I, f, s, a):
    x, y = V(a[0]), V(a[1])
    if isinstance(x, Ptr) or len(a) != 3:
        raise Unsupported('string::replace overload')
    ln = s.length()
    if not I.P.branch(x <= ln):
        throw('std::out_of_range')
    rest = simp(ln - x)
    n = y
    if I.P.branch(y > rest):
        n = rest
    s.assign(I, concat(I, s.substr(I, 0, x), a[2], s.substr(I, simp(x + n), simp(rest - n))))
    return ObjLV(s)


@model(STRING + '::erase')
def _(I, f, s, a):
    x = V(a[0])
    if isinstance(x, Ptr):
        i = x.lv.i
        n = simp(V(a[1]).lv.i - i) if len(a) > 1 else 1
        s.assign(I, concat(I, s.substr(I, 0, i), s.substr(I, simp(i + n), simp(s.length() - i - n))))
        return Ptr(ElemLV(I, s, i))
    n = V(a[1])
    ln = s.length()
    if not I.P.branch(x <= ln):
        throw('std::out_of_range')
    rest = simp(ln - x)
    if not is_sym(n) and n >= NPOS - 1:
        n = rest
    elif I.P.branch(n > rest):
        n = rest
    s.assign(I, concat(I, s.substr(I, 0, x), s.substr(I, simp(x + n), simp(rest - n))))
    return ObjLV(s)


def find_char(I, s, pred, pos, what):
    """index of the first character at or after pos satisfying pred; NPOS if none"""
    P = I.P
    cs = s.chars()
    if cs is not None:
        pos = P.concretise(pos)
        for k in range(pos, len(cs)):
            if P.branch(pred(cs[k])):
                return k
        return NPOS
    n = s.length()
    if not P.branch(pos < n):
        return NPOS
    if len(s.parts) != 1:
        raise Unsupported('find in a composite string')
    v = s.parts[0]
    none = lambda hi: lambda k: z3.Implies(z3.And(k >= num(pos), k < num(hi)), z3.Not(pred(z3.Select(v.arr, v.off + k))))
    r = P.fresh_int('found', 0, None)
    if P.branch(P.fresh_bool('has_' + what)):
        P.assume(z3.And(r >= num(pos), r < num(n)))
        P.assume(pred(s.at(I, r)))
        P.term(r)
        P.schema(none(r))
        if not P.feasible():
            raise Infeasible()
        return r
    P.schema(none(n))
    if not P.feasible():
        raise Infeasible()
    return NPOS


@model(STRING + '::find')
def _(I, f, s, a):
    x = V(a[0])
    pos = V(a[1]) if len(a) > 1 else 0
    if isinstance(x, int) or is_sym(x):
        return find_char(I, s, lambda c: eq(c, x), pos, 'char')
    t = tostr(I, x)
    tc = t.chars()
    if tc is not None and len(tc) == 1:
        return find_char(I, s, lambda c: eq(c, tc[0]), pos, 'char')
    cs = s.chars()
    if cs is None or tc is None:
        raise Unsupported('string::find of a string in a string of symbolic length')
    pos = I.P.concretise(pos)
    for k in range(pos, len(cs) - len(tc) + 1):
        if I.P.branch(And([eq(cs[k + j], tc[j]) for j in range(len(tc))])):
            return k
    return NPOS


@model(STRING + '::rfind', STRING + '::find_last_of')
def _(I, f, s, a):
    x = V(a[0])
    cs = s.chars()
    if cs is None:
        raise Unsupported('rfind in a string of symbolic length')
    pos = V(a[1]) if len(a) > 1 else NPOS
    pos = I.P.concretise(pos)
    if isinstance(x, int) or is_sym(x):
        ts = [x]
        anyof = True
    else:
        ts = tostr(I, x).chars()
        anyof = f['sn'].endswith('find_last_of')
    if anyof:
        for k in range(min(pos, len(cs) - 1), -1, -1):
            if I.P.branch(Or([eq(cs[k], y) for y in ts])):
                return k
        return NPOS
    for k in range(min(pos, len(cs) - len(ts)), -1, -1):
        if I.P.branch(And([eq(cs[k + j], ts[j]) for j in range(len(ts))])):
            return k
    return NPOS


@model(STRING + '::find_first_of', STRING + '::find_first_not_of')
def _(I, f, s, a):
    x = V(a[0])
    neg = f['sn'].endswith('not_of')
    ts = [x] if isinstance(x, int) or is_sym(x) else tostr(I, x).chars()
    p = (lambda c: Not(Or([eq(c, y) for y in ts]))) if neg else (lambda c: Or([eq(c, y) for y in ts]))
    return find_char(I, s, p, V(a[1]) if len(a) > 1 else 0, 'set')


@model(STRING + '::compare')
def _(I, f, s, a):
    if len(a) == 3:
        s = substr(I, s, V(a[0]), V(a[1]))
        o = tostr(I, a[2])
    else:
        o = tostr(I, a[0])
    if I.P.branch(str_eq(I, s, o)):
        return 0
    if I.P.branch(str_lt(I, s, o)):
        return -1
    return 1


def uch(c):
    return If(c < 0, c + 256, c) if is_sym(c) else c & 255


def str_lt(I, a, b):
    x, y = a.chars(), b.chars()
    if x is None or y is None:
        raise Unsupported('ordering of strings of symbolic length')
    r = len(x) < len(y)
    n = min(len(x), len(y))
    for k in range(n - 1, -1, -1):
        p, q = uch(x[k]), uch(y[k])
        r = Or(p < q, And(eq(p, q), r))
    return r


def deep_eq(I, a, b):
    """operator== of any two modelled values, as a condition"""
    a, b = V(a), V(b)
    if isinstance(a, Str) or isinstance(b, Str):
        return str_eq(I, tostr(I, a), tostr(I, b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        na, nb = a.size(), b.size()
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            return And([deep_eq(I, x, y) for x, y in zip(a.items, b.items)])
        k = z3.Int(I.P.fresh('k'))
        sa = lambda i: z3.Select(a.arr, i) if a.items is None else num(a.get(I, i))
        sb = lambda i: z3.Select(b.arr, i) if b.items is None else num(b.get(I, i))
        return And(eq(na, nb), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < num(na)), sa(k) == sb(k))))
    if isinstance(a, Opt) or isinstance(b, Opt):
        if not isinstance(a, Opt):
            a = Opt(True, a)
        if not isinstance(b, Opt):
            b = Opt(False) if isinstance(b, Lib) and b.cls == 'boost::none_t' else Opt(True, b)
        ha, hb = a.has, b.has
        ha, hb = I.P.branch(ha), I.P.branch(hb)
        if ha != hb:
            return False
        if not ha:
            return True
        return deep_eq(I, a.val, b.val)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return I.ptrcmp('==', a, b)
    if isinstance(a, MapIt):
        return a.i == b.i
    if isinstance(a, SPtr) or isinstance(b, SPtr):
        x = a.o if isinstance(a, SPtr) else None
        y = b.o if isinstance(b, SPtr) else None
        return x is y
    if isinstance(a, StructObj):
        if a.t is not None and a.t.n == 'std::pair' or a.t is None:
            return And([deep_eq(I, a.fields[k], b.fields[k]) for k in ('first', 'second')])
        op = find_op(I, 'operator==', a, b)
        return I.rv(op())
    if isinstance(a, Lib) and a.cls == 'path':
        return str_eq(I, a.s, b.s)
    if isinstance(a, Lib) and a.cls == 'tuple':
        return And([deep_eq(I, x, y) for x, y in zip(a.items, b.items)])
    return eq(a, b)


def find_op(I, name, a, b):
    """user-defined binary operator applicable to two repo objects"""
    for f in I.prog.functions.values():
        n = f['n'].rsplit('::', 1)[-1]
        if n != name:
            continue
        if f.get('cls') is a.t and len(f['params']) == 1:
            return lambda: I.call(f, a, [ObjLV(b)])
        if f.get('fk') == 'fn' and len(f['params']) == 2:
            p = f['params'][0]['t']
            p = p.p if p.k == 'ref' else p
            if p is a.t:
                return lambda: I.call(f, None, [ObjLV(a), ObjLV(b)])
    raise Unsupported('no %s for %s' % (name, a.t.key))


def deep_lt(I, a, b):
    a, b = V(a), V(b)
    if isinstance(a, Str):
        return str_lt(I, a, tostr(I, b))
    if isinstance(a, StructObj) and (a.t is None or a.t.n == 'std::pair'):
        f1 = deep_lt(I, a.fields['first'], b.fields['first'])
        if I.P.branch(f1):
            return True
        if I.P.branch(deep_lt(I, b.fields['first'], a.fields['first'])):
            return False
        return deep_lt(I, a.fields['second'], b.fields['second'])
    if isinstance(a, StructObj):
        return I.rv(find_op(I, 'operator<', a, b)())
    if isinstance(a, Lib) and a.cls == 'tuple':
        for x, y in zip(a.items, b.items):
            if I.P.branch(deep_lt(I, x, y)):
                return True
            if I.P.branch(deep_lt(I, y, x)):
                return False
        return False
    if isinstance(a, Ptr):
        return I.ptrcmp('<', a, b)
    return I.compare('<', a, b)


@model('std::operator==', 'boost::operator==', '__gnu_cxx::operator==', 'std::__detail::operator==', 'boost::filesystem::operator==')
def _(I, f, this, a):
    return deep_eq(I, a[0], a[1])


@model('std::operator!=', 'boost::operator!=', '__gnu_cxx::operator!=', 'std::__detail::operator!=', 'boost::iterators::operator!=', 'boost::filesystem::operator!=')
def _(I, f, this, a):
    return Not(deep_eq(I, a[0], a[1]))


@model('std::operator<', '__gnu_cxx::operator<')
def _(I, f, this, a):
    return deep_lt(I, a[0], a[1])


@model('std::operator>', '__gnu_cxx::operator>')
def _(I, f, this, a):
    return deep_lt(I, a[1], a[0])


@model('std::operator<=', '__gnu_cxx::operator<=')
def _(I, f, this, a):
    return Not(deep_lt(I, a[1], a[0]))


@model('std::operator>=', '__gnu_cxx::operator>=')
def _(I, f, this, a):
    return Not(deep_lt(I, a[0], a[1]))


@model('std::operator+')
def _(I, f, this, a):
    x, y = V(a[0]), V(a[1])
    return concat(I, x, y)


@model('std::to_string', 'fmt::to_string')
def _(I, f, this, a):
    v = V(a[0])
    if isinstance(v, float) or (is_sym(v) and z3.is_real(v)):
        raise Unsupported('to_string of a floating value')
    return fmt_int(I, v)


# ---- numbers to text and back

def fmt_int(I, v, width=0, zero=False, plus=False, left=False):
    """decimal text of an integer: forks on sign and number of digits"""
    P = I.P
    v = I.asint(v)
    neg = P.branch(v < 0)
    m = -v if neg else v
    if is_sym(m):
        m = z3.simplify(m)
        if z3.is_int_value(m):
            m = m.as_long()
    if not is_sym(m):
        ds = [ord(c) for c in str(m)]
    else:
        nd = max(1, width) if zero and not neg and not plus and not left else 1
        while not P.branch(m < 10 ** nd):
            nd += 1
            if nd > 20:
                raise Unsupported('integer too long')
        if nd <= 4:
            ds = [48 + ((m / 10 ** k) % 10 if k else m % 10) for k in range(nd - 1, -1, -1)]
        else:
            # the digits are the only ones which make the number
            ds = [P.fresh_int('digit', 48, 57) for _ in range(nd)]
            P.assume(z3.Sum([10 ** (nd - 1 - k) * (d - 48) for k, d in enumerate(ds)]) == m)
    sign = [ord('-')] if neg else ([ord('+')] if plus else [])
    pad = width - len(ds) - len(sign)
    if pad > 0:
        if left:
            return Str([sign + ds + [32] * pad])
        if zero:
            return Str([sign + [48] * pad + ds])
        return Str([[32] * pad + sign + ds])
    return Str([sign + ds])


def is_digit(c):
    return And(c >= 48, c <= 57)


def is_xdigit(c):
    return Or(is_digit(c), And(c >= 65, c <= 70), And(c >= 97, c <= 102))


def xdigits_value(cs):
    v = 0
    for c in cs:
        v = v * 16 + If(c <= 57, c - 48, If(c <= 70, c - 55, c - 87))
    return v


def digits_value(cs):
    v = 0
    for c in cs:
        v = v * 10 + (c - 48)
    return v


@model('boost::lexical_cast')
def lexical_cast(I, f, this, a):
    t = f['ret']
    s = V(a[0])
    if t.n == STRING:
        if isinstance(s, Str):
            return s.copy(I)
        return fmt_int(I, s)
    if not t.isint:
        raise Unsupported('lexical_cast to ' + t.key)
    s = tostr(I, s)
    cs = s.chars()
    P = I.P
    if cs is None:
        n = P.concretise(s.length(), 30)
        cs = [s.at(I, k) for k in range(n)]
    if len(cs) == 0:
        throw('boost::bad_lexical_cast')
    if t.lo < 0 and 10 ** len(cs) <= t.hi:
        # one case for everything that is a number
        minus, plus = eq(cs[0], ord('-')), eq(cs[0], ord('+'))
        if not P.branch(And(Or(is_digit(cs[0]), And(Or(minus, plus), len(cs) > 1)), *[is_digit(c) for c in cs[1:]])):
            throw('boost::bad_lexical_cast')
        rest = digits_value(cs[1:])
        v = simp(If(minus, -rest, If(plus, rest, digits_value(cs))))
        if is_sym(v):
            n = P.fresh_int('num', -(10 ** len(cs)), 10 ** len(cs))
            P.assume(n == v)
            return n
        return v
    neg = False
    if P.branch(eq(cs[0], ord('-'))):
        neg = True
        cs = cs[1:]
    elif P.branch(eq(cs[0], ord('+'))):
        cs = cs[1:]
    if len(cs) == 0 or not P.branch(And([is_digit(c) for c in cs])):
        throw('boost::bad_lexical_cast')
    v = digits_value(cs)
    if neg:
        v = -v
    if not P.branch(And(v >= t.lo, v <= t.hi)):
        throw('boost::bad_lexical_cast')
    v = simp(v)
    if is_sym(v):
        n = P.fresh_int('num', -(10 ** len(cs)) if neg else 0, 10 ** len(cs))
        P.assume(n == v)
        return n
    return v


@model('fast_float::from_chars')
def from_chars(I, f, this, a):
    """the longest prefix which is a number (decimal digits, after a minus sign where the type is signed), or an error and nothing written"""
    P = I.P
    first, last, out = a[0], a[1], a[2]
    t = f['params'][2]['t'].p
    if not t.isint:
        raise Unsupported('from_chars of ' + t.key)
    first, last = I.rv(first), I.rv(last)
    n = P.concretise(I.ptrop('-', last, first), 24)
    cs = [I.rv(I.deref(I.ptrop('+', first, k))) for k in range(n)]
    r = StructObj(f['ret'])
    if not cs:
        r.fields.update(ptr=first, ec=22)
        return r
    neg = And(t.lo < 0, eq(cs[0], 45))
    v, good = 0, True        # value of the digits up to the first character which is not one
    for k, c in enumerate(cs):
        d = And(good, is_digit(c))
        v = If(d, v * 10 + (c - 48), v)
        good = Or(d, And(neg, k == 0)) if k == 0 else d
    some = Or(is_digit(cs[0]), And(neg, is_digit(cs[1])) if n > 1 else False)
    if not P.branch(some):
        r.fields.update(ptr=first, ec=22)
        return r
    v = simp(If(neg, -v, v))
    if 10 ** n - 1 > t.hi and not P.branch(And(v >= t.lo, v <= t.hi)):
        r.fields.update(ptr=last, ec=34)
        return r
    if is_sym(v):
        x = P.fresh_int('num', max(t.lo, -(10 ** n)), min(t.hi, 10 ** n))
        P.assume(x == v)
        v = x
    out.set(v)
    r.fields.update(ptr=last, ec=0)
    return r


def parse_format(fs):
    """split a printf format into literal text and conversions"""
    out = []
    i = 0
    while i < len(fs):
        if fs[i] != '%':
            out.append(('lit', fs[i]))
            i += 1
            continue
        j = i + 1
        if fs[j] == '%':
            out.append(('lit', '%'))
            i = j + 1
            continue
        fl = ''
        while fs[j] in '-+ #0':
            fl += fs[j]
            j += 1
        w = ''
        while fs[j].isdigit():
            w += fs[j]
            j += 1
        prec = None
        if fs[j] == '.':
            j += 1
            prec = ''
            while fs[j].isdigit():
                prec += fs[j]
                j += 1
            prec = int(prec or 0)
        ln = ''
        while fs[j] in 'hlzjtqL' or fs[j:j + 3] == 'I64':
            ln += fs[j]
            j += 1
        out.append(('conv', fl, int(w) if w else 0, prec, ln, fs[j]))
        i = j + 1
    return out


def format_printf(I, fmt, args):
    fs = fmt.pystr()
    if fs is None:
        raise Unsupported('format string is not constant')
    res = []
    ai = 0
    for it in parse_format(fs):
        if it[0] == 'lit':
            res.append(Str.lit(it[1]))
            continue
        _, fl, w, prec, ln, c = it
        if ai >= len(args):
            I.P.oblige('format-has-enough-arguments', False, 'safety')
        a = V(args[ai])
        ai += 1
        if c in 'diu':
            # the conversion sees the argument as the type it names
            m = 8 if 'hh' in ln else 16 if 'h' in ln else 64 if ln and ln[0] in 'lzjt' else 32
            lo, hi = (0, (1 << m) - 1) if c == 'u' else (-(1 << (m - 1)), (1 << (m - 1)) - 1)
            a = I.asint(a)
            if not (I.P.branch(And(a >= lo, a <= hi)) if is_sym(a) else lo <= a <= hi):
                a = simp((a - lo) % (1 << m) + lo)
        if c in 'di':
            res.append(fmt_int(I, a, w, '0' in fl and '-' not in fl, '+' in fl, '-' in fl))
        elif c == 'u':
            res.append(fmt_int(I, a, w, '0' in fl, False, '-' in fl))
        elif c == 's':
            s = cstr(I, a)
            if w and s.concrete_len and len(s.chars()) < w:
                pad = [32] * (w - len(s.chars()))
                s = concat(I, s, Str([pad])) if '-' in fl else concat(I, Str([pad]), s)
            res.append(s)
        elif c == 'c':
            res.append(Str([[a]]))
        elif c in 'xX':
            m = 64 if 'l' in ln or 'z' in ln else 32
            if 'hh' in ln:
                m = 8
            a = simp(a % (1 << m))
            ds = []
            if is_sym(a):
                nd = 1
                while not I.P.branch(a < 16 ** nd):
                    nd += 1
                nd = max(nd, w if '0' in fl else 1)
                for k in range(nd - 1, -1, -1):
                    d = (a / 16 ** k) % 16
                    ds.append(If(d < 10, d + 48, d + (87 if c == 'x' else 55)))
            else:
                ds = [ord(x) for x in (('%x' if c == 'x' else '%X') % a).rjust(w, '0' if '0' in fl else ' ')]
            res.append(Str([ds]))
        elif c in 'fge' and isinstance(a, float):
            res.append(Str.lit(('%' + fl + (str(w) if w else '') + ('.%d' % prec if prec is not None else '') + c) % a))
        else:
            raise Unsupported('format conversion %' + c)
    return concat(I, *res) if res else Str()


@model('snprintf', '__builtin_snprintf')
def snprintf(I, f, this, a):
    buf, size = V(a[0]), V(a[1])
    s = format_printf(I, cstr(I, a[2]), a[3:])
    cs = s.chars()
    if cs is None:
        raise Unsupported('snprintf of a string of symbolic length')
    size = I.P.concretise(size)
    n = len(cs)
    if size > 0:
        arr, off = buf.lv.a, buf.lv.i
        k = min(n, size - 1)
        # the whole buffer must exist
        I.P.oblige('snprintf-size-fits-buffer', simp(off + size) <= arr.size(), 'safety')
        for j in range(k):
            arr.put(I, simp(off + j), cs[j])
        arr.put(I, simp(off + k), 0)
    return n


@model('sprintf')
def _(I, f, this, a):
    buf = V(a[0])
    cs = format_printf(I, cstr(I, a[1]), a[2:]).chars()
    for j, c in enumerate(cs + [0]):
        buf.lv.a.put(I, simp(buf.lv.i + j), c)
    return len(cs)


def isspace(c):
    return Or(eq(c, 32), And(c >= 9, c <= 13))


@model('sscanf', '__isoc99_sscanf')
def sscanf(I, f, this, a):
    """%Nd and %d and literal text; stops at the first failure"""
    P = I.P
    s = cstr(I, a[0])
    fs = cstr(I, a[1]).pystr()
    cs = s.chars()
    view = None
    if cs is None:
        view = s
        n = s.length()

        def at(i):
            return s.at(I, i)

        def have(i):
            return P.branch(i < n)
    else:
        def at(i):
            return cs[i]

        def have(i):
            return i < len(cs)
    pos = 0
    done = 0
    ai = 2
    items = parse_format(fs)
    for it in items:
        if it[0] == 'lit':
            c = ord(it[1])
            if c in (32, 9, 10, 11, 12, 13):
                while have(pos) and P.branch(isspace(at(pos))):
                    pos += 1
                continue
            if have(pos) and P.branch(eq(at(pos), c)):
                pos += 1
                continue
            return done if (done or have(pos)) else -1
        _, fl, w, prec, ln, c = it
        if c not in ('d', 'u', 'x', 'X'):
            raise Unsupported('sscanf conversion %' + c)
        base = 16 if c in 'xX' else 10
        is_dig = is_xdigit if base == 16 else is_digit
        guard = 0
        while have(pos) and P.branch(isspace(at(pos))):
            pos += 1
            guard += 1
            if guard > 40:
                raise Unsupported('sscanf: unbounded white space')
        if not have(pos):
            return done if done else -1
        left = w or 1000
        neg = False
        start = pos
        if P.branch(eq(at(pos), ord('-'))):
            neg = True
            pos += 1
            left -= 1
        elif P.branch(eq(at(pos), ord('+'))):
            pos += 1
            left -= 1
        ds = []
        while left > 0 and have(pos) and P.branch(is_dig(at(pos))):
            ds.append(at(pos))
            pos += 1
            left -= 1
            if len(ds) > 20:
                raise Unsupported('sscanf: unbounded number')
        if not ds:
            return done
        if base == 16 and len(ds) == 1 and left > 0 and have(pos) and not P.valid(Or(ne(ds[0], 48), And(ne(at(pos), 120), ne(at(pos), 88)))):
            raise Unsupported('sscanf: 0x')
        v = digits_value(ds) if base == 10 else xdigits_value(ds)
        if neg:
            v = -v
        dst = V(a[ai])
        ai += 1
        wd = 8 if 'hh' in ln else 16 if 'h' in ln else 64 if ln and ln[0] in 'lzjt' else 32
        if neg and c != 'd':
            raise Unsupported('sscanf: negative number read as unsigned')
        top = (1 << (wd - 1)) - 1 if c == 'd' else (1 << wd) - 1
        if is_sym(v):
            nv = P.fresh_int('scan', -(base ** len(ds)) if neg else 0, base ** len(ds))
            P.assume(nv == v)
            v = nv
        if base ** len(ds) > top:
            P.oblige('sscanf-value-in-range', And(v >= -top - 1, v <= top), 'safety')
        dst.lv.set(v)
        done += 1
    return done


# ---------------------------------------------------------------- characters

@model('isspace', 'std::isspace')
def _(I, f, t, a):
    return If(isspace(V(a[0])), 1, 0)


@model('isdigit', 'std::isdigit')
def _(I, f, t, a):
    return If(is_digit(V(a[0])), 1, 0)


@model('isalpha', 'std::isalpha')
def _(I, f, t, a):
    c = V(a[0])
    return If(Or(And(c >= 65, c <= 90), And(c >= 97, c <= 122)), 1, 0)


@model('isalnum', 'std::isalnum')
def _(I, f, t, a):
    c = V(a[0])
    return If(Or(is_digit(c), And(c >= 65, c <= 90), And(c >= 97, c <= 122)), 1, 0)


@model('tolower', 'std::tolower')
def _(I, f, t, a):
    c = V(a[0])
    return If(And(c >= 65, c <= 90), c + 32, c)


@model('toupper', 'std::toupper')
def _(I, f, t, a):
    c = V(a[0])
    return If(And(c >= 97, c <= 122), c - 32, c)


def lower(c):
    return If(And(c >= 65, c <= 90), c + 32, c)


@model('boost::algorithm::iequals')
def _(I, f, t, a):
    x, y = tostr(I, a[0]), tostr(I, a[1])
    if x.chars() is None and y.chars() is not None:
        x, y = y, x
    xc = x.chars()
    if xc is None:
        raise Unsupported('iequals of two strings of symbolic length')
    if y.chars() is not None and len(y.chars()) != len(xc):
        return False
    return And([eq(y.length(), len(xc))] + [eq(lower(c), lower(y.at(I, k))) for k, c in enumerate(xc)])


@model('boost::algorithm::is_any_of')
def _(I, f, t, a):
    cs = tostr(I, a[0]).chars()
    # a literal is taken without its terminator
    return Lib('is_any_of', chars=cs[:-1] if isinstance(V(a[0]), Arr) and cs and not is_sym(cs[-1]) and cs[-1] == 0 else cs)


@ctor('boost::algorithm::detail::is_any_ofF')
def _(I, f, t, a):
    return V(a[0]).copy(I)


@model('boost::algorithm::split')
def split(I, f, t, a):
    out, s, pred = V(a[0]), tostr(I, a[1]), V(a[2])
    if len(a) > 3 and V(a[3]) not in (1, 0):
        raise Unsupported('split with a symbolic compress flag')
    compress = len(a) > 3 and V(a[3]) == 0
    P = I.P
    if not isinstance(pred, Lib):
        fn = I.callable_of(pred)
        ok = lambda c: I.truth(I.rv(fn(c)))
    else:
        ok = lambda c: Or([eq(c, x) for x in pred.chars])
    parts = []
    cs = s.chars()
    if cs is not None:
        cur = []
        prev = False
        for c in cs:
            if P.branch(ok(c)):
                if not (compress and prev):
                    parts.append(Str([cur]) if cur else Str())
                    cur = []
                prev = True
            else:
                cur.append(c)
                prev = False
        parts.append(Str([cur]) if cur else Str())
    else:
        if compress:
            raise Unsupported('compressing split of a string of symbolic length')
        pos = 0
        lim = I.opts.get('split_limit', 8)
        while True:
            r = find_char(I, s, ok, pos, 'sep')
            if not is_sym(r) and r == NPOS:
                parts.append(s.substr(I, pos, simp(s.length() - pos)))
                break
            parts.append(s.substr(I, pos, simp(r - pos)))
            pos = simp(r + 1)
            if len(parts) >= lim:
                # more pieces than the code under contract distinguishes: the tail is left unsplit and marked
                parts.append(Str([View(z3.Array(P.fresh('tail'), z3.IntSort(), z3.IntSort()), 0, P.fresh_int('tail_len', 0, None))]))
                I.P.notes.append('split: at least %d pieces' % len(parts))
                break
    I.wrote(out, 'elems')
    I.wrote(out, 'len')
    out.items = parts
    out.arr = None
    return ObjLV(out)


@model('boost::algorithm::trim')
def _(I, f, t, a):
    s = V(a[0])
    cs = s.chars()
    if cs is None:
        raise Unsupported('trim of a string of symbolic length')
    while cs and I.P.branch(isspace(cs[0])):
        cs = cs[1:]
    while cs and I.P.branch(isspace(cs[-1])):
        cs = cs[:-1]
    s.assign(I, Str([cs]))


@model('boost::algorithm::replace_all')
def _(I, f, t, a):
    s, x, y = V(a[0]), tostr(I, a[1]), tostr(I, a[2])
    cs, xs = s.chars(), x.chars()
    if cs is None or xs is None:
        raise Unsupported('replace_all in a string of symbolic length')
    out = []
    k = 0
    while k < len(cs):
        if k + len(xs) <= len(cs) and I.P.branch(And([eq(cs[k + j], xs[j]) for j in range(len(xs))])):
            out += y.parts
            k += len(xs)
        else:
            out.append([cs[k]])
            k += 1
    s.assign(I, Str(out).norm())


@model('boost::algorithm::starts_with')
def _(I, f, t, a):
    s, p = tostr(I, a[0]), tostr(I, a[1])
    pc = p.chars()
    if pc is None:
        raise Unsupported('starts_with')
    return And([s.length() >= len(pc)] + [eq(s.at(I, k), pc[k]) for k in range(len(pc))])


@model('boost::algorithm::to_lower')
def _(I, f, t, a):
    s = V(a[0])
    s.assign(I, Str([[lower(c) for c in s.chars()]]))


# ---------------------------------------------------------------- vectors

def linked(t, v):
    if t.n == 'std::list':
        v.refs = []
    return v


@ctor('std::vector', 'std::list', 'std::deque')
def _(I, f, t, args):
    return linked(t, vector_ctor(I, f, t, args))


def vector_ctor(I, f, t, args):
    ps = f['params']
    a = [x for x, p in zip(args, ps) if not (p['t'].k == 'ref' and p['t'].p.n == 'std::allocator')]
    et = t.a[0]
    if not a:
        return Arr(et, [])
    x = V(a[0])
    if isinstance(x, Arr):
        return x.copy(I) if x.kind != 'carray' else Arr(et, [copyval(I, y) for y in x.items])
    if isinstance(x, Ptr):
        y = V(a[1])
        n = I.P.concretise(simp(y.lv.i - x.lv.i))
        return Arr(et, [copyval(I, x.lv.a.get(I, simp(x.lv.i + k))) for k in range(n)])
    n = simp(x)
    if is_sym(n):
        lo, hi = I.P.bounds(n)
        if et.isint or et.k in ('float', 'bool'):
            srt = z3.IntSort() if et.isint else z3.RealSort() if et.k == 'float' else z3.BoolSort()
            fill = V(a[1]) if len(a) > 1 else I.default(et, True)
            return Arr(et, None, z3.K(z3.IntSort(), I.to_sort(fill, srt)), n)
        n = I.P.concretise(n)
    if len(a) > 1:
        return Arr(et, [copyval(I, V(a[1])) for _ in range(n)])
    return Arr(et, [I.default(et, True) for _ in range(n)])


@model('std::vector::size', 'std::list::size', 'std::array::size', 'std::deque::size', 'std::initializer_list::size', 'std::vector::length')
def _(I, f, v, a):
    return v.size()


@model('std::vector::empty', 'std::list::empty')
def _(I, f, v, a):
    return eq(v.size(), 0)


def elem(I, v, i):
    i = simp(i)
    if isinstance(v, Str):
        return ElemLV(I, v, i)
    n = v.size()
    if not is_sym(i) and not is_sym(n) and 0 <= i < n:
        x = v.items[i] if v.items is not None else None
        if isinstance(x, Obj):
            return ObjLV(x)
    elif v.items is not None and v.items and isinstance(v.items[0], Obj):
        return ObjLV(v.get(I, i))
    return ElemLV(I, v, i)


@model('std::vector::operator[]', 'std::array::operator[]', 'std::deque::operator[]')
def _(I, f, v, a):
    return elem(I, v, V(a[0]))


@model('std::vector::at', 'std::array::at')
def _(I, f, v, a):
    if not I.P.branch(And(V(a[0]) >= 0, V(a[0]) < v.size())):
        throw('std::out_of_range')
    return elem(I, v, V(a[0]))


@model('std::vector::front', 'std::list::front')
def _(I, f, v, a):
    I.P.oblige('front-of-nonempty-container', v.size() > 0, 'safety')
    return elem(I, v, 0)


@model('std::vector::back', 'std::list::back')
def _(I, f, v, a):
    I.P.oblige('back-of-nonempty-container', v.size() > 0, 'safety')
    return elem(I, v, simp(v.size() - 1))


@model('std::vector::begin', 'std::vector::cbegin', 'std::list::begin', 'std::array::begin', 'std::initializer_list::begin')
def _(I, f, v, a):
    return Ptr(ElemLV(I, v, 0))


@model('std::vector::data', 'std::array::data')
def _(I, f, v, a):
    return Ptr(ElemLV(I, v, 0))


@model('std::vector::end', 'std::vector::cend', 'std::list::end', 'std::array::end', 'std::initializer_list::end')
def _(I, f, v, a):
    return Ptr(ElemLV(I, v, v.size()))


@model('std::vector::push_back', 'std::vector::emplace_back', 'std::list::push_back')
def _(I, f, v, a):
    I.wrote(v, 'elems')
    I.wrote(v, 'len')
    if f['sn'].endswith('emplace_back') and v.t.k == 'rec':
        x = [V(y) for y in a]
        if len(x) == 1 and isinstance(x[0], Obj) and getattr(x[0], 't', None) is v.t:
            x = copyval(I, x[0])
        elif v.t.n == 'std::pair' and len(x) == 2:
            s = StructObj(v.t)
            s.fields['first'], s.fields['second'] = copyval(I, x[0]), copyval(I, x[1])
            x = s
        elif v.t.n == STRING:
            x = tostr(I, x[0]).copy(I) if x else Str()
        else:
            cs = [g for g in I.prog.functions.values() if g.get('fk') == 'ctor' and g.get('cls') is v.t and len(g['params']) == len(a) and g.get('ck') == 'other' and g.get('body')]
            if len(cs) != 1:
                raise Unsupported('emplace_back of ' + v.t.key)
            x = I.construct(cs[0], v.t, a)
    else:
        x = copyval(I, V(a[0]))
        if isinstance(x, bool) is False and v.t is not None and v.t.k == 'rec' and v.t.n == STRING and isinstance(x, Ptr):
            x = cstr(I, x)
    if v.items is not None:
        if isinstance(x, Obj) and v.name:
            I.nameobj(x, '%s[%d]' % (v.name, len(v.items)))
        v.items.append(x)
        v.moved(I, len(v.items) - 1, 1)
    else:
        v.arr = z3.Store(v.arr, num(v.n), I.to_sort(x, v.arr.sort().range()))
        v.n = simp(v.n + 1)
    return elem(I, v, simp(v.size() - 1)) if f['sn'].endswith('emplace_back') else None


@model('std::vector::pop_back')
def _(I, f, v, a):
    I.P.oblige('pop-from-nonempty-container', v.size() > 0, 'safety')
    I.wrote(v, 'len')
    if v.items is not None:
        v.items.pop()
    else:
        v.n = simp(v.n - 1)


@model('std::vector::clear', 'std::list::clear')
def _(I, f, v, a):
    I.wrote(v, 'elems')
    I.wrote(v, 'len')
    v.items = []
    v.arr = None


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def _(I, f, v, a):
    return None


@model('std::vector::resize')
def _(I, f, v, a):
    n = V(a[0])
    I.wrote(v, 'len')
    I.wrote(v, 'elems')
    if v.items is None:
        raise Unsupported('resize of a vector of symbolic length')
    n = I.P.concretise(n)
    if n < len(v.items):
        del v.items[n:]
    else:
        while len(v.items) < n:
            v.items.append(copyval(I, V(a[1])) if len(a) > 1 else I.default(v.t, True))


@model('std::vector::assign')
def _(I, f, v, a):
    x = V(a[0])
    I.wrote(v, 'len')
    I.wrote(v, 'elems')
    if isinstance(x, Ptr):
        y = V(a[1])
        n = I.P.concretise(simp(y.lv.i - x.lv.i))
        v.items = [copyval(I, x.lv.a.get(I, simp(x.lv.i + k))) for k in range(n)]
    elif isinstance(x, Arr):
        v.items = list(x.items)
    else:
        v.items = [copyval(I, V(a[1])) for _ in range(I.P.concretise(x))]


@model('std::vector::operator=', 'std::list::operator=', 'std::array::operator=')
def _(I, f, v, a):
    v.assign(I, V(a[0]))
    return ObjLV(v)


@model('std::vector::erase', 'std::list::erase')
def _(I, f, v, a):
    i = I.P.concretise(V(a[0]).lv.i)
    j = I.P.concretise(V(a[1]).lv.i) if len(a) > 1 else i + 1
    I.P.oblige('erase-range-valid', And(i >= 0, i <= j, j <= v.size()), 'safety')
    I.wrote(v, 'len')
    I.wrote(v, 'elems')
    if v.items is None:
        raise Unsupported('erase from a vector of symbolic length')
    del v.items[i:j]
    v.moved(I, i, i - j)
    return Ptr(ElemLV(I, v, i))


@model('std::vector::insert', 'std::list::insert')
def _(I, f, v, a):
    i = I.P.concretise(V(a[0]).lv.i)
    I.wrote(v, 'len')
    I.wrote(v, 'elems')
    if v.items is None:
        raise Unsupported('insert into a vector of symbolic length')
    x = V(a[1])
    if isinstance(x, Ptr) and len(a) == 3 and isinstance(V(a[2]), Ptr):
        n = I.P.concretise(simp(V(a[2]).lv.i - x.lv.i))
        new = [copyval(I, x.lv.a.get(I, simp(x.lv.i + k))) for k in range(n)]
    else:
        new = [copyval(I, x)]
    v.items[i:i] = new
    v.moved(I, i, len(new))
    return Ptr(ElemLV(I, v, i))


# iterators are pointers
def it_deref(I, f, p, a):
    if isinstance(p, MapIt):
        return map_it_deref(I, p)
    v = p.lv.get() if isinstance(p.lv, ElemLV) else p.lv.get()
    return ObjLV(v) if isinstance(v, Obj) else p.lv


def map_it_deref(I, p):
    if p.i >= len(p.m.items):
        I.P.oblige('no-dereference-of-end-iterator', False, 'safety')
    it = p.m.items[p.i]
    s = StructObj(None)
    s.fields['first'] = it[0]
    s.fields['second'] = it[1]
    return ObjLV(s)


for _n in ('__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
           'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'iterator'):
    H[_n + '::operator*'] = it_deref

    def _arrow(I, f, p, a):
        r = it_deref(I, f, p, a)
        return Ptr(r)
    H[_n + '::operator->'] = _arrow

    def _inc(I, f, p, a, d=1):
        post = len(a) == 1
        old = Ptr(ElemLV(I, p.lv.a, p.lv.i)) if isinstance(p, Ptr) else MapIt(p.m, p.i)
        if isinstance(p, Ptr):
            p.lv = ElemLV(I, p.lv.a, simp(p.lv.i + d))
            return old if post else CellLV(I, Cell(p))
        p.i += d
        return old if post else CellLV(I, Cell(p))
    H[_n + '::operator++'] = _inc
    H[_n + '::operator--'] = lambda I, f, p, a: _inc(I, f, p, a, -1)
    H[_n + '::operator+'] = lambda I, f, p, a: I.ptrop('+', p, V(a[0]))
    H[_n + '::operator-'] = lambda I, f, p, a: I.ptrop('-', p, V(a[0]))

    def _addeq(I, f, p, a):
        p.lv = I.ptrop('+', p, V(a[0])).lv
        return CellLV(I, Cell(p))
    H[_n + '::operator+='] = _addeq

    def _subeq(I, f, p, a):
        p.lv = I.ptrop('-', p, V(a[0])).lv
        return CellLV(I, Cell(p))
    H[_n + '::operator-='] = _subeq
    H[_n + '::operator[]'] = lambda I, f, p, a: elem(I, p.lv.a, simp(p.lv.i + V(a[0])))

    def _itctor(I, f, t, a):
        x = V(a[0]) if a else NULL
        return Ptr(x.lv) if isinstance(x, Ptr) else MapIt(x.m, x.i) if isinstance(x, MapIt) else x
    CTOR[_n] = _itctor


@model('__gnu_cxx::operator-')
def _(I, f, t, a):
    return simp(V(a[0]).lv.i - V(a[1]).lv.i)


@model('std::next')
def _(I, f, t, a):
    return I.ptrop('+', V(a[0]), V(a[1]))


@model('std::prev')
def _(I, f, t, a):
    return I.ptrop('-', V(a[0]), V(a[1]))


@model('std::distance')
def _(I, f, t, a):
    return simp(V(a[1]).lv.i - V(a[0]).lv.i)


@model('std::begin', 'std::cbegin')
def _(I, f, t, a):
    return Ptr(ElemLV(I, V(a[0]), 0))


@model('std::end', 'std::cend')
def _(I, f, t, a):
    return Ptr(ElemLV(I, V(a[0]), V(a[0]).size()))


def rng(I, a, b):
    a, b = V(a), V(b)
    n = I.P.concretise(simp(b.lv.i - a.lv.i))
    return [elem(I, a.lv.a, simp(a.lv.i + k)) for k in range(n)]


@model('std::find')
def _(I, f, t, a):
    p = V(a[0])
    for k, lv in enumerate(rng(I, a[0], a[1])):
        if I.P.branch(deep_eq(I, lv, a[2])):
            return Ptr(ElemLV(I, p.lv.a, simp(p.lv.i + k)))
    return V(a[1])


@model('std::find_if', 'std::find_if_not')
def _(I, f, t, a):
    p = V(a[0])
    fn = I.callable_of(a[2])
    neg = f['sn'].endswith('not')
    for k, lv in enumerate(rng(I, a[0], a[1])):
        if I.P.branch(I.truth(I.rv(fn(lv)))) != neg:
            return Ptr(ElemLV(I, p.lv.a, simp(p.lv.i + k)))
    return V(a[1])


@model('std::any_of', 'std::all_of', 'std::none_of')
def _(I, f, t, a):
    fn = I.callable_of(a[2])
    kind = f['sn']
    for lv in rng(I, a[0], a[1]):
        r = I.P.branch(I.truth(I.rv(fn(lv))))
        if kind.endswith('any_of') and r:
            return True
        if kind.endswith('all_of') and not r:
            return False
        if kind.endswith('none_of') and r:
            return False
    return not kind.endswith('any_of')


@model('std::count_if')
def _(I, f, t, a):
    fn = I.callable_of(a[2])
    return sum(1 for lv in rng(I, a[0], a[1]) if I.P.branch(I.truth(I.rv(fn(lv)))))


@model('std::count')
def _(I, f, t, a):
    return sum(1 for lv in rng(I, a[0], a[1]) if I.P.branch(deep_eq(I, lv, a[2])))


def each(I, f, a, b, body):
    """body(k, element) for each element of a range; a range of any length is a loop like any other"""
    a, b = V(a), V(b)
    n = simp(b.lv.i - a.lv.i)
    if not is_sym(n) or I.cut_after is None:
        for k in range(I.P.concretise(n)):
            body(k, elem(I, a.lv.a, simp(a.lv.i + k)))
        return
    idx = Cell(0, I.lib.size_t(), None)
    I.name(idx, I.tempname(f['sn'] + '@' + I.P.where))

    def cond():
        h = I.opts.get('cmp_hook')
        if h:
            h(idx.v, n)
        return I.compare('<', idx.v, n)
    I.loop({'l': I.P.where, 'k': f['sn']}, cond, lambda: body(idx.v, elem(I, a.lv.a, simp(a.lv.i + idx.v))), lambda: CellLV(I, idx).set(idx.v + 1))


@model('std::for_each')
def _(I, f, t, a):
    fn = I.callable_of(a[2])
    each(I, f, a[0], a[1], lambda k, lv: fn(lv))
    return a[2]


@model('std::accumulate')
def _(I, f, t, a):
    acc = V(a[2])
    fn = I.callable_of(a[3]) if len(a) > 3 else None
    for lv in rng(I, a[0], a[1]):
        if fn:
            acc = I.rv(fn(acc, lv))
        elif f['ret'].k == 'float':
            acc = I.fltop('+', acc, V(lv))
        elif isinstance(acc, Str):
            acc = concat(I, acc, V(lv))
        else:
            acc = I.arith_result(acc + I.asint(V(lv)), f['ret'])
    return acc


def output(I, out):
    """functions storing through an output iterator"""
    out = V(out)
    if isinstance(out, Lib) and out.cls == 'back_inserter':
        def put(x):
            H['std::vector::push_back']({}, None, None, None) if False else None
            v = out.v
            I.wrote(v, 'elems')
            I.wrote(v, 'len')
            v.items.append(copyval(I, x))
        return put, lambda: out
    st = {'k': 0}

    def put(x):
        lv = elem(I, out.lv.a, simp(out.lv.i + st['k']))
        o = lv.get() if isinstance(lv, ObjLV) else None
        if o is not None:
            o.assign(I, x)
        else:
            lv.set(x)
        st['k'] += 1
    return put, lambda: Ptr(ElemLV(I, out.lv.a, simp(out.lv.i + st['k'])))


@model('std::back_inserter')
def _(I, f, t, a):
    return Lib('back_inserter', v=V(a[0]))


@ctor('std::back_insert_iterator')
def _(I, f, t, a):
    x = V(a[0])
    r = Lib('back_inserter')
    r.v = x.v
    return r


@model('std::transform')
def _(I, f, t, a):
    if len(a) == 5:
        fn = I.callable_of(a[4])
        put, fin = output(I, a[3])
        y = V(a[2])
        for k, lv in enumerate(rng(I, a[0], a[1])):
            put(I.rv(fn(lv, elem(I, y.lv.a, simp(y.lv.i + k)))))
        return fin()
    fn = I.callable_of(a[3])
    x, y, o = V(a[0]), V(a[1]), V(a[2])
    if isinstance(x.lv.a, Str) and x.lv.a.chars() is None and isinstance(o, Ptr) and o.lv.a is x.lv.a:
        # whole string of symbolic length, in place
        s = x.lv.a
        if len(s.parts) == 1 and not is_sym(x.lv.i) and x.lv.i == 0 and not is_sym(o.lv.i) and o.lv.i == 0 and y.lv.a is s and I.P.valid(eq(y.lv.i, s.length())):
            v = s.parts[0]
            k = z3.Int('k!map')
            body = I.pure_term(lambda c: I.wrap(I.rv(fn(c)), vast._types['char']), I.select_char(v.arr, k))
            I.wrote(s, 'elems')
            s.parts = [View(z3.Lambda([k], num(body)), v.off, v.n)]
            return Ptr(ElemLV(I, s, s.length()))
    return map_range(I, f, a[0], a[1], a[2], lambda lv: I.rv(fn(lv)))


def map_range(I, f, first, last, out, fn):
    x, y, o = V(first), V(last), V(out)
    n = simp(y.lv.i - x.lv.i)
    if is_sym(n) and I.cut_after is not None and isinstance(o, Ptr):
        def body(k, lv):
            elem(I, o.lv.a, simp(o.lv.i + k)).set(fn(lv))
        each(I, f, first, last, body)
        return Ptr(ElemLV(I, o.lv.a, simp(o.lv.i + n)))
    put, fin = output(I, out)
    for lv in rng(I, first, last):
        put(fn(lv))
    return fin()


@model('std::copy', 'std::move_range')
def _(I, f, t, a):
    return map_range(I, f, a[0], a[1], a[2], V)


@model('std::copy_if')
def _(I, f, t, a):
    put, fin = output(I, a[2])
    fn = I.callable_of(a[3])
    for lv in rng(I, a[0], a[1]):
        if I.P.branch(I.truth(I.rv(fn(lv)))):
            put(V(lv))
    return fin()


@model('std::copy_n')
def _(I, f, t, a):
    p = V(a[0])
    put, fin = output(I, a[2])
    for k in range(I.P.concretise(V(a[1]))):
        put(V(elem(I, p.lv.a, simp(p.lv.i + k))))
    return fin()


@model('std::fill')
def _(I, f, t, a):
    p, q = V(a[0]), V(a[1])
    if isinstance(p, Ptr) and isinstance(q, Ptr) and isinstance(p.lv, ElemLV) and q.lv.a is p.lv.a and p.lv.a.items is None and is_sym(simp(q.lv.i - p.lv.i)):
        p.lv.a.fill(I, p.lv.i, simp(q.lv.i - p.lv.i), V(a[2]))
        return
    for lv in rng(I, a[0], a[1]):
        if isinstance(lv, ObjLV):
            lv.o.assign(I, V(a[2]))
        else:
            lv.set(V(a[2]))


@model('std::fill_n')
def _(I, f, t, a):
    p = V(a[0])
    if isinstance(p, Ptr) and isinstance(p.lv, ElemLV) and p.lv.a.items is None and is_sym(simp(V(a[1]))):
        p.lv.a.fill(I, p.lv.i, simp(V(a[1])), V(a[2]))
        return Ptr(ElemLV(I, p.lv.a, simp(p.lv.i + V(a[1]))))
    for k in range(I.P.concretise(V(a[1]))):
        elem(I, p.lv.a, simp(p.lv.i + k)).set(V(a[2]))


@model('std::equal')
def _(I, f, t, a):
    x, e, y = V(a[0]), V(a[1]), V(a[2])
    if len(a) > 3 or not all(isinstance(q, Ptr) and isinstance(q.lv, ElemLV) for q in (x, e, y)):
        raise Unsupported('std::equal of this kind')
    n = simp(e.lv.i - x.lv.i)
    if is_sym(n) and x.lv.a is e.lv.a and x.lv.a.items is None and y.lv.a.items is None:
        I.P.oblige('equal-in-range', And(x.lv.i >= 0, n >= 0, e.lv.i <= x.lv.a.size(), y.lv.i >= 0, y.lv.i + n <= y.lv.a.size()), 'safety')
        return same_elements(I, x, y, n)
    cs = []
    for k, lv in enumerate(rng(I, a[0], a[1])):
        cs.append(deep_eq(I, lv, elem(I, y.lv.a, simp(y.lv.i + k))))
    return And(cs)


@model('std::remove_if', 'std::remove')
def _(I, f, t, a):
    p = V(a[0])
    fn = I.callable_of(a[2]) if f['sn'].endswith('_if') else None
    n = 0
    for lv in rng(I, a[0], a[1]):
        v = V(lv)
        v = copyval(I, v)
        drop = I.P.branch(I.truth(I.rv(fn(lv)))) if fn else I.P.branch(deep_eq(I, lv, a[2]))
        if not drop:
            dst = elem(I, p.lv.a, simp(p.lv.i + n))
            if isinstance(dst, ObjLV):
                dst.o.assign(I, v)
            else:
                dst.set(v)
            n += 1
    return Ptr(ElemLV(I, p.lv.a, simp(p.lv.i + n)))


@model('std::unique')
def _(I, f, t, a):
    p = V(a[0])
    ls = rng(I, a[0], a[1])
    if not ls:
        return V(a[1])
    n = 1
    for lv in ls[1:]:
        prev = elem(I, p.lv.a, simp(p.lv.i + n - 1))
        v = copyval(I, V(lv))
        if not I.P.branch(deep_eq(I, prev, v)):
            dst = elem(I, p.lv.a, simp(p.lv.i + n))
            if isinstance(dst, ObjLV):
                dst.o.assign(I, v)
            else:
                dst.set(v)
            n += 1
    return Ptr(ElemLV(I, p.lv.a, simp(p.lv.i + n)))


@model('std::sort', 'std::stable_sort')
def _(I, f, t, a):
    ls = rng(I, a[0], a[1])
    fn = I.callable_of(a[2]) if len(a) > 2 else None
    vals = [copyval(I, V(l)) for l in ls]
    out = []
    for v in vals:     # insertion sort: decisions are forked
        k = len(out)
        while k > 0:
            less = I.truth(I.rv(fn(v, out[k - 1]))) if fn else deep_lt(I, v, out[k - 1])
            if not I.P.branch(less):
                break
            k -= 1
        out.insert(k, v)
    p = V(a[0])
    for k, v in enumerate(out):
        dst = elem(I, p.lv.a, simp(p.lv.i + k))
        if isinstance(dst, ObjLV):
            dst.o.assign(I, v)
        else:
            dst.set(v)


@model('std::reverse')
def _(I, f, t, a):
    ls = rng(I, a[0], a[1])
    vals = [copyval(I, V(l)) for l in ls]
    for l, v in zip(ls, reversed(vals)):
        if isinstance(l, ObjLV):
            l.o.assign(I, v)
        else:
            l.set(v)


@model('std::swap')
def _(I, f, t, a):
    x, y = V(a[0]), V(a[1])
    if isinstance(x, Obj):
        cx, cy = copyval(I, x), copyval(I, y)
        if isinstance(x, StructObj):
            for k in x.fields:
                I.wrote(x, k)
                I.wrote(y, k)
            x.fields, y.fields = dict(y.fields), dict(x.fields)
            return
        x.assign(I, cy)
        y.assign(I, cx)
    else:
        a[0].set(y)
        a[1].set(x)


# ---------------------------------------------------------------- min, max, math

@model('std::min', 'std::max', 'std::clamp')
def _(I, f, t, a):
    xs = a
    if len(a) == 1:
        xs = [elem(I, V(a[0]), k) for k in range(V(a[0]).size())]
    merge = I.opts.get('merge') and all(not isinstance(V(x), Obj) for x in xs)

    def less(x, y):
        return deep_lt(I, x, y)
    r = xs[0]
    if f['sn'].endswith('clamp'):
        steps = [(lambda: less(r, xs[1]), xs[1]), (lambda: less(xs[2], r), xs[2])]
    elif f['sn'].endswith('min'):
        steps = [(lambda y=y: less(y, r), y) for y in xs[1:]]
    else:
        steps = [(lambda y=y: less(r, y), y) for y in xs[1:]]
    for c, y in steps:
        c = c()
        if merge and is_sym(c):
            r = If(c, V(y), V(r))
        elif I.P.branch(c):
            r = y
    return r if f['ret'].k == 'ref' else V(r)


@model('abs', 'std::abs', 'labs', 'llabs')
def _(I, f, t, a):
    v = V(a[0])
    if f['ret'].k == 'float':
        return fabs(I, v)
    if I.P.branch(v >= 0):
        return v
    return I.arith_result(-v, f['ret'])


def fabs(I, v):
    if isinstance(v, float):
        return abs(v)
    if I.P.branch(v >= 0):
        return v
    return -v


@model('fabs', 'std::fabs', 'fabsf')
def _(I, f, t, a):
    return fabs(I, V(a[0]))


def real(I, v):
    return I.to_sort(v, z3.RealSort())


@model('floor', 'std::floor', 'floorf')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, float):
        return float(math.floor(v)) if math.isfinite(v) else v
    n = I.P.fresh_int('floor')
    I.P.assume(n == z3.ToInt(v))
    return z3.ToReal(n)


@model('ceil', 'std::ceil', 'ceilf')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, float):
        return float(math.ceil(v)) if math.isfinite(v) else v
    n = I.P.fresh_int('ceil')
    I.P.assume(n == -z3.ToInt(-v))
    return z3.ToReal(n)


def round_even(I, v):
    n = I.P.fresh_int('lrint')
    fl = z3.ToInt(v)
    d = v - z3.ToReal(fl)
    I.P.assume(n == z3.If(d < z3.Q(1, 2), fl, z3.If(d > z3.Q(1, 2), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
    return n


@model('lrint', 'lrintf', 'llrint', 'std::lrint')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, float):
        if not math.isfinite(v):
            I.P.oblige('float-to-int-in-range', False, 'safety')
        return round(v)
    n = round_even(I, v)
    r = f['ret']
    I.P.oblige('float-to-int-in-range', z3.And(n >= r.lo, n <= r.hi), 'safety')
    I.P.ranges[n.decl().name()] = (r.lo, r.hi)
    return n


@model('rint', 'nearbyint', 'std::rint', 'std::nearbyint')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, float):
        return float(round(v))
    return z3.ToReal(round_even(I, v))


def round_away(I, v):
    n = I.P.fresh_int('round')
    I.P.assume(n == z3.If(v >= 0, z3.ToInt(v + z3.Q(1, 2)), -z3.ToInt(-v + z3.Q(1, 2))))
    return n


@model('lround', 'std::lround', 'llround', 'lroundf')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, float):
        if not math.isfinite(v):
            I.P.oblige('float-to-int-in-range', False, 'safety')
        return int(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1)
    return round_away(I, v)


@model('round', 'std::round', 'roundf')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, float):
        return math.copysign(math.floor(abs(v) + 0.5), v)
    return z3.ToReal(round_away(I, v))


POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
LOG10 = z3.Function('log10', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


@model('pow', 'std::pow', 'powf')
def _(I, f, t, a):
    x, y = V(a[0]), V(a[1])
    x = float(x) if isinstance(x, int) else x
    y = float(y) if isinstance(y, int) else y
    if isinstance(x, float) and isinstance(y, float):
        try:
            return math.pow(x, y)
        except (ValueError, ZeroDivisionError):
            return math.nan
        except OverflowError:
            return math.inf
    if is_sym(y) and z3.is_int(y):
        y = z3.ToReal(y)
    if isinstance(y, float) and y == int(y) and 0 <= y <= 4:
        r = 1.0
        for _k in range(int(y)):
            r = I.fltop('*', r, x)
        return r
    if isinstance(x, float) and x == 2.0 and is_sym(y):
        # 2 to a symbolic integer power
        e = z3.simplify(y)
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            e = e.arg(0)
            r = POW(real(I, x), y)
            for k in range(62, -1, -1):
                r = z3.If(e == k, z3.RealVal(1 << k), r)
            n = I.P.fresh_int('pow2')
            if I.P.valid(z3.And(e >= 0, e <= 62)):
                c = z3.IntVal(1 << 62)
                for k in range(61, -1, -1):
                    c = z3.If(e == k, z3.IntVal(1 << k), c)
                I.P.assume(n == c)
                return z3.ToReal(n)
            return r
    r = POW(real(I, x), real(I, y))
    I.P.assume(z3.Implies(real(I, x) > 0, r > 0))
    return r


@model('sqrt', 'std::sqrt')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, float):
        return math.sqrt(v) if v >= 0 else math.nan
    r = SQRT(v)
    I.P.assume(z3.Implies(v >= 0, z3.And(r >= 0, r * r == v)))
    return r


@model('log10', 'std::log10')
def _(I, f, t, a):
    v = V(a[0])
    if isinstance(v, float):
        return math.log10(v) if v > 0 else (-math.inf if v == 0 else math.nan)
    return LOG10(v)


@model('std::move', 'std::forward', 'std::move_if_noexcept')
def _(I, f, t, a):
    return a[0]


# ---------------------------------------------------------------- optional

@ctor('boost::optional', 'std::optional')
def _(I, f, t, args):
    if not args:
        return Opt()
    x = V(args[0])
    if isinstance(x, Lib) and x.cls in ('boost::none_t', 'std::nullopt_t'):
        return Opt()
    if isinstance(x, Opt):
        et0 = x.val
        r = x.copy(I)
        et = t.a[0]
        if et.n == STRING and r.val is not None and not isinstance(r.val, Str):
            r.val = tostr(I, r.val)
        return r
    if len(args) == 2 and (isinstance(x, bool) or (is_sym(x) and z3.is_bool(x))):
        return Opt(x, copyval(I, V(args[1])))
    et = t.a[0]
    if et.n == STRING and not isinstance(x, Str):
        x = tostr(I, x)
    return Opt(True, copyval(I, x))


@model('boost::optional::operator bool', 'boost::optional::is_initialized', 'boost::optional::has_value', 'std::optional::operator bool', 'std::optional::has_value')
def _(I, f, o, a):
    return o.has


@model('boost::optional::operator!')
def _(I, f, o, a):
    return Not(o.has)


def optlv(I, o):
    if isinstance(o.val, Obj):
        return ObjLV(o.val)

    def setv(v):
        I.wrote(o, None)
        o.val = v
    return FnLV(lambda: o.val, setv)


@model('boost::optional::operator*', 'boost::optional::get', 'boost::get', 'std::optional::operator*')
def _(I, f, o, a):
    if o is None:
        o = V(a[0])
    I.P.oblige('optional-has-a-value', o.has, 'safety')
    return optlv(I, o)


@model('boost::optional::value', 'std::optional::value')
def _(I, f, o, a):
    if not I.P.branch(o.has):
        throw('boost::bad_optional_access')
    return optlv(I, o)


@model('boost::optional::operator->', 'std::optional::operator->', 'boost::optional::get_ptr')
def _(I, f, o, a):
    I.P.oblige('optional-has-a-value', o.has, 'safety')
    return Ptr(optlv(I, o))


@model('boost::optional::get_value_or', 'boost::optional::value_or', 'boost::get_optional_value_or', 'std::optional::value_or')
def _(I, f, o, a):
    if o is None:
        o, a = V(a[0]), a[1:]
    if I.P.branch(o.has):
        r = optlv(I, o)
    else:
        r = a[0]
    if f['ret'].k != 'ref':
        v = copyval(I, V(r))
        if isinstance(v, Ptr) and f['ret'].n == STRING:
            v = cstr(I, v)
        return v
    return r


@model('boost::optional::operator=', 'std::optional::operator=')
def _(I, f, o, a):
    x = V(a[0])
    I.wrote(o, None)
    if isinstance(x, Lib) and x.cls == 'boost::none_t':
        o.has, o.val = False, None
    elif isinstance(x, Opt):
        o.has, o.val = x.has, copyval(I, x.val)
    else:
        if f['cls'].a[0].n == STRING:
            x = tostr(I, x)
        o.has, o.val = True, copyval(I, x)
    if isinstance(o.val, Obj) and o.name:
        I.nameobj(o.val, o.name + '.*')
    return ObjLV(o)


@model('boost::optional::reset', 'std::optional::reset')
def _(I, f, o, a):
    I.wrote(o, None)
    o.has, o.val = False, None


@ctor('boost::none_t')
def _(I, f, t, a):
    return Lib('boost::none_t')


@ctor('std::allocator', 'std::less', 'std::hash', 'std::equal_to', 'std::locale')
def _(I, f, t, a):
    return Lib(t.n)


# ---------------------------------------------------------------- maps

@ctor('std::map', 'std::unordered_map', 'std::multimap')
def _(I, f, t, args):
    m = MapObj(t, [], t.n == 'std::multimap')
    if args and isinstance(V(args[0]), Arr):
        for p in V(args[0]).items:
            if m.multi or map_find(I, m, p.fields['first']) is None:
                m.items.append([copyval(I, p.fields['first']), copyval(I, p.fields['second'])])
    return m


def map_find(I, m, k):
    if 'on_map' in I.opts:
        I.opts['on_map'](I, m)
    for n, it in enumerate(m.items):
        if I.P.branch(deep_eq(I, it[0], k)):
            return n
    if m.lazy is not None:
        has, val = m.lazy(I, k)
        if I.P.branch(has):
            m.items.append([k, val() if callable(val) else val])
            return len(m.items) - 1
    return None


MAP_END = 1 << 60


def map_end(m):
    return len(m.items) if m.lazy is None else MAP_END


def map_whole(m):
    if m.lazy is not None:
        raise Unsupported('operation on an arbitrary map as a whole')
    return m


def mapped(I, it):
    if isinstance(it[1], Obj):
        return ObjLV(it[1])

    def setv(v):
        it[1] = v
    return FnLV(lambda: it[1], setv)


@model('std::map::operator[]', 'std::unordered_map::operator[]')
def _(I, f, m, a):
    k = V(a[0])
    n = map_find(I, m, k)
    if n is None:
        I.wrote(m, None)
        m.items.append([copyval(I, k), I.default(m.t.a[1], True)])
        n = len(m.items) - 1
    return mapped(I, m.items[n])


@model('std::map::at', 'std::unordered_map::at')
def _(I, f, m, a):
    n = map_find(I, m, V(a[0]))
    if n is None:
        throw('std::out_of_range')
    return mapped(I, m.items[n])


@model('std::map::find', 'std::unordered_map::find')
def _(I, f, m, a):
    n = map_find(I, m, V(a[0]))
    return MapIt(m, map_end(m) if n is None else n)


@model('std::map::count', 'std::unordered_map::count')
def _(I, f, m, a):
    return 0 if map_find(I, m, V(a[0])) is None else 1


@model('std::map::end', 'std::unordered_map::end', 'std::map::cend')
def _(I, f, m, a):
    return MapIt(m, map_end(m))


@model('std::map::begin', 'std::unordered_map::begin')
def _(I, f, m, a):
    return MapIt(map_whole(m), 0)


@model('std::map::size', 'std::unordered_map::size')
def _(I, f, m, a):
    return len(map_whole(m).items)


@model('std::map::empty', 'std::unordered_map::empty')
def _(I, f, m, a):
    return len(map_whole(m).items) == 0


@model('std::map::insert', 'std::unordered_map::insert', 'std::map::emplace', 'std::unordered_map::emplace')
def _(I, f, m, a):
    if len(a) == 2 and f['sn'].endswith('emplace'):
        k, v = V(a[0]), V(a[1])
    else:
        p = V(a[0])
        if not isinstance(p, StructObj):
            raise Unsupported('map insert')
        k, v = p.fields['first'], p.fields['second']
    n = map_find(I, m, k)
    new = n is None
    if new:
        I.wrote(m, None)
        m.items.append([copyval(I, k), copyval(I, v)])
        n = len(m.items) - 1
    s = StructObj(None)
    s.fields['first'] = MapIt(m, n)
    s.fields['second'] = new
    return s


@model('std::map::erase', 'std::unordered_map::erase')
def _(I, f, m, a):
    x = V(a[0])
    map_whole(m)
    if isinstance(x, MapIt):
        del m.items[x.i]
        return MapIt(m, x.i)
    n = map_find(I, m, x)
    if n is not None:
        del m.items[n]
    return 0 if n is None else 1


@model('std::multimap::insert')
def _(I, f, m, a):
    p = V(a[0])
    k = I.P.concretise(p.fields['first'])
    n = sum(1 for x in m.items if x[0] <= k)
    I.wrote(m, None)
    m.items.insert(n, [k, copyval(I, p.fields['second'])])
    return MapIt(m, n)


@model('std::multimap::lower_bound')
def _(I, f, m, a):
    k = I.P.concretise(V(a[0]))
    return MapIt(m, sum(1 for x in m.items if x[0] < k))


@model('std::multimap::upper_bound')
def _(I, f, m, a):
    k = I.P.concretise(V(a[0]))
    return MapIt(m, sum(1 for x in m.items if x[0] <= k))


@model('std::map::clear', 'std::unordered_map::clear')
def _(I, f, m, a):
    I.wrote(m, None)
    m.items = []
    m.lazy = None


@model('std::map::operator=', 'std::unordered_map::operator=')
def _(I, f, m, a):
    m.assign(I, V(a[0]))
    return ObjLV(m)


@ctor('std::pair')
def _(I, f, t, args):
    s = StructObj(t)
    if not args:
        s.fields['first'] = I.default(t.a[0], True)
        s.fields['second'] = I.default(t.a[1], True)
        return s
    if len(args) == 1:
        p = V(args[0])
        vals = [p.fields['first'], p.fields['second']]
    else:
        vals = [V(x) for x in args]
    for n, v, et in zip(('first', 'second'), vals, t.a):
        if et.n == STRING and not isinstance(v, Str):
            v = tostr(I, v)
        s.fields[n] = copyval(I, v)
    return s


@model('std::make_pair')
def _(I, f, t, a):
    s = StructObj(f['ret'])
    vals = []
    for x, et in zip(a, f['ret'].a):
        v = copyval(I, V(x))
        if et.n == STRING:
            v = tostr(I, v)
        vals.append(v)
    s.fields['first'], s.fields['second'] = vals
    return s


@model('std::pair::operator=')
def _(I, f, p, a):
    p.assign(I, V(a[0]))
    return ObjLV(p)


def tuple_items(I, a):
    return [copyval(I, V(x)) if isinstance(V(x), Obj) else V(x) for x in a]


@model('std::make_tuple')
def _(I, f, t, a):
    return Lib('tuple', items=tuple_items(I, a))


@model('std::tie', 'std::forward_as_tuple')
def _(I, f, t, a):
    return Lib('tuple', items=[x if isinstance(x, LV) else V(x) for x in a])


@ctor('std::tuple')
def _(I, f, t, args):
    if len(args) == 1 and isinstance(V(args[0]), Lib) and V(args[0]).cls == 'tuple':
        args = V(args[0]).items
    return Lib('tuple', items=tuple_items(I, args))


# ---------------------------------------------------------------- smart pointers, functions, mutexes

@ctor('std::shared_ptr', 'std::unique_ptr', 'boost::shared_ptr')
def _(I, f, t, args):
    if not args:
        return SPtr()
    x = V(args[0])
    if isinstance(x, SPtr):
        return SPtr(x.o)
    if isinstance(x, Ptr):
        if x.null:
            return SPtr()
        if isinstance(x.lv, ElemLV):
            return SPtr(x.lv.a)
        return SPtr(x.lv.get())
    raise Unsupported('shared_ptr constructor')


@model('std::make_shared', 'std::make_unique')
def make_shared(I, f, t, a):
    et = f['ret'].a[0]
    if I.prog.rec(et) is None:
        cs = CTOR.get(et.n)
        if cs is None:
            raise Unsupported('make_shared of ' + et.key)
        fake = {'params': [{'t': p['t']} for p in f['params']], 'sn': et.n, 'n': et.n}
        o = cs(I, fake, et, a)
    else:
        cs = []
        for g in I.prog.functions.values():
            if g.get('fk') == 'ctor' and g.get('cls') is et and len(g['params']) >= len(a):
                cs.append(g)
        best = pick_ctor(I, cs, a)
        if best is None:
            if not a:
                o = I.default(et)
                I.default_inits(o)
            else:
                raise Unsupported('make_shared of %s: constructor' % et.key)
        else:
            o = I.construct(best, et, a, {'ck': best.get('ck')})
    if isinstance(o, Obj):
        I.nameobj(o, I.tempname('shared'))
    return SPtr(o)


def pick_ctor(I, cs, args):
    """overload resolution good enough for make_shared: match argument kinds"""
    def fits(p, a):
        t = p['t']
        t = t.p if t.k == 'ref' else t
        v = V(a)
        if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
            return 2 if t.k == 'bool' else 1 if t.isint else 0
        if isinstance(v, int) or (is_sym(v) and z3.is_int(v)):
            return 2 if t.isint else 1 if t.k in ('float', 'bool') else 0
        if isinstance(v, float) or (is_sym(v) and z3.is_real(v)):
            return 2 if t.k == 'float' else 1 if t.isint else 0
        if isinstance(v, Str):
            return 2 if t.n == STRING else 1 if t.n in ('boost::filesystem::path',) else 0
        if isinstance(v, Ptr):
            return 2 if t.k == 'ptr' else 1 if t.n == STRING else 0
        if isinstance(v, StructObj):
            return 2 if t is v.t else (1 if t.k == 'rec' and v.t is not None and I.derives(v.t, t.n) else 0)
        if isinstance(v, SPtr):
            return 2 if t.n == 'std::shared_ptr' else 0
        if isinstance(v, Arr):
            return 2 if t.n in VECS else 0
        if isinstance(v, Opt):
            return 2 if t.n == 'boost::optional' else 0
        if isinstance(v, Lib):
            return 2 if t.k == 'rec' else 0
        return 1
    best, bs = None, 0
    for g in cs:
        if len(g['params']) != len(args):
            continue
        sc = 1
        for p, a in zip(g['params'], args):
            k = fits(p, a)
            if not k:
                sc = 0
                break
            sc += k
        if sc > bs:
            best, bs = g, sc
    return best


def sp_obj(I, p):
    if p.o is None:
        I.P.oblige('no-null-dereference', False, 'safety')
    return p.o


for _n in ('std::__shared_ptr_access', 'std::shared_ptr', 'std::unique_ptr', 'boost::shared_ptr', 'std::__shared_ptr'):
    H[_n + '::operator*'] = lambda I, f, p, a: ObjLV(sp_obj(I, p))
    H[_n + '::operator->'] = lambda I, f, p, a: Ptr(ObjLV(sp_obj(I, p)))
    H[_n + '::operator bool'] = lambda I, f, p, a: p.o is not None
    H[_n + '::get'] = lambda I, f, p, a: Ptr(ObjLV(p.o)) if p.o is not None else NULL

    def _spassign(I, f, p, a):
        x = V(a[0])
        I.wrote(p, None)
        p.o = x.o if isinstance(x, SPtr) else None
        return ObjLV(p)
    H[_n + '::operator='] = _spassign

    def _spreset(I, f, p, a):
        I.wrote(p, None)
        if not a:
            p.o = None
        else:
            x = V(a[0])
            p.o = None if x.null else (x.lv.a if isinstance(x.lv, ElemLV) else x.lv.get())
    H[_n + '::reset'] = _spreset
    H[_n + '::operator[]'] = lambda I, f, p, a: elem(I, sp_obj(I, p), V(a[0]))


@model('std::dynamic_pointer_cast')
def _(I, f, t, a):
    p = V(a[0])
    et = f['ret'].a[0]
    if p.o is None or not I.derives(p.o.t, et.n):
        return SPtr()
    return SPtr(p.o)


@model('std::static_pointer_cast', 'std::const_pointer_cast')
def _(I, f, t, a):
    return SPtr(V(a[0]).o)


@ctor('std::function', 'boost::function')
def _(I, f, t, args):
    if not args:
        return FnVal()
    x = V(args[0])
    if isinstance(x, Ptr):
        if x.null:
            return FnVal()
        x = x.lv.get()
    if isinstance(x, FnVal):
        return FnVal(x.f)
    return FnVal(copyval(I, x))


@model('std::function::operator()', 'boost::function2::operator()', 'boost::function1::operator()', 'boost::function0::operator()')
def _(I, f, o, a):
    return I.call_closure(o, a)


@model('std::function::operator bool')
def _(I, f, o, a):
    return o.f is not None


@model('std::function::operator=')
def _(I, f, o, a):
    x = V(a[0])
    o.f = None if isinstance(x, Ptr) and x.null else (x.f if isinstance(x, FnVal) else x)
    return ObjLV(o)


@ctor('boost::unique_lock', 'std::unique_lock', 'std::lock_guard', 'boost::lock_guard')
def _(I, f, t, a):
    m = V(a[0])
    r = Lib('lock', m=m, held=False)
    if len(a) == 1:
        take_lock(I, r)
    elif 'adopt' in str(getattr(V(a[1]), 'cls', '')):
        r.held = True
    return r


def take_lock(I, r):
    I.P.oblige('mutex-not-already-held', m_id(r) not in I.locks, 'safety')
    I.locks.add(m_id(r))
    r.held = True


def drop_lock(I, r):
    if r.held:
        I.locks.discard(m_id(r))
        r.held = False


def m_id(r):
    return id(r.m)


@model('boost::unique_lock::unlock', 'std::unique_lock::unlock')
def _(I, f, o, a):
    drop_lock(I, o)


@model('boost::unique_lock::lock', 'std::unique_lock::lock')
def _(I, f, o, a):
    take_lock(I, o)


@model('boost::mutex::lock', 'std::mutex::lock')
def _(I, f, o, a):
    I.P.oblige('mutex-not-already-held', id(o) not in I.locks, 'safety')
    I.locks.add(id(o))


@model('boost::mutex::unlock', 'std::mutex::unlock')
def _(I, f, o, a):
    I.locks.discard(id(o))


@model('boost::throw_exception')
def _(I, f, t, a):
    raise CppThrow(V(a[0]))


@model('exception::what', 'std::runtime_error::what', 'std::exception::what')
def _(I, f, o, a):
    return Ptr(ElemLV(I, opaque_str(I), 0))


def opaque_str(I):
    return Str([View(z3.Array(I.P.fresh('text'), z3.IntSort(), z3.IntSort()), 0, I.P.fresh_int('text_len', 0, 1 << 30))])


@model('String::compose')
def _(I, f, t, a):
    fs = tostr(I, a[0]).pystr()
    if fs is None:
        return opaque_str(I)
    out = []
    i = 0
    while i < len(fs):
        if fs[i] == '%' and i + 1 < len(fs) and fs[i + 1] in '123456789':
            k = int(fs[i + 1])
            i += 2
            if k < len(a):
                v = V(a[k])
                if isinstance(v, (Str, Ptr)):
                    out.append(tostr(I, v))
                elif isinstance(v, int) and not isinstance(v, bool) or (is_sym(v) and z3.is_int(v)):
                    out.append(fmt_int(I, v))
                elif isinstance(v, bool):
                    out.append(Str.lit('1' if v else '0'))
                else:
                    return opaque_str(I)
        else:
            out.append(Str.lit(fs[i]))
            i += 1
    return concat(I, *out) if out else Str()


@ctor('fmt::basic_format_string')
def _(I, f, t, a):
    return Lib('format')


@model('fmt::format')
def _(I, f, t, a):
    """the text of a message: some string or other"""
    return Str([View(z3.Array(I.P.fresh('message'), z3.IntSort(), z3.IntSort()), 0, I.P.fresh_int('message_len', 0, 1 << 40))])


# ---------------------------------------------------------------- memory

@model('memcpy', 'memmove', '__builtin_memcpy', 'std::memcpy', 'std::memmove')
def _(I, f, t, a):
    d, s, n = V(a[0]), V(a[1]), V(a[2])
    esz = 1
    if isinstance(d.lv, ElemLV) and isinstance(d.lv.a, Arr) and d.lv.a.t is not None and d.lv.a.t.w:
        esz = d.lv.a.t.w // 8
    n = simp(n)
    if is_sym(n):
        if esz != 1:
            raise Unsupported('memcpy of a symbolic number of wide elements')
        I.P.oblige('memcpy-destination-in-range', And(d.lv.i >= 0, d.lv.i + n <= d.lv.a.size()), 'safety')
        I.P.oblige('memcpy-source-in-range', And(s.lv.i >= 0, s.lv.i + n <= s.lv.a.size()), 'safety')
        D, S = d.lv.a, s.lv.a
        to_sym(I, D)
        to_sym(I, S)
        I.wrote(D, 'elems')
        old = D.arr
        k = z3.Int('k!cpy')
        D.arr = z3.Lambda([k], z3.If(z3.And(k >= num(d.lv.i), k < num(d.lv.i) + n), z3.Select(S.arr, k - num(d.lv.i) + num(s.lv.i)), z3.Select(old, k)))
        return d
    if n == 0:
        return d
    if n % esz:
        raise Unsupported('memcpy of part of an element')
    vals = [s.lv.a.get(I, simp(s.lv.i + k)) for k in range(n // esz)]
    for k, v in enumerate(vals):
        if v is not UNINIT and d.lv.a.t is not None and getattr(s.lv.a, 't', None) is not None and s.lv.a.t is not d.lv.a.t and d.lv.a.t.isint:
            v = I.wrap(v, d.lv.a.t)
        d.lv.a.put(I, simp(d.lv.i + k), v)
    return d


def to_sym(I, A):
    """turn a list-backed array into a z3 array"""
    if A.items is None:
        return
    if not A.t.isint:
        raise Unsupported('array of non-integers of symbolic extent')
    arr = z3.Array(I.P.fresh('buf'), z3.IntSort(), z3.IntSort())
    for k, v in enumerate(A.items):
        if v is not UNINIT:
            arr = z3.Store(arr, k, num(v))
    A.n = len(A.items)
    A.items = None
    A.arr = arr


@model('memset', '__builtin_memset', 'std::memset')
def _(I, f, t, a):
    d, v, n = V(a[0]), V(a[1]), simp(V(a[2]))
    if is_sym(n) and isinstance(d.lv, ElemLV) and d.lv.a.items is None and d.lv.a.t.w == 8:
        d.lv.a.fill(I, d.lv.i, n, I.wrap(v, d.lv.a.t))
        return d
    n = I.P.concretise(n)
    if not isinstance(d.lv, ElemLV):
        o = d.lv.get()
        if isinstance(o, Lib):
            return d
        raise Unsupported('memset of an object')
    A = d.lv.a
    if A.t.k == 'float':
        if v != 0:
            raise Unsupported('memset of floats')
        v = 0.0
        n //= A.t.w // 8
    elif A.t.w != 8:
        if is_sym(v) or v not in (0, 255, -1):
            raise Unsupported('memset of wide elements')
        v = 0 if v == 0 else A.t.hi if not A.t.s else -1
        n //= A.t.w // 8
    else:
        v = I.wrap(v, A.t)
    for k in range(n):
        A.put(I, simp(d.lv.i + k), v)
    return d


def same_elements(I, x, y, n):
    """are n elements from x equal to those from y?  Decides it, with a place where they differ if they do"""
    P = I.P
    A, B = x.lv.a, y.lv.a
    k = z3.Int(P.fresh('k'))
    same = P.branch(P.fresh_bool('same'))
    if same:
        P.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(A.arr, num(x.lv.i) + k) == z3.Select(B.arr, num(y.lv.i) + k))))
    else:
        w = P.fresh_int('differ', 0, None)
        P.assume(z3.And(w < n, z3.Select(A.arr, num(x.lv.i) + w) != z3.Select(B.arr, num(y.lv.i) + w)))
    if not P.feasible():
        raise Infeasible()
    return same


@model('memcmp', '__builtin_memcmp', 'std::memcmp')
def _(I, f, t, a):
    x, y, n = V(a[0]), V(a[1]), V(a[2])
    n = simp(n)
    A, B = x.lv.a, y.lv.a
    if is_sym(n):
        P = I.P
        P.oblige('memcmp-in-range', And(x.lv.i >= 0, x.lv.i + n <= A.size(), y.lv.i >= 0, y.lv.i + n <= B.size()), 'safety')
        if A.items is not None or B.items is not None:
            n = P.concretise(n)
        else:
            if same_elements(I, x, y, n):
                return 0
            r = P.fresh_int('memcmp', -255, 255)
            P.assume(r != 0)
            return r
    for k in range(n):
        p, q = A.get(I, simp(x.lv.i + k)), B.get(I, simp(y.lv.i + k))
        if I.P.branch(eq(p, q)):
            continue
        return -1 if I.P.branch(uch(p) < uch(q)) else 1
    return 0


@model('strlen', 'std::strlen', '__builtin_strlen')
def _(I, f, t, a):
    return cstr(I, a[0]).length()


@model('strcmp', 'std::strcmp')
def _(I, f, t, a):
    x, y = cstr(I, a[0]), cstr(I, a[1])
    if I.P.branch(str_eq(I, x, y)):
        return 0
    return -1 if I.P.branch(str_lt(I, x, y)) else 1


@model('__errno_location')
def _(I, f, t, a):
    c = I.globals.get('errno')
    if c is None:
        c = Cell(I.P.fresh_int('errno', 0, 200), vast._types.get('int'))
        I.globals['errno'] = c
    return Ptr(CellLV(I, c))


# streams: only used to print
@model('std::basic_ostream::operator<<', 'std::operator<<')
def _(I, f, t, a):
    s = V(a[0]) if t is None else t
    x = V(a[-1])
    if isinstance(s, Lib) and hasattr(s, 'out'):
        if isinstance(x, (Str, Ptr)):
            s.out = concat(I, s.out, tostr(I, x))
        elif f['params'][-1]['t'].key == 'char':
            s.out = concat(I, s.out, Str([[x]]))
        elif isinstance(x, int) or (is_sym(x) and z3.is_int(x)):
            s.out = concat(I, s.out, fmt_int(I, x))
        else:
            s.out = concat(I, s.out, opaque_str(I))
    return ObjLV(s)


# ---------------------------------------------------------------- paths (text only)

@ctor('boost::filesystem::path')
def _(I, f, t, args):
    if I.opts.get('paths') == 'stack':
        return lib_fs.to_path(I, args[0]).copy(I) if args else lib_fs.PathObj()
    if not args:
        return Lib('path', s=Str())
    x = V(args[0])
    if isinstance(x, Lib) and x.cls == 'path':
        return x.copy(I)
    return Lib('path', s=tostr(I, x).copy(I))


@model('boost::filesystem::path::string', 'path::string', 'path::native')
def _(I, f, p, a):
    return p.s.copy(I) if f['ret'].k != 'ref' else ObjLV(p.s)


@model('path::c_str')
def _(I, f, p, a):
    return Ptr(ElemLV(I, p.s, 0))


@model('path::empty')
def _(I, f, p, a):
    return eq(p.s.length(), 0)


@model('path::operator=')
def _(I, f, p, a):
    x = V(a[0])
    p.s.assign(I, x.s if isinstance(x, Lib) else tostr(I, x))
    return ObjLV(p)


from . import lib_date, lib_stdio, lib_fs, lib_matrix  # noqa: E402,F401


# ---------------------------------------------------------------- boost::crc_basic
# The object is the sequence of bits it was fed; its checksum is a function of that sequence and the polynomial.

@ctor('boost::crc_basic')
def _(I, f, t, a):
    if len(a) == 1 and isinstance(V(a[0]), Lib):
        return V(a[0]).copy(I)
    if len(a) > 1 and any(is_sym(V(x)) or V(x) for x in a[1:]):
        raise Unsupported('CRC with initial remainder or reflection')
    return Lib('boost::crc_basic', poly=V(a[0]), fed=())


@model('boost::crc_basic::process_bit')
def _(I, f, o, a):
    I.wrote(o, None)
    o.fed = o.fed + (I.truth(V(a[0])),)


def crc16(poly, bits):
    r = 0
    for b in bits:
        r ^= 0x8000 if b else 0
        top = r & 0x8000
        r = (r << 1) & 0xffff
        if top:
            r ^= poly & 0xffff
    return r


def crc_value(I, poly, fed):
    fed = [simp(b) if is_sym(b) else b for b in fed]
    if not is_sym(poly) and not any(is_sym(b) or isinstance(b, tuple) for b in fed):
        return crc16(poly, fed)
    memo = I.P.__dict__.setdefault('crc_memo', {})
    k = (str(poly), tuple(b if isinstance(b, tuple) else z3.simplify(b).sexpr() if is_sym(b) else bool(b) for b in fed))
    if k not in memo:
        memo[k] = I.P.fresh_int('crc', 0, 65535)
    return memo[k]


@model('boost::crc_basic::checksum')
def _(I, f, o, a):
    return crc_value(I, o.poly, o.fed)


# element of a vector<bool>: the elements are plain booleans here, a reference to one is its location
@model('std::_Bit_reference::operator bool')
def _(I, f, o, a):
    return V(o)


@model('std::_Bit_reference::operator=')
def _(I, f, o, a):
    if not isinstance(o, LV):
        raise Unsupported('assignment through a copied vector<bool> reference')
    o.set(I.truth(V(a[0])))
    return o
