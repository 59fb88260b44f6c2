"""Objects of the abstract machine.  They are mutable: every path is executed from scratch."""
import z3
from .core import *
from .sym import *


BIRTHS = [0]


class Obj:
    name = None
    serial = 0

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        BIRTHS[0] += 1
        o.birth = BIRTHS[0]
        return o


def ident(v):
    """something that differs when a stored value is changed"""
    if isinstance(v, Ptr):
        return ('p', None if v.lv is None else (id(v.lv.a), ident(v.lv.i)) if isinstance(v.lv, ElemLV) else id(v.lv))
    if isinstance(v, Obj):
        return id(v)
    if is_sym(v):
        return ('z', v.get_id())
    if isinstance(v, (list, tuple)):
        return tuple(ident(x) for x in v) if len(v) < 300 else (len(v), tuple(ident(x) for x in v[:100]))
    if isinstance(v, dict):
        return tuple((str(k), ident(x)) for k, x in v.items())
    if isinstance(v, View):
        return ('v', ident(v.arr), ident(v.off), ident(v.n))
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return id(v)


def shallow(o):
    if isinstance(o, Cell):
        return ident(o.v)
    if getattr(o, 'lazy', None) is not None:
        return ()       # items are only those looked at so far
    return tuple((k, ident(v)) for k, v in sorted(o.__dict__.items()) if k not in ('name', 'serial', 'birth', 'alive'))


class Cell(Obj):
    """storage of one variable"""
    __slots__ = ('v', 't', 'name', 'serial', 'birth')

    def __init__(self, v, t=None, name=None):
        self.v = v
        self.t = t
        self.name = name
        self.serial = 0


class LV:
    pass


class CellLV(LV):
    __slots__ = ('c', 'I')

    def __init__(self, I, c):
        self.c = c
        self.I = I

    def get(self):
        return self.c.v

    def set(self, v):
        self.I.wrote(self.c, None)
        self.c.v = v

    def same(self, o):
        return isinstance(o, CellLV) and o.c is self.c


class FieldLV(LV):
    __slots__ = ('o', 'f', 'I')

    def __init__(self, I, o, f):
        self.o = o
        self.f = f
        self.I = I

    def get(self):
        return self.o.fields[self.f]

    def set(self, v):
        self.I.wrote(self.o, self.f)
        self.o.fields[self.f] = v

    def same(self, o):
        return isinstance(o, FieldLV) and o.o is self.o and o.f == self.f


class ElemLV(LV):
    """element of an array-like object; the bound is checked at every access"""
    __slots__ = ('a', 'i', 'I')

    def __init__(self, I, a, i):
        self.a = a
        self.i = i
        self.I = I
        if getattr(a, 'refs', None) is not None:
            a.refs.append(self)

    def get(self):
        return self.a.get(self.I, self.i)

    def set(self, v):
        self.a.put(self.I, self.i, v)

    def same(self, o):
        return isinstance(o, ElemLV) and o.a is self.a and not is_sym(o.i) and not is_sym(self.i) and o.i == self.i


class ObjLV(LV):
    """an object that is its own storage"""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def get(self):
        return self.o

    def set(self, v):
        raise Unsupported('raw store to an object')

    def same(self, o):
        return o.get() is self.o


class FnLV(LV):
    def __init__(self, getf, setf):
        self.getf = getf
        self.setf = setf

    def get(self):
        return self.getf()

    def set(self, v):
        self.setf(v)

    def same(self, o):
        return self is o


class Ptr:
    """pointer; lv None is the null pointer"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    @property
    def null(self):
        return self.lv is None

    def __repr__(self):
        return 'Ptr(%r)' % (self.lv,)


NULL = Ptr(None)


class StructObj(Obj):
    def __init__(self, t, fields=None):
        self.t = t
        self.fields = fields if fields is not None else {}
        self.name = None
        self.serial = 0
        self.alive = True

    def copy(self, I):
        n = StructObj(self.t)
        for k, v in self.fields.items():
            n.fields[k] = copyval(I, v)
        return n

    def assign(self, I, o):
        for k, v in o.fields.items():
            assign_field(I, self, k, v)

    def __repr__(self):
        return '%s%r' % (self.t.key if self.t else '?', self.fields)


def assign_field(I, s, k, v):
    cur = s.fields.get(k)
    if isinstance(cur, Obj) and hasattr(cur, 'assign') and isinstance(v, Obj) and type(cur) == type(v):
        cur.assign(I, v)
    else:
        I.wrote(s, k)
        s.fields[k] = copyval(I, v)


def copyval(I, v):
    if isinstance(v, Obj) and hasattr(v, 'copy'):
        return v.copy(I)
    return v


class View:
    """characters arr[off .. off+n)"""
    __slots__ = ('arr', 'off', 'n')

    def __init__(self, arr, off, n):
        self.arr = arr
        self.off = off
        self.n = n


def simp(x):
    if is_sym(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


class Str(Obj):
    """std::string: a list of parts, each a Python list of characters or a View of symbolic length"""

    def __init__(self, parts=None):
        self.parts = parts if parts is not None else []
        self.name = None
        self.serial = 0

    @staticmethod
    def lit(s):
        return Str([[ord(c) if isinstance(c, str) else c for c in s]] if s else [])

    def norm(self):
        out = []
        for p in self.parts:
            if isinstance(p, list):
                if not p:
                    continue
                if out and isinstance(out[-1], list):
                    out[-1] = out[-1] + p
                else:
                    out.append(p)
            else:
                n = simp(p.n)
                if not is_sym(n) and n == 0:
                    continue
                out.append(p)
        self.parts = out
        return self

    @property
    def concrete_len(self):
        return all(isinstance(p, list) for p in self.parts)

    def chars(self):
        """list of characters, or None when the length is symbolic"""
        if not self.concrete_len:
            return None
        r = []
        for p in self.parts:
            r += p
        return r

    def pystr(self):
        c = self.chars()
        if c is None or any(is_sym(x) for x in c):
            return None
        return ''.join(chr(x & 255) for x in c)

    def length(self):
        n = 0
        for p in self.parts:
            n = n + (len(p) if isinstance(p, list) else p.n)
        return simp(n)

    def at(self, I, i):
        i = simp(i)
        if len(self.parts) == 1 and not isinstance(self.parts[0], list):
            v = self.parts[0]
            return I.select_char(v.arr, simp(v.off + i))
        cs = self.chars()
        if cs is not None:
            if not is_sym(i):
                return cs[i] if i < len(cs) else 0
            r = 0
            for k in range(len(cs) - 1, -1, -1):
                r = If(i == k, cs[k], r)
            return r
        r = 0
        base = 0
        segs = []
        for p in self.parts:
            n = len(p) if isinstance(p, list) else p.n
            segs.append((p, base, n))
            base = base + n
        for p, b, n in reversed(segs):
            if isinstance(p, list):
                for k in range(len(p) - 1, -1, -1):
                    r = If(eq(i, b + k), p[k], r)
            else:
                r = If(And(i >= b, i < b + n), I.select_char(p.arr, simp(p.off + i - b)), r)
        return r

    def get(self, I, i):
        n = self.length()
        I.P.oblige('string-index-in-range', And(i >= 0, i <= n), 'safety')
        if not is_sym(i) and not is_sym(n):
            return self.at(I, i) if i < n else 0
        return If(eq(i, n), 0, self.at(I, i))

    def put(self, I, i, v):
        n = self.length()
        I.P.oblige('string-index-in-range', And(i >= 0, i < n), 'safety')
        I.wrote(self, 'elems')
        cs = self.chars()
        if cs is None:
            raise Unsupported('store into a string of symbolic length')
        if not is_sym(i):
            cs[i] = v
        else:
            cs = [If(i == k, v, c) for k, c in enumerate(cs)]
        self.parts = [cs]

    def size(self):
        return self.length()

    def copy(self, I):
        return Str([list(p) if isinstance(p, list) else p for p in self.parts])

    def assign(self, I, o):
        I.wrote(self, 'elems')
        self.parts = [list(p) if isinstance(p, list) else p for p in o.parts]

    def substr(self, I, pos, n):
        """caller has checked pos <= length; n already clipped"""
        pos, n = simp(pos), simp(n)
        if len(self.parts) == 1 and not isinstance(self.parts[0], list):
            v = self.parts[0]
            if not is_sym(n) and n <= 64:
                return Str([[I.select_char(v.arr, simp(v.off + pos + k)) for k in range(n)]])
            return Str([View(v.arr, simp(v.off + pos), n)])
        cs = self.chars()
        if cs is not None:
            pos = I.P.concretise(pos)
            n = I.P.concretise(n)
            return Str([cs[pos:pos + n]])
        # rope: make the start fall on a part
        if not is_sym(pos):
            parts = list(self.parts)
            while parts and isinstance(parts[0], list) and pos >= len(parts[0]):
                pos -= len(parts[0])
                parts = parts[1:]
            if pos == 0 or (parts and isinstance(parts[0], list)):
                if parts and pos:
                    parts = [parts[0][pos:]] + parts[1:]
                rest = Str(parts).norm()
                if not is_sym(simp(rest.length() - n)) and simp(rest.length() - n) == 0:
                    return rest
                if not is_sym(n) and parts and isinstance(parts[0], list) and n <= len(parts[0]):
                    return Str([parts[0][:n]])
                if I.P.valid(eq(rest.length(), n)):
                    return rest
        if not is_sym(n) and n <= 64:
            return Str([[self.at(I, simp(pos + k)) for k in range(n)]])
        # cut from the front, then from the back
        parts = list(self.parts)
        while parts:
            p = parts[0]
            ln = len(p) if isinstance(p, list) else p.n
            if not I.P.branch(pos >= ln):
                if isinstance(p, list):
                    parts[0] = p[I.P.concretise(pos):]
                else:
                    parts[0] = View(p.arr, simp(p.off + pos), simp(p.n - pos))
                break
            pos = simp(pos - ln)
            parts = parts[1:]
        out = []
        for p in parts:
            ln = len(p) if isinstance(p, list) else p.n
            if I.P.branch(n <= ln):
                out.append(p[:I.P.concretise(n)] if isinstance(p, list) else View(p.arr, p.off, n))
                break
            out.append(p)
            n = simp(n - ln)
        return Str(out).norm()

    def __repr__(self):
        s = self.pystr()
        return 'Str(%r)' % (s if s is not None else self.parts)


def str_eq(I, a, b):
    """equality of two strings as a condition"""
    ca, cb = a.chars(), b.chars()
    if ca is not None and cb is not None:
        if len(ca) != len(cb):
            return False
        return And([eq(x, y) for x, y in zip(ca, cb)])
    if cb is None and ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        n = a.length()
        return And([eq(n, len(cb))] + [eq(a.at(I, k), cb[k]) for k in range(len(cb))])
    if len(a.parts) == 1 and len(b.parts) == 1:
        va, vb = a.parts[0], b.parts[0]
        if va.arr is vb.arr and not is_sym(simp(va.off - vb.off)) and simp(va.off - vb.off) == 0:
            return eq(va.n, vb.n)
        k = z3.Int(I.P.fresh('k'))
        return And(eq(va.n, vb.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < va.n), va.arr[va.off + k] == vb.arr[vb.off + k])))
    # ropes: part by part when the shapes agree
    if len(a.parts) == len(b.parts):
        cs = []
        for p, q in zip(a.parts, b.parts):
            if isinstance(p, list) != isinstance(q, list):
                break
            if isinstance(p, list) and len(p) != len(q):
                break
            if not isinstance(p, list):
                if not I.P.valid(eq(p.n, q.n)):
                    break
            cs.append(str_eq(I, Str([p]), Str([q])))
        else:
            return And(cs)
    k = z3.Int(I.P.fresh('k'))
    n = a.length()
    return And(eq(n, b.length()), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), num(a.at(I, k)) == num(b.at(I, k)))))


class Arr(Obj):
    """C array, std::vector, std::array, heap array: a Python list of elements, or a z3 array with a length"""

    def __init__(self, t, items=None, arr=None, n=None, kind='vector'):
        self.t = t
        self.items = items
        self.arr = arr
        self.n = n
        self.kind = kind
        self.name = None
        self.serial = 0
        self.freed = False
        self.refs = None            # of a linked list: everything which refers to an element, to follow it about

    def moved(self, I, i, n):
        """n elements have been put in (or taken out) at position i"""
        for x in self.refs or ():
            if x.i >= i:
                x.i = x.i + n if x.i >= i - n else -(1 << 40)

    def size(self):
        return len(self.items) if self.items is not None else self.n

    def fill(self, I, i, n, v):
        """n elements of a z3 array from i on"""
        I.P.oblige('fill-in-range', And(i >= 0, i + n <= self.size()), 'safety')
        I.wrote(self, 'elems')
        k = z3.Int('k!fill')
        self.arr = z3.Lambda([k], z3.If(z3.And(k >= num(i), k < num(i) + num(n)), I.to_sort(v, self.arr.sort().range()), z3.Select(self.arr, k)))

    def get(self, I, i):
        i = simp(i)
        n = self.size()
        if not (not is_sym(i) and not is_sym(n) and 0 <= i < n):
            I.P.oblige('index-in-range', And(i >= 0, i < n), 'safety')
        if self.freed:
            I.P.oblige('no-use-after-free', False, 'safety')
        if self.items is not None:
            if not is_sym(i):
                return self.items[i]
            if not self.items:
                raise Infeasible()
            if isinstance(self.items[0], (Obj, Ptr, LV)):
                i = I.P.concretise(i)
                return self.items[i]
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                if self.items[k] is UNINIT or r is UNINIT:
                    return self.items[I.P.concretise(i)]
                r = If(i == k, self.items[k], r)
            return r
        return I.select(self, i)

    def put(self, I, i, v):
        i = simp(i)
        n = self.size()
        if not (not is_sym(i) and not is_sym(n) and 0 <= i < n):
            I.P.oblige('index-in-range', And(i >= 0, i < n), 'safety')
        if self.freed:
            I.P.oblige('no-use-after-free', False, 'safety')
        I.wrote(self, 'elems')
        if self.items is not None:
            if not is_sym(i):
                self.items[i] = v
            elif any(x is UNINIT for x in self.items) or isinstance(v, (Obj, Ptr, LV)):
                self.items[I.P.concretise(i)] = v
            else:
                self.items = [If(i == k, v, x) for k, x in enumerate(self.items)]
            return
        self.arr = z3.Store(self.arr, num(i), I.to_sort(v, self.arr.sort().range()))

    def copy(self, I):
        if self.items is not None:
            c = Arr(self.t, [copyval(I, x) for x in self.items], kind=self.kind)
            if self.refs is not None:
                c.refs = []
            return c
        return Arr(self.t, None, self.arr, self.n, kind=self.kind)

    def assign(self, I, o):
        I.wrote(self, 'elems')
        I.wrote(self, 'len')
        c = o.copy(I)
        self.items, self.arr, self.n = c.items, c.arr, c.n

    def __repr__(self):
        return 'Arr(%r)' % (self.items if self.items is not None else (self.arr, self.n),)


class SubArr(Obj):
    """a row of a multi-dimensional array is an Arr of its own, so nothing is needed here"""


class Opt(Obj):
    def __init__(self, has=False, val=None):
        self.has = has
        self.val = val
        self.name = None
        self.serial = 0

    def copy(self, I):
        return Opt(self.has, copyval(I, self.val))

    def assign(self, I, o):
        I.wrote(self, None)
        self.has = o.has
        self.val = copyval(I, o.val)

    def __repr__(self):
        return 'Opt(%r,%r)' % (self.has, self.val)


class MapObj(Obj):
    """std::map and friends: association list in insertion order; keys compared by the interpreter"""

    def __init__(self, t, items=None, multi=False):
        self.t = t
        self.items = items if items is not None else []   # [key, value]
        self.multi = multi
        self.lazy = None          # arbitrary content: function from a key to (is it present, value)
        self.name = None
        self.serial = 0

    def copy(self, I):
        m = MapObj(self.t, [[copyval(I, k), copyval(I, v)] for k, v in self.items], self.multi)
        m.lazy = self.lazy
        return m

    def assign(self, I, o):
        I.wrote(self, None)
        self.items = o.copy(I).items
        self.lazy = o.lazy

    def __repr__(self):
        return 'Map(%r)' % (self.items,)


class MapIt:
    def __init__(self, m, i):
        self.m = m
        self.i = i


class SPtr(Obj):
    """shared_ptr: the object it points to, or None"""

    def __init__(self, o=None):
        self.o = o
        self.name = None
        self.serial = 0

    def copy(self, I):
        return SPtr(self.o)

    def assign(self, I, o):
        I.wrote(self, None)
        self.o = o.o

    def __repr__(self):
        return 'SPtr(%r)' % (self.o,)


class Lib(Obj):
    """object of a library class, with named attributes"""

    def __init__(self, cls, **kw):
        self.cls = cls
        self.__dict__.update(kw)
        self.name = None
        self.serial = 0

    def copy(self, I):
        n = Lib(self.cls)
        for k, v in self.__dict__.items():
            if k not in ('cls', 'name', 'serial'):
                n.__dict__[k] = copyval(I, v) if not isinstance(v, list) else list(v)
        return n

    def assign(self, I, o):
        I.wrote(self, None)
        for k, v in o.__dict__.items():
            if k not in ('name', 'serial'):
                self.__dict__[k] = copyval(I, v) if not isinstance(v, list) else list(v)

    def __repr__(self):
        return 'Lib(%s,%r)' % (self.cls, {k: v for k, v in self.__dict__.items() if k not in ('cls', 'name', 'serial')})


class Exc(Obj):
    def __init__(self, t, args):
        self.t = t
        self.args = args
        self.name = None

    def copy(self, I):
        return self

    def __repr__(self):
        return 'Exc(%s)' % self.t.key


class Closure(Obj):
    def __init__(self, node, caps, this):
        self.node = node
        self.caps = caps
        self.this = this
        self.name = None

    def copy(self, I):
        return Closure(self.node, dict((k, (Cell(copyval(I, v.v), v.t, v.name) if isinstance(v, Cell) else v)) for k, v in self.caps.items()), self.this)

    def assign(self, I, o):
        self.node, self.caps, self.this = o.node, o.caps, o.this


class FnVal(Obj):
    """std::function, boost::function or a function pointer: any callable"""

    def __init__(self, f=None):
        self.f = f
        self.name = None

    def copy(self, I):
        return FnVal(self.f)

    def assign(self, I, o):
        I.wrote(self, None)
        self.f = o.f if isinstance(o, FnVal) else o
