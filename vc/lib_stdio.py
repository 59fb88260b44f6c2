"""Assumed contracts of stdio: a stream is open until closed, fread/fwrite transfer any number of items up to the
number asked for, and every call is recorded.  The environment (what fopen, fseek, ... return) comes from
I.opts['stdio'] when the contract gives it, and is arbitrary otherwise."""
import z3
from .core import *
from .sym import *
from .values import *
from .lib import model, V, throw, cstr, to_sym, Library
from . import ast as vast


class World:
    def __init__(self):
        self.streams = []
        self.calls = []


def world(I):
    w = I.P.__dict__.get('world')
    if w is None:
        w = I.P.world = World()
    return w


def env(I, k, *a):
    e = I.opts.get('stdio') or {}
    return e[k](I, *a) if k in e else None


def errno(I):
    from .lib import H
    return H['__errno_location'](I, None, None, []).lv


def new_stream(I, path=None, mode=None):
    w = world(I)
    P = I.P
    n = len(w.streams)
    s = Lib('FILE', id=n, path=path, mode=mode, closed=0, content=None, size=0, pos=0, out=Arr(vast._types['unsigned char'], []))
    I.name(s, 'stream%d' % n)
    I.name(s.out, 'stream%d.out' % n)
    w.streams.append(s)
    return s


def stream(I, p, what):
    """the open stream a FILE* refers to"""
    p = V(p)
    if not isinstance(p, Ptr):
        raise Unsupported('FILE* of unknown origin')
    if p.null:
        I.P.oblige('%s-of-a-null-stream' % what, False, 'safety')
    s = p.lv.get()
    if not isinstance(s, Lib) or s.cls != 'FILE':
        raise Unsupported('FILE* of unknown origin')
    I.P.oblige('%s-uses-an-open-stream' % what, s.closed == 0, 'safety')
    return s


@model('fopen', 'fopen64')
def _(I, f, t, a):
    path, mode = cstr(I, a[0]).copy(I), cstr(I, a[1]).copy(I)
    w = world(I)
    n = len(w.streams)
    w.calls.append(('fopen', path, mode))
    r = env(I, 'fopen', n)
    if r is None:
        r = (I.P.fresh_bool('opens'), I.P.fresh_int('open_errno', 1, 133))
    ok, err = r
    s = new_stream(I, path, mode)
    if I.P.branch(ok):
        h = env(I, 'opened', s)
        return Ptr(ObjLV(s))
    s.closed = -1     # never opened
    errno(I).set(err)
    return NULL


@model('fclose')
def _(I, f, t, a):
    s = stream(I, a[0], 'fclose')
    s.closed += 1
    world(I).calls.append(('fclose', s.id))
    return 0


def transfer(I, what, n, s):
    r = env(I, what, n, s)
    if r is None:
        r = I.P.fresh_int(what, 0, None)
        I.P.assume(r <= num(n))
    return r


def buffer(I, p, n, what):
    p = V(p)
    if not isinstance(p, Ptr) or not isinstance(p.lv, ElemLV):
        if not is_sym(n) and n == 0:
            return None, 0
        raise Unsupported(what + ' of something other than an array')
    A = p.lv.a
    if isinstance(A, Arr) and A.t is not None and A.t.w not in (None, 8):
        raise Unsupported(what + ' of wide elements')
    I.P.oblige(what + '-buffer-in-range', And(p.lv.i >= 0, p.lv.i + n <= A.size()), 'safety')
    return A, p.lv.i


@model('fread')
def _(I, f, t, a):
    s = stream(I, a[3], 'fread')
    size, n = V(a[1]), V(a[2])
    world(I).calls.append(('fread', s.id, V(a[0]), size, n))
    if s.content is None:
        return transfer(I, 'fread', n, s)
    if is_sym(size) or size != 1:
        raise Unsupported('fread of items of more than one byte')
    A, off = buffer(I, a[0], n, 'fread')
    left = simp(s.size - s.pos)
    m = transfer(I, 'fread', n, s)
    I.P.assume(m <= num(left)) if is_sym(m) else None
    if not is_sym(m):
        for k in range(m):
            A.put(I, simp(off + k), s.content.items[s.pos + k])
    else:
        to_sym(I, A)
        I.wrote(A, 'elems')
        old, base, k = A.arr, num(s.pos), z3.Int('k!rd')
        A.arr = z3.Lambda([k], z3.If(z3.And(k >= num(off), k < num(off) + m), z3.Select(s.content.arr, k - num(off) + base), z3.Select(old, k)))
    I.wrote(s, 'pos')
    s.pos = simp(s.pos + m)
    return m


@model('fwrite')
def _(I, f, t, a):
    s = stream(I, a[3], 'fwrite')
    size, n = V(a[1]), V(a[2])
    world(I).calls.append(('fwrite', s.id, V(a[0]), size, n))
    m = transfer(I, 'fwrite', n, s)
    if is_sym(size) or size != 1 or (I.opts.get('stdio') or {}).get('raw'):
        return m
    A, off = buffer(I, a[0], n, 'fwrite')
    O = s.out
    if not is_sym(m):
        for k in range(m):
            H_push(I, O, A.get(I, simp(off + k)))
    else:
        for x in (A, O):
            if isinstance(x, Arr):
                to_sym(I, x)
        I.wrote(O, 'elems')
        I.wrote(O, 'len')
        src = A.arr if isinstance(A, Arr) else A.parts[0].arr
        old, base, k = O.arr, num(O.n), z3.Int('k!wr')
        O.arr = z3.Lambda([k], z3.If(z3.And(k >= base, k < base + m), z3.Select(src, k - base + num(off)), z3.Select(old, k)))
        O.n = simp(O.n + m)
    return m


def H_push(I, v, x):
    I.wrote(v, 'elems')
    I.wrote(v, 'len')
    if v.items is not None:
        v.items.append(x)
    else:
        v.arr = z3.Store(v.arr, num(v.n), num(x))
        v.n = simp(v.n + 1)


def simple(name, lo=None, hi=None):
    @model(name)
    def h(I, f, t, a):
        s = stream(I, a[-1] if name in ('fgets', 'fputs') else a[0], name)
        world(I).calls.append((name, s.id) + tuple(V(x) for x in (a[:-1] if name in ('fgets', 'fputs') else a[1:])))
        r = env(I, name, s)
        if r is None:
            if name == 'fgets':
                return V(a[0]) if I.P.branch(I.P.fresh_bool('fgets')) else NULL
            r = I.P.fresh_int(name, -(1 << 31) if lo is None else lo, (1 << 31) - 1 if hi is None else hi)
        if name == 'fgets':
            return V(a[0]) if I.P.branch(r) else NULL
        return r


for _n in ('feof', 'ferror', 'fgets', 'fputs', 'fseek', 'fflush', 'fseeko'):
    simple(_n)
simple('ftell', -(1 << 63), (1 << 63) - 1)
simple('ftello', -(1 << 63), (1 << 63) - 1)


def havoc_FILE(self, I, o):
    o.pos = I.P.fresh_int('pos', 0, None)
    I.P.assume(o.pos <= num(o.size))


Library.havoc_FILE = havoc_FILE
