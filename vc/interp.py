"""Symbolic interpreter of the extracted functions: the semantics of the C++ subset."""
import math
import time
import z3
from fractions import Fraction
from .core import *
from .sym import *
from .values import *


class Frame:
    __slots__ = ('vars', 'this', 'fn', 'depth', 'temps')

    def __init__(self, fn, this, depth):
        self.vars = {}
        self.this = this
        self.fn = fn
        self.depth = depth
        self.temps = None


STD_BASES = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::invalid_argument': 'std::logic_error',
    'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::bad_cast': 'std::exception',
    'std::bad_alloc': 'std::exception',
    'boost::bad_lexical_cast': 'std::bad_cast', 'boost::gregorian::bad_year': 'std::out_of_range',
    'boost::gregorian::bad_month': 'std::out_of_range', 'boost::gregorian::bad_day_of_month': 'std::out_of_range',
    'boost::bad_optional_access': 'std::logic_error',
    'boost::filesystem::filesystem_error': 'std::runtime_error',
}


def whole(v):
    """the integer a real term stands for when its form says it is one"""
    k = v.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    if z3.is_rational_value(v):
        return z3.IntVal(v.numerator_as_long()) if v.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        a = [whole(x) for x in v.children()]
        if None in a:
            return None
        r = a[0] if k != z3.Z3_OP_UMINUS else -a[0]
        for x in a[1:]:
            r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
        return r
    return None


class Interp:
    def __init__(self, prog, path, lib, contracts=None):
        self.prog = prog
        self.P = path
        self.lib = lib
        self.frames = []
        self.globals = {}
        self.summaries = contracts or {}
        self.writes = None
        self.registry = {}
        self.serial = 0
        self.depth = 0
        self.loop_invs = []          # spec: list of (name, fn(I, L) -> condition)
        self.max_unroll = 300
        self.cut_after = None
        self.nsteps = 0
        self.selcache = {}
        self.opts = {}
        self.locks = set()
        self.ghost = {}
        self.no_cut = False

    # ------------------------------------------------------------------ bookkeeping
    def wrote(self, c, key):
        if self.writes is not None:
            for w in self.writes:
                w.append((c, key))

    def name(self, o, n):
        self.serial += 1
        o.name = n
        o.serial = self.serial
        self.registry[n] = o
        return o

    def tempname(self, what):
        return 'd%d.%s.%s' % (self.depth, self.frames[-1].fn['n'] if self.frames else '', what)

    # ------------------------------------------------------------------ numbers
    def select_char(self, arr, i):
        t = z3.Select(arr, num(i))
        if z3.is_quantifier(arr):
            return z3.simplify(t)
        k = t.get_id()
        if k not in self.selcache:
            self.selcache[k] = t
            self.P.selects[k] = (-128, 127)
            self.P.assume(z3.And(t >= -128, t <= 127))
        return t

    def select(self, a, i):
        t = z3.simplify(z3.Select(a.arr, num(i)))
        if a.t.isint and z3.is_int(t):
            k = t.get_id()
            if k not in self.selcache and not z3.is_int_value(t):
                self.selcache[k] = t
                self.P.selects[k] = (a.t.lo, a.t.hi)
                self.P.assume(z3.And(t >= a.t.lo, t <= a.t.hi))
        return t

    def to_sort(self, v, sort):
        if sort == z3.BoolSort():
            return v if is_sym(v) else z3.BoolVal(bool(v))
        v = num(v)
        if sort == z3.RealSort() and v.sort() == z3.IntSort():
            return z3.ToReal(v)
        return v

    def truth(self, v):
        if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
            return v
        if isinstance(v, Ptr):
            return not v.null
        if isinstance(v, (int, float)):
            return v != 0
        if is_sym(v):
            return v != 0
        if isinstance(v, FnVal):
            return v.f is not None
        raise Unsupported('truth value of %r' % (v,))

    def asint(self, v):
        if isinstance(v, bool):
            return int(v)
        if is_sym(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def wrap(self, v, t):
        """reduce a mathematical integer modulo the width of t"""
        lo, hi = t.lo, t.hi
        if not is_sym(v):
            m = 1 << t.w
            return (v - lo) % m + lo
        if self.P.within(v, lo, hi):
            return v
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return self.wrap(v.as_long(), t)
        if self.P.valid(z3.And(v >= lo, v <= hi)):
            return v
        m = 1 << t.w
        if lo == 0:
            return v % m
        return (v - lo) % m + lo

    def intop(self, op, a, b, t):
        """binary operation on integers of type t (already converted)"""
        P = self.P
        a, b = self.asint(a), self.asint(b)
        if op in ('+', '-', '*'):
            if not is_sym(a) and not is_sym(b):
                r = a + b if op == '+' else a - b if op == '-' else a * b
            else:
                if op == '*' and is_sym(a) and is_sym(b):
                    r = a * b
                else:
                    r = a + b if op == '+' else a - b if op == '-' else a * b
            return self.arith_result(r, t)
        if op in ('/', '%'):
            if not is_sym(b):
                if b == 0:
                    P.oblige('no-division-by-zero', False, 'safety')
            else:
                P.oblige('no-division-by-zero', b != 0, 'safety')
            if not is_sym(a) and not is_sym(b):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return self.arith_result(q, t) if op == '/' else a - q * b
            la, ha = P.bounds(a)
            lb, hb = P.bounds(b)
            if la is not None and la >= 0 and lb is not None and lb > 0:
                return num(a) / num(b) if op == '/' else num(a) % num(b)
            if P.valid(And(a >= 0, b > 0)):
                return num(a) / num(b) if op == '/' else num(a) % num(b)
            a_, b_ = num(a), num(b)
            if not is_sym(b) and b > 0:
                q = z3.If(a_ >= 0, a_ / b_, -((-a_) / b_))
            elif not is_sym(b) and b < 0:
                q = z3.If(a_ >= 0, -(a_ / (-b_)), (-a_) / (-b_))
            else:
                aa = z3.If(a_ >= 0, a_, -a_)
                ab = z3.If(b_ >= 0, b_, -b_)
                q = z3.If((a_ >= 0) == (b_ >= 0), aa / ab, -(aa / ab))
            if op == '/':
                return self.arith_result(q, t)
            return a_ - q * b_
        if op == '<<':
            P.oblige('shift-in-range', And(b >= 0, b < t.w), 'safety')
            if self.opts.get('symbolic_shift') and is_sym(b) and not is_sym(a):
                r = P.fresh_int('shifted')
                c = num(a << (t.w - 1))
                for k in range(t.w - 2, -1, -1):
                    c = z3.If(b == k, num(a << k), c)
                P.assume(r == c)
                P.oblige('shift-no-overflow', And(a >= 0, r <= t.hi), 'safety')
                P.assume(And(r >= 0, r <= t.hi))
                return r
            b = P.concretise(b)
            if not (0 <= b < t.w):
                raise Infeasible()
            r = a * (1 << b)
            if t.s:
                # left operand must be non-negative and the result representable (in the unsigned type)
                P.oblige('shift-no-overflow', And(a >= 0, r < (1 << t.w)), 'safety')
                return self.wrap(r, t)
            return self.wrap(r, t)
        if op == '>>':
            P.oblige('shift-in-range', And(b >= 0, b < t.w), 'safety')
            b = P.concretise(b)
            if not (0 <= b < t.w):
                raise Infeasible()
            return a >> b if not is_sym(a) else (a / (1 << b) if b else a)
        if op == '&':
            return self.bitand(a, b, t)
        if op == '|':
            return self.bitor(a, b, t)
        if op == '^':
            if not is_sym(a) and not is_sym(b):
                return self.wrap(a ^ b, t)
            if is_sym(a) and is_sym(b):
                return self.bvop(op, a, b, t)
            if not is_sym(a):
                a, b = b, a
            return self.wrap(a + b - 2 * self.bitand(a, b, t), t)
        raise Unsupported('integer operator ' + op)

    def bitand(self, a, b, t):
        if not is_sym(a) and not is_sym(b):
            return a & b
        if not is_sym(a):
            a, b = b, a
        if is_sym(b):
            return self.bvop('&', a, b, t)
        if b < 0:
            b += 1 << t.w
            neg = True
        else:
            neg = False
        if b == 0:
            return 0
        # sum over runs of ones
        r = 0
        i = 0
        lo, hi = self.P.bounds(a)
        while b >> i:
            if (b >> i) & 1:
                j = i
                while (b >> j) & 1:
                    j += 1
                part = a / (1 << i) if i else a
                if not (hi is not None and lo is not None and lo >= 0 and hi < (1 << j)):
                    part = part % (1 << (j - i))
                r = r + part * (1 << i)
                i = j
            else:
                i += 1
        if neg and t.s:
            return self.wrap(r, t)
        return r

    def bitor(self, a, b, t):
        if not is_sym(a) and not is_sym(b):
            return a | b
        if not is_sym(a):
            a, b = b, a
        if not is_sym(b):
            if b == 0:
                return a
            if b > 0:
                return self.wrap(a + b - self.bitand(a, b, t), t)
            return self.bvop('|', a, b, t)
        # disjoint bits: one is a multiple of 2^k and the other smaller than 2^k
        for x, y in ((a, b), (b, a)):
            lo, hi = self.P.bounds(y)
            if lo is not None and hi is not None and lo >= 0:
                k = hi.bit_length()
                if k < 63 and self.P.valid(x % (1 << k) == 0):
                    return x + y
        return self.bvop('|', a, b, t)

    def bvop(self, op, a, b, t):
        w = t.w
        x, y = z3.Int2BV(num(a), w), z3.Int2BV(num(b), w)
        r = x & y if op == '&' else x | y if op == '|' else x ^ y
        v = z3.BV2Int(r, is_signed=bool(t.s))
        n = self.P.fresh_int('bits', t.lo, t.hi)
        self.P.assume(n == v)
        return n

    def arith_result(self, r, t):
        """result of a signed (checked) or unsigned (wrapping) operation"""
        if t.k == 'bool':
            return r
        if t.s:
            if not is_sym(r):
                if not (t.lo <= r <= t.hi):
                    self.P.oblige('no-signed-overflow', False, 'safety')
                return r
            if self.P.within(r, t.lo, t.hi):
                return r
            self.P.oblige('no-signed-overflow', z3.And(r >= t.lo, r <= t.hi), 'safety')
            return r
        return self.wrap(r, t)

    def fltop(self, op, a, b, t=None):
        if isinstance(a, float) and isinstance(b, float):
            try:
                r = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else None
                if op == '/':
                    if b == 0.0:
                        r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1.0, b)
                    else:
                        r = a / b
                if t is not None and t.w == 32:
                    import struct
                    r = struct.unpack('f', struct.pack('f', r))[0] if math.isfinite(r) else r
                return r
            except OverflowError:
                return math.inf
        for x in (a, b):
            if isinstance(x, float) and not math.isfinite(x):
                raise Unsupported('non-finite value in symbolic arithmetic')
        a, b = self.to_sort(a, z3.RealSort()), self.to_sort(b, z3.RealSort())
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if not self.P.branch(b != 0):
                raise CppThrow(Exc(Fake('nonfinite'), []))
            return a / b
        raise Unsupported('floating operator ' + op)

    def compare(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrcmp(op, a, b)
        a, b = self.asint(a) , self.asint(b)
        if not is_sym(a) and not is_sym(b):
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        a, b = num(a), num(b)
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        if op == '<=':
            return a <= b
        if op == '>=':
            return a >= b
        if op == '==':
            return a == b
        return a != b

    def ptrcmp(self, op, a, b):
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('comparison of a pointer with %r' % (b,))
        if a.null or b.null:
            e = a.null and b.null
            if op == '==':
                return e
            if op == '!=':
                return not e
            raise Unsupported('ordering of null pointers')
        if isinstance(a.lv, ElemLV) and isinstance(b.lv, ElemLV):
            if a.lv.a is b.lv.a:
                h = self.opts.get('cmp_hook')
                if h:
                    h(a.lv.i, b.lv.i)
                return self.compare(op, a.lv.i, b.lv.i)
            if op == '==':
                return False
            if op == '!=':
                return True
            raise Unsupported('ordering of unrelated pointers')
        same = a.lv.same(b.lv) or (isinstance(a.lv.get(), Obj) and a.lv.get() is b.lv.get())
        if op == '==':
            return same
        if op == '!=':
            return not same
        raise Unsupported('ordering of pointers')

    def convert_int(self, v, t):
        v = self.asint(v)
        if t.k == 'bool':
            return self.truth(v)
        if t.w is None:
            return v
        return self.wrap(v, t)

    def flt_to_int(self, v, t):
        if isinstance(v, float):
            ok = math.isfinite(v) and t.lo <= math.trunc(v) <= t.hi
            self.P.oblige('float-to-int-in-range', ok, 'safety')
            return math.trunc(v)
        v = self.to_sort(v, z3.RealSort())
        w = whole(v)
        if w is not None:
            self.P.oblige('float-to-int-in-range', z3.And(w >= t.lo, w <= t.hi), 'safety')
            return w
        if self.P.valid(v >= 0):
            r = z3.ToInt(v)
        else:
            r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        n = self.P.fresh_int('trunc')
        self.P.assume(n == r)
        self.P.oblige('float-to-int-in-range', z3.And(n >= t.lo, n <= t.hi), 'safety')
        self.P.ranges[n.decl().name()] = (t.lo, t.hi)
        return n

    # ------------------------------------------------------------------ types and default values
    def derives(self, t, base):
        """does record type t derive from (or equal) the class named base"""
        seen = [t]
        while seen:
            x = seen.pop()
            k = x.key if not isinstance(x, str) else x
            if k == base or (not isinstance(x, str) and x.n == base):
                return True
            if isinstance(x, str) or isinstance(x, Fake):
                if k in STD_BASES:
                    seen.append(STD_BASES[k])
                continue
            r = self.prog.rec(x)
            if r:
                seen += r['bases']
            elif x.n in STD_BASES:
                seen.append(STD_BASES[x.n])
        return False

    def is_exception(self, t):
        return self.derives(t, 'std::exception')

    def all_fields(self, t):
        r = self.prog.rec(t)
        if r is None:
            return []
        out = []
        for b in r['bases']:
            out += self.all_fields(b)
        return out + r['fields']

    def default(self, t, zero=False):
        """default-initialised (or zero-initialised) object of type t"""
        if t.k in ('int', 'enum'):
            return 0 if zero else UNINIT
        if t.k == 'bool':
            return False if zero else UNINIT
        if t.k == 'float':
            return 0.0 if zero else UNINIT
        if t.k in ('ptr', 'nullptr'):
            return NULL if zero else UNINIT
        if t.k == 'array':
            return Arr(t.p, [self.default(t.p, zero) for _ in range(t.cnt)], kind='carray')
        if t.k == 'rec':
            r = self.prog.rec(t)
            if r is not None:
                s = StructObj(t)
                for f in self.all_fields(t):
                    s.fields[f['n']] = self.default(f['t'], zero)
                return s
            return self.lib.default(self, t)
        if t.k == 'ref':
            return UNINIT
        raise Unsupported('default value of ' + t.key)

    # ------------------------------------------------------------------ execution
    def call_named(self, name, this=None, args=(), nparams=None, pick=None):
        f = self.prog.find(name, nparams, pick)
        args = list(args)
        while len(args) < len(f['params']) and 'def' in f['params'][len(args)]:
            args.append(self.default_argument(f, len(args)))
        return self.call(f, this, args)

    def default_argument(self, f, k):
        self.frames.append(Frame({'n': f['n'], 'file': ''}, None, 0))
        try:
            return self.init_value(f['params'][k]['def'], f['params'][k]['t'])
        finally:
            self.frames.pop()

    def call(self, f, this, args, virt=False, node=None):
        """args are LVs for reference parameters and values otherwise"""
        if virt and isinstance(this, StructObj):
            f = self.dispatch(f, this)
        sn = f.get('sn') or f['n']
        h = self.summaries.get(f['key']) or self.summaries.get(f['n']) or self.summaries.get(sn)
        if h is not None:
            r = h(self, f, this, args)
            if r is not NotImplemented:
                return r
        if f.get('body') is None or self.lib.prefers(f):
            if f.get('repo') and f.get('defaulted') or f.get('implicit'):
                if f.get('ca'):
                    src = args[0]
                    src = src.get() if isinstance(src, LV) else src
                    self.assign_struct(this, src)
                    return ObjLV(this)
            return self.lib.call(self, f, this, args, node)
        self.P.ex.stats.functions[f['n']] = '%s:%s' % (f['file'], f['l'])
        return self.invoke(f, this, args)

    def assign_struct(self, dst, src):
        """implicit copy/move assignment, member by member, using the members' own operators"""
        for n in [f['n'] for f in self.all_fields(dst.t)] or list(src.fields):
            cur = dst.fields.get(n)
            v = src.fields[n]
            if isinstance(cur, StructObj):
                ops = [x for x in self.prog.functions.values() if x.get('ca') and x.get('cls') is cur.t and x.get('body') is not None]
                if ops:
                    self.call(ops[0], cur, [ObjLV(v)])
                else:
                    self.assign_struct(cur, v)
            else:
                assign_field(self, dst, n, v)

    def dispatch(self, f, this):
        t = this.t
        todo = [t]
        while todo:
            x = todo.pop(0)
            r = self.prog.rec(x)
            if r is None:
                continue
            for k in r['vm']:
                g = self.prog.functions.get(k)
                if g is None:
                    continue
                if k == f['key'] or self.overrides(g, f['key']):
                    return g
            todo += r['bases']
        return f

    def overrides(self, g, key):
        for o in g.get('ov', []):
            if o == key:
                return True
            h = self.prog.functions.get(o)
            if h and self.overrides(h, key):
                return True
        return False

    def invoke(self, f, this, args):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep in ' + f['n'])
        fr = Frame(f, this, self.depth)
        where = self.P.where
        self.frames.append(fr)
        try:
            for p, a in zip(f['params'], args):
                self.bind_param(fr, p, a)
            for p in f['params'][len(args):]:
                raise Unsupported('missing argument in call of ' + f['n'])
            try:
                self.st(f['body'])
                r = None
            except ReturnEx as e:
                r = e.v
            self.destroy_params(fr, f)
            return r
        finally:
            self.frames.pop()
            self.depth -= 1
            self.P.where = where

    def destroy_params(self, fr, f):
        for p in reversed(f['params']):
            if p['t'].k == 'rec':
                c = fr.vars.get(p['id'])
                if c is not None:
                    self.destroy(c.v)

    def bind_param(self, fr, p, a):
        t = p['t']
        if t.k == 'ref':
            if not isinstance(a, LV):
                a = ObjLV(a) if isinstance(a, Obj) else CellLV(self, Cell(a))
            fr.vars[p['id']] = Cell(a, t, None)
        else:
            if isinstance(a, LV):
                a = a.get()
            c = Cell(a, t)
            self.name(c, 'd%d.%s.%s' % (self.depth, fr.fn['n'], p['n']))
            if isinstance(a, Obj) and a.name is None:
                self.nameobj(a, c.name)
            fr.vars[p['id']] = c

    def nameobj(self, o, n):
        if isinstance(o, Obj) and not isinstance(o, (Exc,)):
            self.name(o, n)
            if isinstance(o, StructObj):
                for k, v in o.fields.items():
                    if isinstance(v, Obj) and v.name is None:
                        self.nameobj(v, n + '.' + k)
            elif isinstance(o, Arr) and o.items is not None and len(o.items) < 64:
                for i, v in enumerate(o.items):
                    if isinstance(v, Obj) and v.name is None:
                        self.nameobj(v, '%s[%d]' % (n, i))
            elif isinstance(o, Opt) and isinstance(o.val, Obj):
                self.nameobj(o.val, n + '.*')

    def call_closure(self, c, args):
        if isinstance(c, FnVal):
            if c.f is None:
                raise CppThrow(Exc(Fake('std::bad_function_call'), []))
            return self.call_closure(c.f, args)
        if isinstance(c, dict):
            return self.call(c, None, args)
        if callable(c) and not isinstance(c, Closure):
            return c(self, args)
        n = c.node
        self.depth += 1
        fr = Frame({'n': 'lambda@%d' % n['l']}, c.this, self.depth)
        fr.vars.update(c.caps)
        self.frames.append(fr)
        try:
            for p, a in zip(n['params'], args):
                self.bind_param(fr, p, a)
            try:
                self.st(n['body'])
                return None
            except ReturnEx as e:
                return e.v
        finally:
            self.frames.pop()
            self.depth -= 1

    def callable_of(self, v):
        """Python callable for any C++ function object"""
        if isinstance(v, LV):
            v = v.get()
        if isinstance(v, StructObj):
            ops = [f for f in self.prog.functions.values() if f.get('cls') is v.t and f['n'].endswith('operator()')]
            return lambda *a: self.call(ops[0], v, list(a))
        return lambda *a: self.call_closure(v, list(a))

    def pure_term(self, fn, k):
        """value of fn(k) as one term: every path of fn is executed and the results are joined"""
        outer = self.P
        res = []
        sub = Explorer(outer.ex.stats, prefix_name=outer.ex.prefix_name, deadline_s=max(1.0, outer.ex.deadline - time.time()))
        sub.on_fail = outer.ex.on_fail
        sub.shrink = outer.ex.shrink
        sub.cex = outer.ex.cex

        def path(P):
            P.inputs = outer.inputs
            P.where = outer.where
            P.counter = outer.counter + 100000
            P.ranges = dict(outer.ranges)
            P.selects = dict(outer.selects)
            for c in outer.pc:
                P.assume(c)
            n0 = len(P.pc)
            self.P = P
            v = self.rv(fn(k))
            if P.counter != outer.counter + 100000:
                raise Unsupported('function applied element-wise is not a simple term')
            res.append((And(P.pc[n0:]), v))
        try:
            sub.explore(path)
        finally:
            self.P = outer
        if not res:
            raise Infeasible()
        r = res[-1][1]
        for c, v in reversed(res[:-1]):
            r = If(c, v, r)
        return r

    # ------------------------------------------------------------------ destruction
    def destroy(self, o):
        if isinstance(o, Lib) and o.cls == 'lock':
            from .lib import drop_lock
            drop_lock(self, o)
            return
        if isinstance(o, StructObj):
            if not o.alive:
                return
            o.alive = False
            r = self.prog.rec(o.t) if o.t is not None else None
            while r is not None:
                if r.get('dtor'):
                    f = self.prog.functions.get(r['dtor'])
                    if f is not None and f.get('body') is not None:
                        self.P.ex.stats.functions[f['n']] = '%s:%s' % (f['file'], f['l'])
                        h = self.summaries.get(f['key']) or self.summaries.get(f['n'])
                        if h is not None:
                            h(self, f, o, [])
                        else:
                            self.invoke(f, o, [])
                for fd in reversed(r['fields']):
                    self.destroy(o.fields.get(fd['n']))
                if r['bases']:
                    r = self.prog.rec(r['bases'][0])
                else:
                    r = None
        elif isinstance(o, Lib):
            h = self.lib.dtors.get(o.cls)
            if h:
                h(self, o)

    # ------------------------------------------------------------------ statements
    def st(self, s):
        if s is None:
            return
        self.nsteps += 1
        if self.nsteps > 400000:
            raise Unsupported('too many steps')
        k = s['k']
        if 'l' in s and self.frames:
            self.P.where = '%s:%s (%s)' % (self.frames[-1].fn.get('file', ''), s['l'], self.frames[-1].fn['n'])
        getattr(self, 'st_' + k)(s)

    def st_unsup(self, s):
        raise Unsupported('statement ' + s['w'])

    def st_nop(self, s):
        pass

    def st_expr(self, s):
        self.full(s['e'])

    def full(self, e):
        """evaluate a full expression, then destroy its temporaries"""
        fr = self.frames[-1]
        saved = fr.temps
        fr.temps = []
        try:
            return self.ev(e)
        finally:
            t = fr.temps
            fr.temps = saved
            for o in reversed(t):
                self.destroy(o)

    def st_block(self, s):
        declared = []
        try:
            for x in s['b']:
                if x['k'] == 'decl':
                    for d in x['ds']:
                        self.declare(d)
                        declared.append(d)
                else:
                    self.st(x)
        except Infeasible:
            raise
        except (Unsupported, Restart):
            raise
        except BaseException as e:
            self.undeclare(declared, e)
            raise
        self.undeclare(declared)

    def undeclare(self, ds, exc=None):
        ret = exc.v if isinstance(exc, ReturnEx) else None
        for d in reversed(ds):
            if d['t'].k == 'rec' and not d.get('static'):
                c = self.frames[-1].vars.get(d['id'])
                if c is not None and isinstance(c.v, StructObj) and c.v is not ret:
                    self.destroy(c.v)
                elif c is not None and isinstance(c.v, Lib) and c.v is not ret:
                    self.destroy(c.v)

    def st_decl(self, s):
        for d in s['ds']:
            self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        self.P.where = '%s:%s (%s)' % (fr.fn.get('file', ''), d['l'], fr.fn['n'])
        if d.get('static'):
            fr.vars[d['id']] = self.global_cell(d['gk'])
            return
        t = d['t']
        nm = 'd%d.%s.%s' % (self.depth, fr.fn['n'], d['n'])
        if t.k == 'ref':
            v = self.full_keep(d['init'])
            if not isinstance(v, LV):
                v = ObjLV(v) if isinstance(v, Obj) else CellLV(self, Cell(v))
            fr.vars[d['id']] = Cell(v, t)
            return
        if d['init'] is None:
            v = self.default(t)
        else:
            v = self.init_value(d['init'], t)
        c = Cell(v, t)
        self.name(c, nm)
        if isinstance(v, Obj):
            self.nameobj(v, nm)
        fr.vars[d['id']] = c

    def full_keep(self, e):
        """as full(), but the outermost temporary is lifetime-extended"""
        fr = self.frames[-1]
        saved = fr.temps
        fr.temps = []
        try:
            v = self.ev(e)
            o = v.get() if isinstance(v, (CellLV, ObjLV)) else None
            fr.temps = [x for x in fr.temps if x is not o]
            return v
        finally:
            t = fr.temps
            fr.temps = saved
            for o in reversed(t):
                self.destroy(o)

    def init_value(self, e, t):
        fr = self.frames[-1]
        saved = fr.temps
        fr.temps = []
        try:
            v = self.ev(e)
            if isinstance(v, LV):
                v = v.get()
                if isinstance(v, Obj):
                    v = copyval(self, v)
            fr.temps = [x for x in fr.temps if x is not v]
            if t.k == 'array' and isinstance(v, Arr) is False and isinstance(v, Ptr):
                raise Unsupported('array initialised from a pointer')
            if t.k == 'array' and isinstance(v, Arr) and len(v.items) < t.cnt:
                v.items = v.items + [self.default(t.p, True) for _ in range(t.cnt - len(v.items))]
            return v
        finally:
            tt = fr.temps
            fr.temps = saved
            for o in reversed(tt):
                self.destroy(o)

    def cond(self, e):
        return self.P.branch(self.truth(self.rv(self.full(e))))

    def st_if(self, s):
        if s.get('init'):
            self.st(s['init'])
        ds = []
        if s.get('cv'):
            self.declare(s['cv'])
            ds.append(s['cv'])
        if self.cond(s['c']):
            self.st(s['a'])
        elif s.get('b'):
            self.st(s['b'])
        if ds:
            self.undeclare(ds)

    def st_return(self, s):
        fr = self.frames[-1]
        if s['e'] is None:
            raise ReturnEx(None)
        saved = fr.temps
        fr.temps = []
        try:
            v = self.ev(s['e'])
            rt = fr.fn.get('ret')
            if isinstance(v, LV) and (rt is None or rt.k != 'ref'):
                v = v.get()
            keep = v
            fr.temps = [x for x in fr.temps if x is not keep]
        finally:
            t = fr.temps
            fr.temps = saved
            for o in reversed(t):
                self.destroy(o)
        raise ReturnEx(v)

    def st_break(self, s):
        raise BreakEx()

    def st_continue(self, s):
        raise ContinueEx()

    def st_try(self, s):
        try:
            self.st(s['b'])
        except CppThrow as e:
            for h in s['hs']:
                if 'var' not in h:
                    ok = True
                else:
                    ok = self.exc_matches(e.val, h['t'])
                if ok:
                    if 'var' in h:
                        self.frames[-1].vars[h['var']['id']] = Cell(ObjLV(e.val) if h['var']['t'].k == 'ref' else e.val, h['var']['t'])
                    self.current_exc = e
                    self.st(h['b'])
                    return
            raise

    def exc_matches(self, v, t):
        if isinstance(v, Exc):
            if v.t.key == 'nonfinite':
                return False
            return self.derives(v.t, t.n if t.n else t.key)
        if isinstance(v, StructObj):
            return self.derives(v.t, t.n if t.n else t.key)
        return False

    def st_switch(self, s):
        if s.get('cv'):
            self.declare(s['cv'])
        v = self.asint(self.rv(self.full(s['c'])))
        labels = []

        def flat(b, out):
            for x in b:
                y = x
                while y is not None and y['k'] in ('case', 'default'):
                    out.append(('label', y))
                    y = y['b']
                if y is not None:
                    out.append(('st', y))
        items = []
        body = s['b']
        flat(body['b'] if body['k'] == 'block' else [body], items)
        start = None
        default = None
        for i, (kind, x) in enumerate(items):
            if kind == 'label':
                if x['k'] == 'default':
                    default = i
                    continue
                lo = self.asint(self.rv(self.ev(x['v'])))
                if 'v2' in x:
                    hi = self.asint(self.rv(self.ev(x['v2'])))
                    c = And(v >= lo, v <= hi)
                else:
                    c = eq(v, lo)
                if self.P.branch(c):
                    start = i
                    break
        if start is None:
            start = default
        if start is None:
            return
        try:
            for kind, x in items[start:]:
                if kind == 'st':
                    self.st(x)
        except BreakEx:
            pass

    # ------------------------------------------------------------------ loops
    def st_while(self, s):
        def c():
            if s.get('cv'):
                self.declare(s['cv'])
            return self.truth(self.rv(self.full(s['c'])))
        self.loop(s, c, lambda: self.st(s['b']), None)

    def st_do(self, s):
        try:
            self.st(s['b'])
        except BreakEx:
            return
        except ContinueEx:
            pass
        self.loop(s, lambda: self.truth(self.rv(self.full(s['c']))), lambda: self.st(s['b']), None)

    def st_for(self, s):
        if s['init']:
            self.st(s['init'])
        self.loop(s, (lambda: self.truth(self.rv(self.full(s['c'])))) if s['c'] else (lambda: True),
                  lambda: self.st(s['b']), (lambda: self.full(s['inc'])) if s['inc'] else None)
        if s['init'] and s['init']['k'] == 'decl':
            self.undeclare(s['init']['ds'])

    def st_forrange(self, s):
        fr = self.frames[-1]
        r = self.full_keep(s['range'])
        o = r.get() if isinstance(r, LV) else r
        if isinstance(o, MapObj):
            if o.lazy is not None:
                raise Unsupported('iteration over an arbitrary map')
            seq = [self.lib.map_pair(self, o, it) for it in list(o.items)]
            o = Arr(None, seq)
        elif isinstance(o, Lib) and hasattr(o, 'items'):
            o = Arr(None, list(o.items))
        elif hasattr(o, 'parts') and isinstance(o.parts, Arr):
            o = o.parts
        if not isinstance(o, (Arr, Str)):
            raise Unsupported('range-for over %r' % (o,))
        idx = Cell(0, self.lib.size_t(), None)
        self.name(idx, 'd%d.%s.range@%d' % (self.depth, fr.fn['n'], s['l']))
        var = s['var']

        def body():
            lv = ElemLV(self, o, idx.v)
            if var['t'].k == 'ref':
                e = lv.get()
                fr.vars[var['id']] = Cell(ObjLV(e) if isinstance(e, Obj) else lv, var['t'])
                c = None
            else:
                v = copyval(self, lv.get())
                c = Cell(v, var['t'])
                self.name(c, 'd%d.%s.%s' % (self.depth, fr.fn['n'], var['n']))
                if isinstance(v, Obj):
                    self.nameobj(v, c.name)
                fr.vars[var['id']] = c
            self.st(s['b'])

        def inc():
            CellLV(self, idx).set(idx.v + 1)
        def cond():
            h = self.opts.get('cmp_hook')
            if h:
                h(idx.v, o.size())
            return self.compare('<', idx.v, o.size())
        self.loop(s, cond, body, inc)

    def site(self, s):
        return (self.frames[-1].fn.get('file', ''), self.frames[-1].fn['n'], s['l'], s['k'])

    def loop(self, s, cond, body, inc):
        site = self.site(s)
        ex = self.P.ex
        if site in ex.loop_writes:
            return self.cut_loop(s, site, cond, body, inc)
        n = 0
        nsym = 0
        while True:
            c = cond()
            if is_sym(c):
                c = simp(c)
            if is_sym(c):
                nsym += 1
                if self.cut_after is not None and nsym > self.cut_after:
                    ex.loop_writes[site] = set()
                    ex.loop_drop[site] = {}
                    raise Restart()
                if nsym > self.max_unroll:
                    raise Unsupported('loop at %s:%d has no constant bound' % (site[0], site[2]))
            if not self.P.branch(c):
                return
            n += 1
            if n > 70000:
                raise Unsupported('loop at %s:%d too long' % (site[0], site[2]))
            try:
                body()
            except BreakEx:
                return
            except ContinueEx:
                pass
            if inc:
                inc()

    # a loop with an inductive invariant
    def cut_loop(self, s, site, cond, body, inc):
        ex, P = self.P.ex, self.P
        locs = sorted(ex.loop_writes[site], key=str)
        drop = ex.loop_drop[site]
        entry_serial = self.serial
        L = LoopState(self, site)
        L.locs = [(nm, key) for nm, key in locs if nm in self.registry and self.registry[nm].serial <= entry_serial]
        for nm, key in L.locs:
            L.entry[(nm, key)] = self.snap(nm, key)
        L.cond = cond
        deltas = drop.setdefault('deltas', {})
        cands = self.candidates(L, drop)

        def check(stage):
            gone = False
            for nm, f in cands:
                if nm in drop.setdefault('dropped', {}):
                    continue
                c = f()
                if c is None:
                    continue
                if c is True:
                    continue
                r = P.valid(c) if is_sym(c) else bool(c)
                if not r and is_sym(c) and P.linear is None:
                    r = ex.hard(P.pc + [z3.Not(c)], nm, 30) == 'unsat' if nm.startswith('spec:') else False
                if not r:
                    drop['dropped'][nm] = stage
                    gone = True
                    continue
                ex.stats.obligations += 1
                ex.stats.discharged += 1
                k = ex.prefix_name + 'loop-invariant-' + ('holds-on-entry' if stage == 'entry' else 'is-preserved')
                rec = ex.stats.names.setdefault(k, [0, 0])
                rec[0] += 1
                rec[1] += 1
                ex.stats.by['z3'] = ex.stats.by.get('z3', 0) + 1
            if gone:
                raise Restart()
        # entry
        L.it = 0
        L.now = dict(L.entry)
        check('entry')
        # arbitrary iteration
        for nm, key in L.locs:
            self.havoc(nm, key)
            self.wrote(self.registry[nm], key)
        L.it = P.fresh_int('iteration', 0, None)
        L.now = dict((k, self.snap(*k)) for k in L.entry)
        before = dict(L.now)
        for nm, f in cands:
            if nm in drop.get('dropped', ()):
                continue
            c = f()
            if c is not None:
                P.assume(c)
        log = []
        if self.writes is None:
            self.writes = []
        self.writes.append(log)
        born = BIRTHS[0]
        state = dict((nm, (o, shallow(o))) for nm, o in self.registry.items())
        try:
            c = cond()
            if not P.branch(c):
                return
            out = None
            try:
                body()
            except BreakEx:
                out = 'break'
            except ContinueEx:
                pass
            if out is None and inc:
                inc()
        finally:
            self.writes.pop()
            if not self.writes:
                self.writes = None
            new = set()
            logged = set()
            lost = None
            for o, key in log:
                logged.add(id(o))
                if o.name is not None and o.serial <= entry_serial and self.registry.get(o.name) is o:
                    if (o.name, key) not in ex.loop_writes[site]:
                        new.add((o.name, key))
                elif o.birth <= born:
                    lost = lost or 'loop changes an object that has no name (%s)' % type(o).__name__
            if new:
                ex.loop_writes[site] |= new
                self.reconsider()
                raise Restart()
            if lost:
                raise Unsupported(lost)
            for nm, (o, before_) in state.items():
                if id(o) not in logged and shallow(o) != before_:
                    raise Unsupported('loop changes %s unnoticed' % nm)
        if out == 'break':
            return
        # learn constant steps
        learned = False
        for k in L.entry:
            a, b = before[k], self.snap(*k)
            if isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None or a is UNINIT or b is UNINIT:
                continue
            if (is_sym(a) and z3.is_int(a)) or isinstance(a, int):
                if isinstance(a, bool) or not ((is_sym(b) and z3.is_int(b)) or isinstance(b, int)):
                    continue
                d = simp(b - a)
                if k not in deltas:
                    if not is_sym(d):
                        deltas[k] = d
                        learned = True
                    else:
                        deltas[k] = None
        if learned:
            self.reconsider()
            raise Restart()
        L.it = L.it + 1
        L.now = dict((k, self.snap(*k)) for k in L.entry)
        check('preserved')
        raise Infeasible()

    def reconsider(self):
        """invariants given up because of what was not yet known of a loop around theirs"""
        if self.P.linear is not None:
            for d in self.P.ex.loop_drop.values():
                d.pop('dropped', None)

    def candidates(self, L, drop):
        out = []
        for k, d in drop.get('deltas', {}).items():
            if d is not None and k in L.entry:
                e = L.entry[k]
                if e is UNINIT or e is None:
                    continue
                out.append(('step:%s' % (k,), lambda k=k, d=d, e=e: eq(L.now[k], e + d * L.it)))

        def bound(op):
            def f():
                ab = self.cond_operands(L)
                if ab is None:
                    return None
                a, b = ab
                if op == '<=':
                    return a <= b
                return a >= b
            return f
        out.append(('cond<=', bound('<=')))
        out.append(('cond>=', bound('>=')))
        for nm, f in self.loop_invs:
            if nm == '*':           # a family of candidates
                out += [('spec:' + n, g) for n, g in f(self, L)]
                continue
            out.append(('spec:' + nm, lambda f=f: f(self, L)))
        return out

    def cond_operands(self, L):
        """operands of the comparison controlling the loop, evaluated in the current state"""
        box = []
        old = self.opts.get('cmp_hook')
        self.opts['cmp_hook'] = lambda a, b: box.append((a, b))
        try:
            saved = len(self.P.decisions)
            L.cond()
            if len(self.P.decisions) != saved:
                return None
        except (CppThrow, Infeasible):
            return None
        finally:
            self.opts['cmp_hook'] = old
        if len(box) >= 1:
            a, b = box[0]
            ok = lambda x: isinstance(x, int) and not isinstance(x, bool) or (is_sym(x) and z3.is_int(x))
            if ok(a) and ok(b):
                return a, b
        return None

    def snap(self, nm, key):
        o = self.registry[nm]
        if isinstance(o, Cell):
            v = o.v
        elif isinstance(o, StructObj):
            v = o.fields.get(key)
        elif isinstance(o, Arr):
            c = o.copy(self)
            return ('arr', c)
        elif isinstance(o, Str):
            return ('str', o.copy(self))
        else:
            return ('obj', o.copy(self) if hasattr(o, 'copy') else o)
        if isinstance(v, Ptr) and isinstance(v.lv, ElemLV):
            return v.lv.i
        if isinstance(v, (Obj, Ptr, LV)):
            return ('obj', v)
        return v

    def havoc(self, nm, key):
        o = self.registry[nm]
        P = self.P
        if isinstance(o, Cell):
            o.v = self.havoc_value(o.v, o.t, nm)
        elif isinstance(o, StructObj):
            fd = dict((f['n'], f) for f in self.all_fields(o.t))
            o.fields[key] = self.havoc_value(o.fields.get(key), fd[key]['t'], nm + '.' + key)
        elif isinstance(o, Arr) and not hasattr(o, 'havoc'):
            self.havoc_arr(o, key, nm)
        elif isinstance(o, Str):
            n = P.fresh_int('len', 0, 1 << 40)
            o.parts = [View(z3.Array(P.fresh('str'), z3.IntSort(), z3.IntSort()), 0, n)]
        elif hasattr(o, 'havoc'):
            type(o).havoc(self, o)
        elif isinstance(o, Lib) and hasattr(self.lib, 'havoc_' + o.cls.replace('::', '_')):
            getattr(self.lib, 'havoc_' + o.cls.replace('::', '_'))(self, o)
        else:
            raise Unsupported('loop changes an object of an unmodelled kind: ' + nm)

    def havoc_arr(self, o, key, nm):
        P = self.P
        t = o.t
        srt = z3.IntSort() if t.isint else z3.RealSort() if t.k == 'float' else z3.BoolSort() if t.k == 'bool' else None
        if srt is None:
            raise Unsupported('loop changes an array of objects: ' + nm)
        n = o.size()
        o.items = None
        o.arr = z3.Array(P.fresh('arr'), z3.IntSort(), srt)
        o.n = n if key != 'len' else P.fresh_int('len', 0, 1 << 40)

    def havoc_value(self, v, t, nm):
        P = self.P
        if t is None:
            raise Unsupported('loop changes a location of unknown type')
        if t.isint:
            return P.fresh_int('h', t.lo, t.hi)
        if t.k == 'bool':
            return P.fresh_bool('h')
        if t.k == 'float':
            return P.fresh_real('h')
        if isinstance(v, Ptr) and isinstance(v.lv, ElemLV):
            return Ptr(ElemLV(self, v.lv.a, P.fresh_int('h')))
        if t.k in ('int',):
            return P.fresh_int('h', t.lo, t.hi)
        raise Unsupported('loop changes a value of type %s' % t.key)

    # ------------------------------------------------------------------ expressions
    def rv(self, v):
        if isinstance(v, LV):
            v = v.get()
        return v

    def ev(self, e):
        return getattr(self, 'ev_' + e['k'])(e)

    def val(self, e):
        return self.rv(self.ev(e))

    def ev_unsup(self, e):
        raise Unsupported('expression ' + e['w'])

    def ev_int(self, e):
        return e['v']

    def ev_flt(self, e):
        return e['v']

    def ev_null(self, e):
        return NULL

    def ev_zero(self, e):
        return self.default(e['t'], True)

    def ev_this(self, e):
        return Ptr(ObjLV(self.frames[-1].this))

    def ev_str(self, e):
        a = Arr(e['t'].p, [v - 256 if v > 127 else v for v in e['v']] + [0], kind='carray')
        return ObjLV(a)

    def ev_cleanups(self, e):
        return self.ev(e['e'])

    def ev_definit(self, e):
        return self.ev(e['e'])

    def ev_bind(self, e):
        v = self.ev(e['e'])
        if isinstance(v, StructObj) and self.frames and self.frames[-1].temps is not None:
            if not any(x is v for x in self.frames[-1].temps):
                self.frames[-1].temps.append(v)
        return v

    def ev_mat(self, e):
        v = self.ev(e['e'])
        if isinstance(v, LV):
            return v
        if isinstance(v, Obj):
            return ObjLV(v)
        return CellLV(self, Cell(v, e['t']))

    def ev_initlist(self, e):
        v = self.ev(e['e'])
        if isinstance(v, LV):
            v = v.get()
        return v

    def ev_var(self, e):
        if e.get('g'):
            c = self.global_cell(e['gk'])
        else:
            c = None
            fr = self.frames[-1]
            c = fr.vars.get(e['id'])
            if c is None:
                raise Unsupported('variable %s not in scope' % e['n'])
        if isinstance(c.v, LV) and (c.t is None or c.t.k == 'ref'):
            return c.v
        if isinstance(c.v, Obj):
            return ObjLV(c.v)
        return CellLV(self, c)

    def global_cell(self, gk):
        c = self.globals.get(gk)
        if c is None:
            g = self.prog.globals[gk]
            h = self.opts.get('globals', {}).get(g['n'])
            if h is not None:
                v = h(self)
            elif g['n'] == 'boost::none':
                v = Lib('boost::none_t')
            elif 'init' in g:
                self.frames.append(Frame({'n': g['n'], 'file': ''}, None, 0))
                try:
                    if g['t'].k == 'ref':
                        v = self.full_keep(g['init'])
                    else:
                        v = self.init_value(g['init'], g['t'])
                finally:
                    self.frames.pop()
            elif g['repo']:
                v = self.default(g['t'], True)
            elif g['n'] in self.lib.globals:
                v = self.lib.globals[g['n']]
            else:
                raise Unsupported('global ' + g['n'])
            c = Cell(v, g['t'])
            self.name(c, 'global.' + gk)
            if isinstance(v, Obj):
                self.nameobj(v, 'global.' + gk)
            self.globals[gk] = c
        return c

    def ev_fn(self, e):
        f = self.prog.functions[e['f']]
        return FnVal(f)

    def ev_fieldref(self, e):
        raise Unsupported('field reference')

    def base_obj(self, e):
        v = self.ev(e['e'])
        if e.get('arrow'):
            v = self.rv(v)
            return self.deref(v).get()
        return self.rv(v)

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.null:
                self.P.oblige('no-null-dereference', False, 'safety')
            return p.lv
        if isinstance(p, LV):
            return self.deref(p.get())
        raise Unsupported('dereference of %r' % (p,))

    def ev_member(self, e):
        o = self.base_obj(e)
        if 'f' in e:
            return FnVal((e['f'], o))
        if isinstance(o, StructObj):
            v = o.fields[e['n']]
            if isinstance(v, LV):
                return v
            if isinstance(v, Obj):
                return ObjLV(v)
            return FieldLV(self, o, e['n'])
        return self.lib.member(self, o, e['n'])

    def args_for(self, f, es):
        """evaluate call arguments: LVs for reference parameters, fresh values otherwise"""
        ps = f['params']
        out = []
        for i, a in enumerate(es):
            v = self.ev(a)
            if i < len(ps) and ps[i]['t'].k == 'ref':
                if not isinstance(v, LV):
                    v = ObjLV(v) if isinstance(v, Obj) else CellLV(self, Cell(v, a.get('t')))
            else:
                if isinstance(v, LV):
                    v = v.get()
                if v is UNINIT:
                    self.P.oblige('no-read-of-uninitialised-variable', False, 'safety')
                if isinstance(v, StructObj) and self.frames[-1].temps is not None:
                    self.frames[-1].temps = [x for x in self.frames[-1].temps if x is not v]
            out.append(v)
        return out

    def ev_mcall(self, e):
        f = self.prog.functions[e['f']]
        o = self.ev(e['this'])
        if e.get('arrow'):
            o = self.rv(o)
            if isinstance(o, Ptr):
                o = self.deref(o).get()
        else:
            o = self.rv(o)
        args = self.args_for(f, e['args'])
        w = self.P.where
        r = self.call(f, o, args, virt=e.get('virt'), node=e)
        self.P.where = w
        return r

    def ev_call(self, e):
        if 'f' not in e:
            c = self.rv(self.ev(e['callee']))
            args = [self.ev(a) for a in e['args']]
            if isinstance(c, Ptr):
                c = c.lv.get()
            return self.call_closure(c, args)
        f = self.prog.functions[e['f']]
        if e.get('meth'):
            o = self.ev(e['args'][0])
            cell = o
            if not f['n'].startswith('std::_Bit_reference::'):
                o = self.rv(o)
            if isinstance(o, (Ptr, MapIt)) and e['op'] in ('++', '--', '+=', '-=') and isinstance(cell, LV):
                # iterators are values: change a copy and store it
                n = Ptr(o.lv) if isinstance(o, Ptr) else MapIt(o.m, o.i)
                r = self.call(f, n, self.args_for(f, e['args'][1:]), node=e)
                cell.set(n)
                return cell if isinstance(r, LV) else r
            if isinstance(o, (Closure, FnVal)):
                args = []
                if isinstance(o, Closure):
                    for p, a in zip(o.node['params'], e['args'][1:]):
                        v = self.ev(a)
                        args.append(v if p['t'].k == 'ref' else self.rv(v))
                else:
                    args = [self.ev(a) for a in e['args'][1:]]
                if e['op'] == '()':
                    return self.call_closure(o, args)
            args = self.args_for(f, e['args'][1:])
            w = self.P.where
            r = self.call(f, o, args, virt=e.get('virt'), node=e)
            self.P.where = w
            return r
        args = self.args_for(f, e['args'])
        w = self.P.where
        r = self.call(f, None, args, node=e)
        self.P.where = w
        return r

    def ev_construct(self, e):
        t = e['t']
        f = self.prog.functions[e['f']]
        if e['elid'] and len(e['args']) == 1:
            v = self.rv(self.ev(e['args'][0]))
            return v
        if t.k == 'array':
            # array of records default-constructed
            return Arr(t.p, [self.construct(f, t.p, [], e) for _ in range(t.cnt)], kind='carray')
        return self.construct(f, t, self.args_for(f, e['args']), e)

    def construct(self, f, t, args, e=None):
        if self.is_exception(t):
            if e is not None and e.get('ck') in ('copy', 'move'):
                return self.rv(args[0])
            return Exc(t, [copyval(self, self.rv(a)) for a in args])
        h = self.summaries.get(f['key']) or self.summaries.get(f['n'])
        if h is not None:
            r = h(self, f, None, args)
            if r is not NotImplemented:
                return r
        if self.prog.rec(t) is None or (self.lib.prefers(f)):
            if f['ck'] in ('copy', 'move') and len(args) == 1:
                src = self.rv(args[0])
                if isinstance(src, Obj):
                    return self.lib.copy_construct(self, t, src, f['ck'])
            return self.lib.construct(self, f, t, args, e)
        if f.get('ck') in ('copy', 'move') and f.get('defaulted'):
            return self.copy_struct(self.rv(args[0]), f['ck'])
        o = self.default(t, bool(e and e.get('zero')))
        self.run_ctor(f, o, args)
        return o

    def copy_struct(self, src, ck='copy'):
        """implicit copy/move constructor"""
        if not isinstance(src, StructObj):
            return copyval(self, src)
        n = StructObj(src.t)
        for k, v in src.fields.items():
            if isinstance(v, StructObj):
                cc = [x for x in self.prog.functions.values() if x.get('fk') == 'ctor' and x.get('ck') == 'copy' and x.get('cls') is v.t and x.get('body') is not None and not x.get('defaulted')]
                n.fields[k] = self.construct(cc[0], v.t, [ObjLV(v)]) if cc else self.copy_struct(v, ck)
            elif ck == 'move' and isinstance(v, FnVal):
                n.fields[k] = self.lib.copy_construct(self, None, v, ck)
            else:
                n.fields[k] = copyval(self, v)
        return n

    def run_ctor(self, f, o, args):
        if f.get('body') is None and f.get('defaulted'):
            self.default_inits(o)
            return
        if f.get('body') is None:
            raise Unsupported('constructor without a definition: ' + f['n'])
        self.P.ex.stats.functions[f['n']] = '%s:%s' % (f['file'], f['l'])
        self.depth += 1
        fr = Frame(f, o, self.depth)
        self.frames.append(fr)
        where = self.P.where
        try:
            for p, a in zip(f['params'], args):
                self.bind_param(fr, p, a)
            for i in f.get('inits', []):
                self.run_init(i, o)
            try:
                self.st(f['body'])
            except ReturnEx:
                pass
            self.destroy_params(fr, f)
        finally:
            self.frames.pop()
            self.depth -= 1
            self.P.where = where

    def default_inits(self, o):
        for fd in self.all_fields(o.t):
            if fd.get('init'):
                o.fields[fd['n']] = self.init_value_in(fd['init'], fd['t'], o)

    def init_value_in(self, e, t, this):
        fr = Frame({'n': 'init', 'file': ''}, this, self.depth)
        self.frames.append(fr)
        try:
            return self.init_value(e, t)
        finally:
            self.frames.pop()

    def run_init(self, i, o):
        if 'field' in i:
            fds = dict((x['n'], x) for x in self.all_fields(o.t))
            fd = fds[i['field']]
            if fd['t'].k == 'ref':
                o.fields[i['field']] = self.ev(i['e'])
            else:
                o.fields[i['field']] = self.init_value(i['e'], fd['t'])
        elif 'base' in i or 'deleg' in i:
            e = i['e']
            while e['k'] in ('cleanups', 'bind', 'definit'):
                e = e['e']
            if e['k'] != 'construct':
                raise Unsupported('base initialiser')
            f = self.prog.functions[e['f']]
            if self.prog.rec(e['t']) is None:
                if self.lib.base_construct(self, o, e['t'], f, self.args_for(f, e['args'])):
                    return
                raise Unsupported('library base class ' + e['t'].key)
            if f.get('defaulted') and f.get('ck') in ('copy', 'move'):
                src = self.rv(self.args_for(f, e['args'])[0])
                for fd in self.all_fields(e['t']):
                    o.fields[fd['n']] = copyval(self, src.fields[fd['n']])
                return
            if f.get('body') is None and f.get('defaulted'):
                for fd in self.all_fields(e['t']):
                    if fd.get('init'):
                        o.fields[fd['n']] = self.init_value_in(fd['init'], fd['t'], o)
                return
            self.run_ctor(f, o, self.args_for(f, e['args']))

    def ev_init(self, e):
        t = e['t']
        if t.k == 'array':
            items = [self.elem_value(x) for x in e['es']]
            n = t.cnt
            if n is not None and n > len(items):
                for _ in range(n - len(items)):
                    items.append(self.elem_value(e['filler']) if e.get('filler') else self.default(t.p, True))
            return Arr(t.p, items, kind='carray')
        if t.k == 'rec':
            r = self.prog.rec(t)
            if r is None:
                return self.lib.aggregate(self, t, [self.elem_value(x) for x in e['es']])
            o = self.default(t)
            es = list(e['es'])
            fs = self.all_fields(t)
            for fd, x in zip(fs, es):
                if fd['t'].k == 'ref':
                    o.fields[fd['n']] = self.ev(x)
                else:
                    o.fields[fd['n']] = self.elem_value(x, o)
            return o
        if e['es']:
            return self.val(e['es'][0])
        return self.default(t, True)

    def elem_value(self, x, this=None):
        if this is not None and x['k'] == 'definit':
            return self.init_value_in(x['e'], x['t'], this)
        v = self.ev(x)
        if isinstance(v, LV):
            v = copyval(self, v.get())
        if isinstance(v, StructObj) and self.frames[-1].temps is not None:
            self.frames[-1].temps = [y for y in self.frames[-1].temps if y is not v]
        return v

    def ev_lambda(self, e):
        caps = {}
        fr = self.frames[-1]
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                continue
            src = fr.vars.get(c['id'])
            if src is None:
                raise Unsupported('capture of an unknown variable')
            if c.get('ref'):
                caps[c['id']] = src
            else:
                v = src.v
                t = src.t
                if isinstance(v, LV) and t is not None and t.k == 'ref':
                    v = v.get()
                    t = t.p
                caps[c['id']] = Cell(copyval(self, v), t, src.name)
        return Closure(e, caps, this)

    def ev_throw(self, e):
        if e['e'] is None:
            raise self.current_exc
        v = self.rv(self.ev(e['e']))
        raise CppThrow(v)

    def ev_new(self, e):
        t = e['at']
        if e['array']:
            n = self.val(e['size'])
            n = simp(n)
            if is_sym(n):
                a = self.lib.fresh_arr(self, t, n, 'new')
            else:
                self.P.oblige('allocation-size-valid', n >= 0, 'safety')
                zero = e.get('init') is not None
                a = Arr(t, [self.default(t, zero) for _ in range(n)], kind='heap')
            self.nameobj(a, self.tempname('new@%d' % e['l']))
            a.kind = 'heap'
            return Ptr(ElemLV(self, a, 0))
        if e['init'] is not None:
            v = self.val(e['init'])
        else:
            v = self.default(t)
        if isinstance(v, Obj):
            self.nameobj(v, self.tempname('new@%d' % e['l']))
            return Ptr(ObjLV(v))
        return Ptr(CellLV(self, Cell(v, t)))

    def ev_delete(self, e):
        p = self.val(e['e'])
        if p.null:
            return None
        if isinstance(p.lv, ElemLV):
            if p.lv.a.freed:
                self.P.oblige('no-double-free', False, 'safety')
            if self.opts.get('on_free'):
                self.opts['on_free'](self, p.lv.a)
            p.lv.a.freed = True
        else:
            self.destroy(p.lv.get())
        return None

    def ev_cast(self, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            v = self.ev(e['e'])
            v = self.rv(v)
            if v is UNINIT:
                self.P.oblige('no-read-of-uninitialised-variable', False, 'safety')
            return v
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(e['e'])
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e['e'])
            a = self.rv(v)
            return Ptr(ElemLV(self, a, 0))
        if ck == 'IntegralCast':
            v = self.val(e['e'])
            return self.convert_int(v, e['t'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.truth(self.val(e['e']))
        if ck == 'BooleanToSignedIntegral':
            return self.asint(self.val(e['e']))
        if ck == 'IntegralToFloating':
            v = self.asint(self.val(e['e']))
            if is_sym(v):
                return z3.ToReal(v)
            return float(v)
        if ck == 'FloatingToIntegral':
            return self.flt_to_int(self.val(e['e']), e['t'])
        if ck == 'FloatingCast':
            v = self.val(e['e'])
            if isinstance(v, float) and e['t'].w == 32:
                import struct
                return struct.unpack('f', struct.pack('f', v))[0] if math.isfinite(v) else v
            return v
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        if ck == 'BitCast':
            return self.lib.bitcast(self, self.ev(e['e']), e['t'], e['e'].get('t'))
        if ck == 'Dynamic':
            v = self.val(e['e'])
            if isinstance(v, Ptr):
                if v.null:
                    return NULL
                o = v.lv.get()
                if isinstance(o, (StructObj, Exc)) and self.derives(o.t, e['t'].p.n):
                    return v
                return NULL
        raise Unsupported('cast ' + ck)

    def ev_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.truth(self.val(e['a']))
            if not self.P.branch(a):
                return False
            return self.truth(self.val(e['b']))
        if op == '||':
            a = self.truth(self.val(e['a']))
            if self.P.branch(a):
                return True
            return self.truth(self.val(e['b']))
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.val(e['a'])
        b = self.val(e['b'])
        for x in (a, b):
            if x is UNINIT:
                self.P.oblige('no-read-of-uninitialised-variable', False, 'safety')
        if op in ('<', '>', '<=', '>=', '==', '!='):
            h = self.opts.get('cmp_hook')
            if h:
                h(a, b) if not isinstance(a, Ptr) else None
            return self.compare(op, a, b)
        return self.binop(op, a, b, e['t'])

    def binop(self, op, a, b, t):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(op, a, b)
        if t.k == 'float':
            return self.fltop(op, a, b, t)
        if t.k == 'bool':
            raise Unsupported('boolean operator ' + op)
        return self.intop(op, a, b, t)

    def ptrop(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == '-':
                if a.lv.a is b.lv.a:
                    return simp(a.lv.i - b.lv.i)
            raise Unsupported('pointer operator ' + op)
        if isinstance(b, Ptr):
            a, b = b, a
        if a.null:
            raise Unsupported('arithmetic on a null pointer')
        if not isinstance(a.lv, ElemLV):
            raise Unsupported('arithmetic on a pointer to a single object')
        i = simp(a.lv.i + b) if op == '+' else simp(a.lv.i - b)
        if self.opts.get('ptr_arith_checked', True):
            n = a.lv.a.size() + (1 if isinstance(a.lv.a, Str) else 0)
            if not (not is_sym(i) and not is_sym(n) and 0 <= i <= n):
                self.P.oblige('pointer-stays-in-its-object', And(i >= 0, i <= n), 'safety')
        return Ptr(ElemLV(self, a.lv.a, i))

    def ev_assign(self, e):
        # C++11: the right operand is evaluated first by every compiler we care about; no overlap here
        v = self.val(e['b'])
        lv = self.ev(e['a'])
        if v is UNINIT:
            self.P.oblige('no-read-of-uninitialised-variable', False, 'safety')
        lv.set(v)
        return lv

    def ev_cassign(self, e):
        b = self.val(e['b'])
        lv = self.ev(e['a'])
        a = lv.get()
        if a is UNINIT:
            self.P.oblige('no-read-of-uninitialised-variable', False, 'safety')
        lt, ct, t = e['lt'], e['ct'], e['t']
        if isinstance(a, Ptr):
            lv.set(self.ptrop(e['op'], a, b))
            return lv
        if ct.k == 'float':
            if t.k != 'float':
                a = z3.ToReal(self.asint(a)) if is_sym(a) else float(a)
            r = self.fltop(e['op'], a, b, ct)
            if t.k != 'float':
                r = self.flt_to_int(r, t)
            lv.set(r)
            return lv
        a = self.convert_int(a, lt) if lt.k != 'bool' else a
        r = self.intop(e['op'], a, b, ct)
        if t.k == 'bool':
            r = self.truth(r)
        elif t is not ct:
            r = self.convert_int(r, t)
        lv.set(r)
        return lv

    def ev_un(self, e):
        op = e['op']
        if op == '*':
            p = self.val(e['e'])
            if isinstance(p, FnVal):
                return p
            lv = self.deref(p)
            return lv
        if op == '&':
            v = self.ev(e['e'])
            if isinstance(v, FnVal):
                return v
            return Ptr(v)
        if op in ('++', '--'):
            lv = self.ev(e['e'])
            a = lv.get()
            if a is UNINIT:
                self.P.oblige('no-read-of-uninitialised-variable', False, 'safety')
            if isinstance(a, Ptr):
                r = self.ptrop('+' if op == '++' else '-', a, 1)
            elif e['t'].k == 'float':
                r = self.fltop('+' if op == '++' else '-', a, 1.0, e['t'])
            else:
                t = e['t'] if e['t'].k != 'ref' else e['t'].p
                r = (a + 1 if op == '++' else a - 1)
                if t.w < 32:
                    r = self.wrap(r, t)
                else:
                    r = self.arith_result(r, t)
            lv.set(r)
            return a if e.get('post') else lv
        v = self.val(e['e'])
        if v is UNINIT:
            self.P.oblige('no-read-of-uninitialised-variable', False, 'safety')
        if op == '!':
            return Not(self.truth(v))
        if op == '-':
            if e['t'].k == 'float':
                return -v
            return self.arith_result(-self.asint(v), e['t'])
        if op == '+':
            return v
        if op == '~':
            return self.wrap(-self.asint(v) - 1, e['t'])
        raise Unsupported('unary operator ' + op)

    def ev_cond(self, e):
        if self.cond_expr(e['c']):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def cond_expr(self, e):
        return self.P.branch(self.truth(self.val(e)))

    def ev_index(self, e):
        a = self.val(e['a'])
        i = self.asint(self.val(e['b']))
        if isinstance(i, Ptr):
            a, i = i, a
        if not isinstance(a, Ptr):
            raise Unsupported('subscript of %r' % (a,))
        if a.null:
            self.P.oblige('no-null-dereference', False, 'safety')
        if not isinstance(a.lv, ElemLV):
            if not is_sym(i) and i == 0:
                return a.lv
            raise Unsupported('subscript of a pointer to a single object')
        lv = ElemLV(self, a.lv.a, simp(a.lv.i + i))
        n = lv.a.size()
        if not is_sym(lv.i) and not is_sym(n) and 0 <= lv.i < n:
            v = lv.get()
            if isinstance(v, Obj):
                return ObjLV(v)
        return lv


class Fake:
    """name of a class that does not occur in the extracted program"""
    _all = {}

    def __new__(cls, n):
        if n not in cls._all:
            o = super().__new__(cls)
            o.key = n
            o.n = n
            o.r = None
            o.k = 'rec'
            o.a = None
            cls._all[n] = o
        return cls._all[n]


class LoopState:
    def __init__(self, I, site):
        self.I = I
        self.site = site
        self.entry = {}
        self.now = {}
        self.it = 0
        self.locs = []
        self.cond = None

    def obj(self, o):
        """current content of an object known to the contract, if the loop writes it"""
        return self.now.get((o.name, 'elems'))
