"""Contracts on real functions, and the decision procedure built from them.

A contract names real functions of /repo, symbolic inputs with a precondition, how to call the functions, and named
postconditions over the inputs and everything observable afterwards.  The same postcondition text is used
  - as verification condition, on the symbolic state the interpreter computes from the extracted code, and
  - as run-time oracle, on what the compiled real code did (replay of counterexamples, conformance samples).
"""
import hashlib
import json
import math
import multiprocessing
import os
import re
import random
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
import z3
from .core import *
from .sym import *
from .values import *
from . import ast as vast
from .ast import VERIF, REPO, ExtractError, Program
from .interp import Interp
from .lib import Library

UNSET = object()


# ------------------------------------------------------------------ inputs

class In:
    def shrink(self, v):
        return []


class IntIn(In):
    def __init__(self, name, lo, hi, pts=()):
        self.name, self.lo, self.hi, self.pts = name, lo, hi, list(pts)

    def sym(self, P):
        return P.fresh_int(self.name, self.lo, self.hi, exact=True)

    def concrete(self, m, v):
        r = m.eval(v, model_completion=True)
        return r.as_long()

    def sample(self, r):
        k = r.random()
        if self.pts and k < 0.4:
            return r.choice(self.pts)
        if k < 0.55:
            return min(self.hi, max(self.lo, r.choice([self.lo, self.hi, self.lo + 1, self.hi - 1, 0, 1, -1])))
        if k < 0.75 and self.hi - self.lo > 100:
            b = r.randrange(1, (self.hi - self.lo).bit_length() + 1)
            return min(self.hi, max(self.lo, (0 if self.lo <= 0 <= self.hi else self.lo) + r.randrange(1 << b) * r.choice([1, -1])))
        return r.randint(self.lo, self.hi)

    def enc(self, v):
        return str(int(v))

    def shrink(self, v):
        return []


class BoolIn(In):
    def __init__(self, name):
        self.name = name

    def sym(self, P):
        return P.fresh_bool(self.name, exact=True)

    def concrete(self, m, v):
        return z3.is_true(m.eval(v, model_completion=True))

    def sample(self, r):
        return r.random() < 0.5

    def enc(self, v):
        return '1' if v else '0'


def flt_of(x):
    if z3.is_algebraic_value(x):
        x = x.approx(30)
    f = x.as_fraction()
    return float(f.numerator / f.denominator) if abs(f.denominator) < 10 ** 300 else float(f)


class RealIn(In):
    """double; the proof is over the reals"""

    def __init__(self, name, lo, hi, pts=()):
        self.name, self.lo, self.hi, self.pts = name, lo, hi, [float(x) for x in pts]

    def sym(self, P):
        v = P.fresh_real(self.name, exact=True)
        if self.lo is not None:
            P.assume(v >= num(float(self.lo)))
        if self.hi is not None:
            P.assume(v <= num(float(self.hi)))
        return v

    def concrete(self, m, v):
        return flt_of(m.eval(v, model_completion=True))

    def sample(self, r):
        k = r.random()
        if self.pts and k < 0.3:
            return r.choice(self.pts)
        lo = self.lo if self.lo is not None else -1e6
        hi = self.hi if self.hi is not None else 1e6
        if k < 0.4:
            return float(r.choice([lo, hi, (lo + hi) / 2]))
        if k < 0.6:
            return min(hi, max(lo, float(lo + (hi - lo) * r.random() ** 6)))
        return r.uniform(lo, hi)

    def enc(self, v):
        return v.hex() if math.isfinite(v) else str(v)


class StrIn(In):
    """std::string of any length up to maxlen (None: no bound)"""

    def __init__(self, name, maxlen=None, alphabet='ab ', examples=(), minlen=0, smax=12):
        self.name, self.maxlen, self.minlen = name, maxlen, minlen
        self.alphabet = alphabet
        self.examples = list(examples)
        self.smax = smax

    def sym(self, P):
        n = P.fresh_int(self.name + '_len', self.minlen, self.maxlen if self.maxlen is not None else 1 << 40, exact=True)
        P.ex.shrink.append(n)
        return Str([View(z3.Array(self.name, z3.IntSort(), z3.IntSort()), 0, n)])

    def concrete(self, m, v):
        p = v.parts[0]
        n = m.eval(num(p.n), model_completion=True).as_long()
        if n > 5000:
            raise Unsupported('counterexample too long')
        return Str([[m.eval(z3.Select(p.arr, k), model_completion=True).as_long() for k in range(n)]]).norm()

    def sample(self, r):
        k = r.random()
        if self.examples and k < 0.6:
            s = list(r.choice(self.examples))
            if k < 0.4 and s:
                for _ in range(r.randint(0, 2)):
                    o = r.random()
                    i = r.randrange(len(s) + 1)
                    if o < 0.4 and i < len(s):
                        s[i] = r.choice(self.alphabet)
                    elif o < 0.7:
                        s.insert(i, r.choice(self.alphabet))
                    elif i < len(s):
                        del s[i]
                        if not s:
                            break
            s = ''.join(s)
        else:
            s = ''.join(r.choice(self.alphabet) for _ in range(r.randint(0, self.smax)))
        if self.maxlen is not None:
            s = s[:self.maxlen]
        return S(s)

    def enc(self, v):
        return hexs(v)


class FixStrIn(StrIn):
    """std::string of exactly n characters"""

    def __init__(self, name, n, **kw):
        StrIn.__init__(self, name, n, **kw)
        self.n = n

    def sym(self, P):
        return Str([[P.fresh_int('%s_%d' % (self.name, k), -128, 127, exact=True) for k in range(self.n)]])

    def concrete(self, m, v):
        return Str([[m.eval(c, model_completion=True).as_long() for c in v.parts[0]]])

    def sample(self, r):
        s = StrIn.sample(self, r).chars()
        while len(s) < self.n:
            s.append(ord(r.choice(self.alphabet)))
        return Str([s[:self.n]])


class ArrIn(In):
    """array of integers of symbolic length (bytes, samples)"""

    def __init__(self, name, lo, hi, maxlen=None, minlen=0, smax=40, et='unsigned char', pts=()):
        self.name, self.lo, self.hi, self.maxlen, self.minlen, self.smax, self.et = name, lo, hi, maxlen, minlen, smax, et
        self.pts = list(pts)

    def sym(self, P):
        n = P.fresh_int(self.name + '_len', self.minlen, self.maxlen if self.maxlen is not None else 1 << 40, exact=True)
        P.ex.shrink.append(n)
        return Arr(vast._types[self.et], None, z3.Array(self.name, z3.IntSort(), z3.IntSort()), n)

    def concrete(self, m, v):
        n = m.eval(num(v.n), model_completion=True).as_long()
        if n > 5000:
            raise Unsupported('counterexample too long')
        return Arr(v.t, [m.eval(z3.Select(v.arr, k), model_completion=True).as_long() for k in range(n)])

    def sample(self, r):
        n = r.randint(self.minlen, min(self.smax, self.maxlen) if self.maxlen is not None else self.smax)
        e = IntIn('', self.lo, self.hi, self.pts)
        return Arr(vast._types[self.et], [e.sample(r) for _ in range(n)])

    def enc(self, v):
        return '%d %s' % (len(v.items), ' '.join(str(x) for x in v.items))


class FixArrIn(In):
    def __init__(self, name, n, lo, hi, et='unsigned char', pts=()):
        self.name, self.n, self.lo, self.hi, self.et, self.pts = name, n, lo, hi, et, list(pts)

    def sym(self, P):
        return Arr(vast._types[self.et], [P.fresh_int('%s_%d' % (self.name, k), self.lo, self.hi, exact=True) for k in range(self.n)])

    def concrete(self, m, v):
        return Arr(v.t, [m.eval(num(x), model_completion=True).as_long() for x in v.items])

    def sample(self, r):
        e = IntIn('', self.lo, self.hi, self.pts)
        return Arr(vast._types[self.et], [e.sample(r) for _ in range(self.n)])

    def enc(self, v):
        return '%d %s' % (len(v.items), ' '.join(str(x) for x in v.items))


class ChoiceIn(In):
    """one of finitely many concrete values, each proved separately"""

    def __init__(self, name, vals):
        self.name, self.vals = name, list(vals)

    def sym(self, P):
        return self.vals[P.choose(len(self.vals))]

    def concrete(self, m, v):
        return v

    def sample(self, r):
        return r.choice(self.vals)

    def enc(self, v):
        if isinstance(v, Str):
            return hexs(v)
        if isinstance(v, bool):
            return '1' if v else '0'
        if isinstance(v, str):
            return hexs(S(v))
        if isinstance(v, float):
            return v.hex()
        if isinstance(v, (list, tuple)):
            return ' '.join(self.enc(x) for x in v)
        return str(v)


def S(s):
    b = s.encode('latin-1') if isinstance(s, str) else bytes(s)
    return Str([[c - 256 if c > 127 else c for c in b]]).norm()


def hexs(v):
    if isinstance(v, str):
        v = S(v)
    return 'x' + ''.join('%02x' % (c & 255) for c in (v.chars() or []))


def show(v):
    if isinstance(v, Str):
        return v.pystr() if v.pystr() is not None else repr(v)
    if isinstance(v, Arr):
        return v.items
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    return v


# ------------------------------------------------------------------ contracts

class Ctx:
    """what a postcondition may use besides its arguments"""

    def __init__(self, I=None):
        self.I = I
        self.sym = I is not None

    def forall(self, n, f, base=0):
        """for all base <= k < n: f(k)   (only in positive position)"""
        if not self.sym:
            return all(f(k) for k in range(base, n))
        if not is_sym(n) and n - base <= 64:
            return And([f(k) for k in range(base, n)])
        k = self.I.P.fresh_int('any', None, None)
        return Implies(And(k >= base, k < n), f(k))

    def every(self, s, lo, hi, f):
        """f of every character of s from lo up to hi   (a fact: only where it is assumed)"""
        if not self.sym:
            return all(f(s.at(None, k)) for k in range(lo, min(hi, s.length())))
        v = s.parts[0]
        self.I.P.schema(lambda k: z3.Implies(z3.And(k >= num(lo), k < num(hi)), f(z3.Select(v.arr, v.off + k))))
        return True

    def every2(self, s, lo, hi, f):
        """f of the position and character of every character of s from lo up to hi (assumed; symbolic only)"""
        v = s.parts[0]
        self.I.P.schema(lambda k: z3.Implies(z3.And(k >= num(lo), k < num(hi)), f(k, z3.Select(v.arr, v.off + k))))

    def at(self, s, i):
        if isinstance(s, Str):
            return s.at(self.I, i)
        if isinstance(s, Arr):
            if s.items is not None and not is_sym(i):
                return s.items[i]
            if s.items is not None:
                r = s.items[-1]
                for k in range(len(s.items) - 2, -1, -1):
                    r = If(i == k, s.items[k], r)
                return r
            return self.I.select(s, i)
        return s[i]

    def len(self, s):
        return s.length() if isinstance(s, Str) else s.size() if isinstance(s, Arr) else len(s)

    def streq(self, a, b):
        if isinstance(a, str):
            a = S(a)
        if isinstance(b, str):
            b = S(b)
        return str_eq(self.I, a, b)


class Contract:
    def __init__(self, name, sources, ins, run, post, pre=None, op=None, outs=(), sample=None, cut_after=None, loop_invs=(), summaries=None,
                 driver=None, deadline=240, opts=None, enc=None, max_unroll=300, nsamples=None, bounded=None, max_paths=20000, parse=None, text='',
                 tol=1e-9, assume=(), functions=(), diff=True, ob_timeout=20000, proof=True, stop_early=False, ndiff=60, hard=120):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def encode(self, inp):
        if self.enc:
            return self.op + ' ' + self.enc(inp)
        return ' '.join([self.op] + [i.enc(inp[i.name]) for i in self.ins])

    def decode(self, line):
        """one line of driver output to an out dict"""
        tok = line.split(' ')
        if tok[0] == 'exc':
            return {'exc': norm_exc(tok[1] if len(tok) > 1 else '')}
        if self.parse:
            o = self.parse(tok)
            o.setdefault('exc', None)
            return o
        out = {'exc': None}
        i = 0
        for n, k in self.outs:
            if k in ('int', 'bool', 'flt', 'str'):
                out[n] = dec1(tok[i], k)
                i += 1
            elif k in ('ints', 'flts'):
                c = int(tok[i])
                out[n] = [dec1(x, k[:-1]) for x in tok[i + 1:i + 1 + c]]
                i += 1 + c
            elif k == 'strs':
                c = int(tok[i])
                out[n] = [dec1(x, 'str') for x in tok[i + 1:i + 1 + c]]
                i += 1 + c
        return out

    def draw(self, r):
        for _ in range(200):
            if self.sample:
                inp = self.sample(r)
                for i in self.ins:
                    if i.name not in inp:
                        inp[i.name] = i.sample(r)
            else:
                inp = {i.name: i.sample(r) for i in self.ins}
            if self.pre is None or self.pre(Ctx(), inp):
                return inp
        return None


def dec1(x, k):
    if k == 'int':
        return int(x)
    if k == 'bool':
        return x == '1'
    if k == 'flt':
        return float.fromhex(x) if x not in ('nan', '-nan') else math.nan
    b = bytes.fromhex(x[1:])
    return S(b)


def norm_exc(n):
    import re
    n = n.replace('_', ' ') if False else n
    while True:
        m = re.match(r'^boost::(?:wrapexcept|exception_detail::clone_impl|exception_detail::error_info_injector)<(.*)>$', n.strip())
        if not m:
            return n.strip()
        n = m.group(1)


def exc_name(v):
    if isinstance(v, (Exc, StructObj)):
        return v.t.key
    return 'other'


def any_text(I, f, t, a):
    """the text of a message: some string or other"""
    return Str([View(z3.Array(I.P.fresh('message'), z3.IntSort(), z3.IntSort()), 0, I.P.fresh_int('message_len', 0, 1 << 40))])


MESSAGES = {'dcp::String::compose': any_text}


# ------------------------------------------------------------------ the proof

PROOF_S = 480        # for all contracts of a property; those not proved by then are looked at by samples


class ProofResult:
    pass


def prove(c, prog, lib):
    """all obligations of one contract"""
    st = Stats()
    ex = Explorer(st, deadline_s=c.deadline, prefix_name=c.name + '.', max_paths=c.max_paths, ob_timeout=c.ob_timeout, hard_timeout=c.hard)
    ex.stop_early = c.stop_early
    ex.shrink = []
    ex.cex = []
    reached = [0]

    def path(P):
        del ex.shrink[:]
        I = Interp(prog, P, lib, c.summaries)
        I.cut_after = c.cut_after
        I.loop_invs = list(c.loop_invs)
        I.max_unroll = c.max_unroll
        I.opts.update(c.opts or {})
        inp = {i.name: i.sym(P) for i in c.ins}
        P.inputs = inp
        C = Ctx(I)
        if c.pre:
            P.assume(c.pre(C, inp))
        try:
            out = c.run(I, inp)
            out.setdefault('exc', None)
        except CppThrow as e:
            out = {'exc': exc_name(e.val)}
        reached[0] += 1
        for nm, cond in c.post(C, inp, out):
            P.oblige(nm, cond() if callable(cond) else cond, 'post')

    ex.on_fail = lambda P, nm, kind, m: note_failure(c, ex, P, nm, kind, m)
    r = ProofResult()
    r.name = c.name
    r.error = None
    t = time.time()
    try:
        ex.explore(path)
        if st.failed:
            r.status = 'failed'
        elif st.unknown:
            r.status = 'unknown'
            r.error = 'solver gave up on %s' % st.unknown[0][0]
        elif reached[0] == 0 or st.obligations == 0:
            r.status = 'unknown'
            r.error = 'precondition unreachable or no obligations (vacuous)'
        else:
            r.status = 'proved'
    except (Unsupported, ExtractError, z3.Z3Exception, RecursionError) as e:
        r.status = 'unsupported' if not st.failed else 'failed'
        r.error = str(e)
    except Exception as e:
        r.status = 'unsupported' if not st.failed else 'failed'
        r.error = 'interpreter: %s %s' % (type(e).__name__, traceback.format_exc()[-1500:])
    r.wall = time.time() - t
    r.obligations = st.obligations
    r.discharged = st.discharged
    r.by = st.by
    r.solver_s = st.solver_s
    r.paths = st.paths
    r.names = st.names
    r.functions = st.functions
    r.assumed = sorted(st.assumed)
    r.cut = bool(ex.loop_writes)
    r.failed = [(f[0], f[1], f[4]) for f in st.failed]
    r.cex = ex.cex
    return r


def note_failure(c, ex, P, nm, kind, m):
    if len(ex.cex) > 30:
        return
    try:
        inp = {i.name: i.concrete(m, P.inputs[i.name]) for i in c.ins} if m is not None else \
              {i.name: i.concrete(z3_empty(), P.inputs[i.name]) for i in c.ins}
        ex.cex.append((nm, kind, P.where, inp, str(m)[:4000]))
    except Unsupported as e:
        ex.cex.append((nm, kind, P.where, None, str(m)[:4000]))


def z3_empty():
    s = z3.Solver()
    s.check()
    return s.model()


def run_concrete(c, prog, lib, inp):
    """the interpreter on concrete inputs: every outcome (more than one when the environment, e.g. the clock, is unknown)"""
    st = Stats()
    ex = Explorer(st, deadline_s=20)
    ex.shrink = []
    ex.cex = []
    res = []

    def path(P):
        if len(res) > 40:
            raise Unsupported('too many paths on concrete input')
        I = Interp(prog, P, lib, c.summaries)
        I.max_unroll = 1 << 30
        I.opts.update(c.opts or {})
        try:
            out = c.run(I, {k: (v.copy(I) if isinstance(v, Obj) else v) for k, v in inp.items()})
            out.setdefault('exc', None)
        except CppThrow as e:
            out = {'exc': exc_name(e.val)}
        res.append(out)
    ex.explore(path)
    if st.failed:
        return [{'crash': st.failed[0][0]}]
    return res or [{'crash': 'infeasible'}]


def same_out(a, b, tol):
    if a.get('exc') or b.get('exc'):
        return (a.get('exc') is None) == (b.get('exc') is None)
    for k in b:
        if k in a and not same_val(a[k], b[k], tol):
            return False
    return True


def same_val(x, y, tol):
    if isinstance(x, Str) or isinstance(y, Str):
        return isinstance(x, Str) and isinstance(y, Str) and x.chars() is not None and [c & 255 for c in x.chars()] == [c & 255 for c in y.chars()]
    if isinstance(x, Arr):
        x = x.items
    if isinstance(y, Arr):
        y = y.items
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same_val(p, q, tol) for p, q in zip(x, y))
    if is_sym(x) or is_sym(y):
        return True
    if isinstance(x, float) or isinstance(y, float):
        if x != x or y != y:
            return x != x and y != y
        return x == y or abs(x - y) <= tol * max(1.0, abs(x), abs(y))
    return x == y


# ------------------------------------------------------------------ the real code

SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function,nonnull-attribute']


class Driver:
    """the real functions compiled from /repo's working tree with sanitizers, behind a line protocol"""

    def __init__(self, name, sources, libs=(), extra_flags=(), sanitize=True, partial=False):
        self.partial = partial      # of sources which refer to others: what those define stops the driver when it is reached
        self.name, self.sources, self.libs, self.extra = name, list(sources), list(libs), list(extra_flags)
        self.san = ['-fsanitize=thread'] if sanitize == 'thread' else SAN if sanitize else []
        self.tag = '-thread' if sanitize == 'thread' else ''
        self.exe = None
        self.proc_runs = 0

    def build(self):
        d = VERIF + '/build/drv-' + self.name + self.tag
        os.makedirs(d, exist_ok=True)
        fl = [x for x in vast.flags() if x != '-w'] + ['-w', '-g1', '-O1', '-I' + VERIF + '/drivers', '-fno-omit-frame-pointer'] + self.san + self.extra

        def comp(src):
            path = '%s/src/%s' % (REPO, src) if not src.startswith('/') else src
            pre = subprocess.run(['clang++'] + fl + ['-E', '-P', path], capture_output=True)
            if pre.returncode:
                raise ExtractError('cannot compile %s: %s' % (src, pre.stderr.decode()[-2000:]))
            h = hashlib.sha1(pre.stdout + repr(fl).encode()).hexdigest()[:20]
            o = '%s/%s-%s.o' % (d, os.path.basename(src), h)
            if not os.path.exists(o):
                tmp = '%s.%d.tmp' % (o, os.getpid())
                r = subprocess.run(['clang++'] + fl + ['-c', path, '-o', tmp], capture_output=True, text=True)
                if r.returncode:
                    raise ExtractError('cannot compile %s: %s' % (src, r.stderr[-2000:]))
                os.rename(tmp, o)
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, [VERIF + '/drivers/%s.cc' % self.name] + self.sources))
        h = hashlib.sha1(repr((objs, self.libs)).encode()).hexdigest()[:20]
        exe = '%s/run-%s' % (d, h)
        if not os.path.exists(exe):
            tmp = '%s.%d.tmp' % (exe, os.getpid())
            link = ['clang++'] + self.san + objs + ['-o', tmp, '-Wl,--no-demangle'] + self.libs
            r = subprocess.run(link, capture_output=True, text=True)
            if r.returncode and self.partial:
                missing = sorted(set(re.findall(r"undefined reference to [`']([^'`]+)'", r.stderr)))
                stops = '%s.%d.s' % (exe, os.getpid())
                with open(stops, 'w') as f:
                    f.write('.section .missing,"awx",@progbits\n' + ''.join('.globl %s\n%s: ud2\n.zero 254\n' % (m, m) for m in missing) + '.section .note.GNU-stack,"",@progbits\n')
                r = subprocess.run(link + [stops], capture_output=True, text=True)
                os.remove(stops)
            if r.returncode:
                raise ExtractError('cannot link driver %s: %s' % (self.name, r.stderr[-2000:]))
            os.rename(tmp, exe)
        self.exe = exe
        r = subprocess.run([exe], input='ping\n', capture_output=True, text=True)
        if r.stdout != '=pong\n':
            raise ExtractError('driver %s does not start: %s' % (self.name, r.stderr[-500:]))

    def run(self, lines, timeout=60):
        """outputs for each line; ('crash', text) when the process died on it"""
        if self.exe is None:
            self.build()
        out = []
        i = 0
        hung = 0
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1', TZ='UTC', LC_ALL='C')
        while i < len(lines):
            self.proc_runs += 1
            try:
                p = subprocess.run([self.exe], input='\n'.join(lines[i:]) + '\n', capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
                got = p.stdout.split('\n')
                err, code = p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                got = (e.stdout or b'').decode(errors='replace').split('\n')
                err, code = 'timeout', -1
                hung += 1
            got = [g[1:] for g in got[:-1] if g.startswith('=')]
            out += got
            i += len(got)
            if i < len(lines):
                out.append(('crash', 'exit %s: %s' % (code, first_error(err))))
                i += 1
                if hung:
                    timeout = 10
                if hung > 3:
                    break
        return out[:len(lines)]


def first_error(err):
    ls = [l for l in err.split('\n') if 'rror' in l or 'timeout' in l or 'ABORT' in l]
    return (ls[0] if ls else err[:300]).strip()[:400]


def check_concrete(c, inp, res):
    """names of the postconditions the real code breaks on this input"""
    if isinstance(res, tuple):
        return ['no-crash: ' + res[1]], None
    out = c.decode(res)
    bad = []
    C = Ctx()
    for nm, cond in c.post(C, inp, out):
        v = cond() if callable(cond) else cond
        if not v:
            bad.append(nm)
    return bad, out


# ------------------------------------------------------------------ one property

class Spec:
    """contracts deciding one property"""

    def __init__(self, pid, contracts, drivers, assumptions=(), lemmas=(), direct=None):
        self.pid, self.contracts, self.drivers, self.assumptions, self.lemmas, self.direct = pid, contracts, drivers, list(assumptions), list(lemmas), direct


def _worker(args):
    import importlib
    mod, idx = args
    spec = importlib.import_module(mod).SPEC
    c = spec.contracts[idx]
    return prove(c, _PROG, _LIB)


_PROG = None
_LIB = None


def load_known(pid):
    path = VERIF + '/known-findings.txt'
    out = []
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('known: property=%s ' % pid):
                out.append(json.loads(l[len('known: property=%s ' % pid):]))
    return out


def is_known(known, c, inp, bad):
    for k in known:
        if k['contract'] != c.name:
            continue
        if all(show(inp.get(n)) == v for n, v in k.get('input', {}).items()) and all(any(b.startswith(o) for o in k['obligations']) for b in bad):
            return k
    return None


def check(modname):
    """decide one property; returns the exit code"""
    import importlib
    global _PROG, _LIB
    t0 = time.time()
    mod = importlib.import_module(modname)
    spec = mod.SPEC
    pid = spec.pid
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = os.environ.get('VERIF_VERBOSE')
    evdir = VERIF + '/evidence'
    os.makedirs(evdir, exist_ok=True)
    known = load_known(pid)
    notes = []
    lemmas = []
    for nm, f in spec.lemmas:
        lemmas.append('%s: %s cases' % (nm, f()))
    # extraction
    srcs = []
    for c in spec.contracts:
        for s in c.sources:
            if s not in srcs:
                srcs.append(s)
    extract_error = None
    try:
        _PROG = Program(srcs).finish()
    except ExtractError as e:
        extract_error = str(e)
        notes.append('extraction failed: ' + extract_error[:500])
    _LIB = Library()
    # build the drivers while proving
    pool = ThreadPoolExecutor(4)
    builds = {n: pool.submit(d.build) for n, d in spec.drivers.items()}
    results = {}
    if extract_error is None:
        todo = [i for i, c in enumerate(spec.contracts) if c.proof]
        # fork before z3 is used in this process
        with multiprocessing.get_context('fork').Pool(min(6, max(1, len(todo)))) as mp:
            asy = {i: mp.apply_async(_worker, ((modname, i),)) for i in todo}
            end = time.time() + PROOF_S
            for i, a in asy.items():
                c = spec.contracts[i]
                try:
                    results[c.name] = a.get(timeout=max(0.1, min(c.deadline + 300, end - time.time())))
                except Exception as e:
                    notes.append('%s: %s' % (c.name, str(e)[:300]))
            mp.terminate()
    violations = []
    findings = []
    evaluations = 0
    distinct = set()
    samples = []
    mismatches = []
    broken_driver = []
    for n, b in builds.items():
        try:
            b.result()
        except ExtractError as e:
            broken_driver.append(n)
            notes.append('driver %s: %s' % (n, str(e)[:600]))
    bounded = []
    proved = []
    for c in spec.contracts:
        r = results.get(c.name)
        drv = spec.drivers.get(c.driver) if c.driver not in broken_driver else None
        status = r.status if r else 'unsupported'
        tried = []
        confirmed = False
        # 1. counterexamples of failed obligations, replayed on the real code
        if r and r.cex and drv:
            todo = [x for x in r.cex if x[3] is not None]
            outs = drv.run([c.encode(x[3]) for x in todo])
            for (nm, kind, where, inp, m), res in zip(todo, outs):
                if c.pre is not None and not c.pre(Ctx(), inp):
                    tried.append((nm, 'precondition does not hold after rounding'))
                    continue
                bad, out = check_concrete(c, inp, res)
                evaluations += 1
                if bad:
                    k = is_known(known, c, inp, bad)
                    if k:
                        findings.append(k)
                        continue
                    confirmed = True
                    violations.append(dict(contract=c.name, obligation=nm, where=where, input=show(inp), command=c.encode(inp), real=str(res), broken=bad, model=m))
                    break
                tried.append((nm, 'replay on the real code satisfies the contract'))
        # 2. conformance samples on the real code; larger when the proof did not go through
        n = c.nsamples or (400 if tier == 'quick' else 4000)
        if status != 'proved':
            n = (c.bounded or 6000) * (1 if tier == 'quick' else 10)
        if violations and time.time() - t0 > 240:
            n = min(n, 20)
        rng = random.Random('%s-%s-%d' % (pid, c.name, seed))
        drawn = []
        if drv and not confirmed:
            seen = set()
            for _ in range(n):
                inp = c.draw(rng)
                if inp is None:
                    continue
                line = c.encode(inp)
                if line in seen:
                    continue
                seen.add(line)
                drawn.append((inp, line))
            outs = drv.run([l for _, l in drawn], timeout=120)
            evaluations += len(outs)
            for (inp, line), res in zip(drawn, outs):
                distinct.add(hash((c.name, line)))
                bad, out = check_concrete(c, inp, res)
                if bad:
                    k = is_known(known, c, inp, bad)
                    if k:
                        if k not in findings:
                            findings.append(k)
                        continue
                    confirmed = True
                    violations.append(dict(contract=c.name, obligation=bad[0], where='(conformance sample)', input=show(inp), command=line, real=str(res), broken=bad, model=''))
                    break
            if drawn:
                samples.append({'contract': c.name, 'input': show(drawn[0][0]), 'real': str(outs[0])[:200]})
            # 3. the interpreter against the real code, on the same samples: validates the library models
            if extract_error is None and c.diff and not confirmed and status in ('proved', 'failed', 'unknown'):
                nd = c.ndiff * (1 if tier == 'quick' else 10)
                for (inp, line), res in list(zip(drawn, outs))[:nd]:
                    try:
                        if isinstance(res, tuple):
                            continue
                        eng = run_concrete(c, _PROG, _LIB, inp)
                        real = c.decode(res)
                        if not any('crash' not in e and same_out(e, real, c.tol) for e in eng):
                            mismatches.append('%s on %s: interpreter %s, real code %s' % (c.name, show(inp), show(eng), show(real)))
                            status = 'mismatch'
                            break
                    except Exception as e:
                        mismatches.append('%s on %s: %s: %s' % (c.name, show(inp), type(e).__name__, str(e)[:300]))
                        if not isinstance(e, (Unsupported, z3.Z3Exception)) or True:
                            status = 'mismatch'
                        break
        if status == 'proved':
            proved.append(c.name)
            continue
        if confirmed:
            continue
        # not proved and nothing found
        reason = (r.error if r else None) or (extract_error or '')
        if status == 'failed':
            un = [x for x in r.cex if x[3] is None or (x[1] == 'safety' and 'uninitialised' in x[0])]
            if un and not r.cut and not any(k['contract'] == c.name for k in findings):
                nm, kind, where, inp, m = un[0]
                violations.append(dict(contract=c.name, obligation=nm, where=where, input=show(inp) if inp else None, command=None, real=None, broken=[nm], model=m, nfif=True))
                continue
            reason = 'obligation %s (%s) not discharged, but its counterexample is not one of the real code' % (r.failed[0][0], r.failed[0][1])
        if status == 'mismatch':
            reason = 'library model and real code disagree: ' + mismatches[-1][:400]
        if drv is None:
            print('%s: contract %s could not be decided: %s; driver unavailable' % (pid, c.name, reason), file=sys.stderr)
            for x in notes:
                print('  ' + x, file=sys.stderr)
            return 2
        bounded.append({'contract': c.name, 'why': reason[:600], 'bound': '%d inputs drawn at random (seed %d) on the real code' % (len(drawn), seed)})
    wall = time.time() - t0
    obligations = sum(r.obligations for r in results.values())
    discharged = sum(r.discharged for r in results.values())
    back = {}
    for r in results.values():
        for k, v in r.by.items():
            back[k] = back.get(k, 0) + v
    functions = {}
    assumed = set()
    for r in results.values():
        functions.update(r.functions)
        assumed.update(r.assumed)
    unproved_ok = [c.name for c in spec.contracts if not c.proof]
    level = 'proof' if not bounded or proved else 'exploration'
    if not proved:
        level = 'exploration'
    if bounded and set(b['contract'] for b in bounded) - set(unproved_ok):
        level = 'exploration'
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': 'python3-vt /verif/check.py %s' % pid,
            'trusted_base': ['clang front end and /verif/tool/astx.cpp (extraction)', '/verif/vc (VC generation, interpretation of the C++ subset)', 'z3 %s' % z3.get_version_string(), 'cvc5 (only obligations listed under it)'] +
                            ['library contract: ' + x for x in sorted(assumed)],
            'contracts_proved': proved,
            'bounded_stand_ins': bounded,
            'obligations_by_back_end': back,
            'obligations_by_name': {k: v for r in results.values() for k, v in r.names.items()},
            'solver_s': round(sum(r.solver_s for r in results.values()), 2),
            'paths': sum(r.paths for r in results.values()),
            'functions_under_contract': functions,
            'evaluations': evaluations, 'distinct_nontrivial': len(distinct),
            'rule': 'inputs satisfying the precondition, drawn from boundary values and at random; the postcondition is evaluated on what the compiled real code returned',
            'samples': samples[:6],
            'lemmas': lemmas,
            'model_mismatches': mismatches[:3],
        },
        'assumptions': spec.assumptions + ([] if not notes else ['note: ' + x for x in notes]),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    with open('%s/%s.json' % (evdir, pid), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if verbose:
        for r in results.values():
            print('  %-40s %-10s %4d/%4d obl %4d paths %.1fs solver %.1fs %s' % (r.name, r.status, r.discharged, r.obligations, r.paths, r.wall, r.solver_s, (r.error or '')[:1500]))
            if r.status == 'failed':
                for f in r.failed[:5]:
                    print('      failed:', f)
                for x in r.cex[:3]:
                    print('      cex:', x[0], x[2], show(x[3]) if x[3] else None)
        for m in mismatches:
            print('  mismatch:', m[:1500])
        for b in bounded:
            print('  bounded:', b)
        for x in notes:
            print('  note:', x)
    if violations:
        for i, v in enumerate(violations):
            path = '%s/%s.replay%s.json' % (evdir, pid, '' if i == 0 else '-%d' % i)
            v['property'] = pid
            v['how_to_replay'] = 'echo %r | %s' % (v['command'], spec.drivers[next(c.driver for c in spec.contracts if c.name == v['contract'])].exe) if v.get('command') else 'obligation only'
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('obligation %s (%s) fails: input %s gives %s, which breaks %s' % (v['obligation'], v['where'], str(v['input'])[:400], str(v['real'])[:300], ', '.join(v['broken'])[:400]))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, ' no-failing-input-found' if v.get('nfif') else ''))
        return 1
    print('%s holds: %d/%d obligations discharged, %d contracts proved, %d bounded, %.1f s' % (pid, discharged, obligations, len(proved), len(bounded), wall))
    return 0
