"""Paths, obligations and values of the symbolic interpreter."""
import math
import time
import z3
from fractions import Fraction
from .sym import *
from . import ring, linear


class Unsupported(Exception):
    """The code uses something the verifier does not model: no verdict from the proof."""


class Infeasible(Exception):
    """The current path cannot happen (or has been cut at a loop head)."""


class Restart(Exception):
    """A loop wrote something outside its havoc set: start the exploration again with the larger set."""


class LoopFailed(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, val):
        self.val = val


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Uninit:
    def __repr__(self):
        return '<uninitialised>'


UNINIT = Uninit()
NPOS = (1 << 64) - 1


def has_quantifier(c, _seen=None):
    if not is_sym(c):
        return False
    todo = [c]
    seen = set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            if not x.is_lambda():
                return True
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.num_args():
            i = x.get_id()
            if i not in seen:
                seen.add(i)
                todo += x.children()
    return False


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.by = {}
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.failed = []      # (name, line info, model, path)
        self.unknown = []
        self.names = {}
        self.functions = {}
        self.assumed = {}
        self.vacuous = False


class Path:
    """One execution path: the prefix of decisions, the path condition, fresh names"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.feas_timeout)
        self.counter = 0
        self.ranges = {}
        self.bcache = {}
        self.selects = {}
        self.where = ''
        self.notes = []
        self.inputs = None
        self.qsolver = None   # as solver, with the quantified facts too
        self.ring = None      # a Ring if equalities are to be tried by polynomial normal forms first
        self.linear = None    # a Linear if products of unknowns are to be left uninterpreted
        self.schemas = []     # quantified facts which are also instantiated at the terms below
        self.terms = []
        self.refine = []      # facts only used when looking for a counterexample

    # -- names
    def fresh(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def fresh_int(self, base, lo=None, hi=None, exact=False):
        n = base if exact else self.fresh(base)
        v = z3.Int(n)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        self.ranges[n] = (lo, hi)
        return v

    def fresh_real(self, base, exact=False):
        return z3.Real(base if exact else self.fresh(base))

    def fresh_bool(self, base, exact=False):
        return z3.Bool(base if exact else self.fresh(base))

    # -- facts
    def use_ring(self):
        self.ring = ring.Ring()
        for c in self.pc:
            self.ring.learn(z3.simplify(c))
            self.ring.learn(c)

    def use_linear(self):
        self.linear = linear.Linear()
        self.solver.reset()
        for c in self.pc:
            self.solver.add(self.given(c))

    def given(self, c):
        """c as the solver is to see it"""
        if self.linear is None:
            return c
        c = self.linear(c)
        for f in self.linear.facts():
            self.solver.add(f)
        return c

    def assume(self, c):
        if not is_sym(c):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)
        if self.ring is not None:
            self.ring.learn(c)
        if has_quantifier(c):
            # kept apart: whether a path is feasible is decided without quantified facts (an infeasible path explored
            # costs time only), obligations are decided with them
            if self.qsolver is None:
                self.qsolver = z3.Solver()
                self.qsolver.set('timeout', self.ex.feas_timeout)
                self.qsolver.add(*self.pc[:-1])
            self.qsolver.add(c)
            return
        self.solver.add(self.given(c))
        if self.qsolver is not None:
            self.qsolver.add(c)

    def schema(self, f):
        """f(k) holds for every k: known to the feasibility solver at the terms of interest"""
        k = z3.Int(self.fresh('k'))
        self.assume(z3.ForAll([k], f(k)))
        self.schemas.append(f)
        for t in self.terms:
            self.assume(z3.simplify(f(t)))

    def term(self, t):
        if is_sym(t) and not any(t.eq(x) for x in self.terms):
            self.terms.append(t)
            for f in self.schemas:
                self.assume(z3.simplify(f(t)))

    def _check(self, c, timeout=None):
        st = self.ex.stats
        t = time.time()
        c = self.given(c)
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        st.solver_s += time.time() - t
        st.queries += 1
        return r, m

    def set_timeout(self, ms):
        self.solver.set('timeout', ms)
        if self.qsolver is not None:
            self.qsolver.set('timeout', ms)

    def _decide(self, c):
        """as _check, with every fact there is"""
        r, m = self._check(c) if self.qsolver is None or not has_quantifier(c) else (z3.unknown, None)
        if r == z3.unsat or self.qsolver is None:
            return r, m
        t = time.time()
        s = self.qsolver
        s.push()
        s.add(c)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        self.ex.stats.solver_s += time.time() - t
        return r, m

    def branch(self, c, hint=None):
        if not is_sym(c):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d in ('T', 'F'):        # forced, implied by the path condition
                self.decisions.append(d)
                return d == 'T'
            self.decisions.append(d)
            self.assume(c if d else z3.Not(c))
            return d
        if time.time() > self.ex.deadline:
            raise Unsupported('time budget for this contract exhausted')
        if self.ring is not None:
            r = self.ring.decide(c)
            if r is not None:
                self.decisions.append('T' if r else 'F')
                return r
        r1, _ = self._check(c)
        if r1 == z3.unsat:
            self.decisions.append('F')
            return False
        r2, _ = self._check(z3.Not(c))
        if r2 == z3.unsat:
            self.decisions.append('T')
            return True
        self.ex.stack.append(self.decisions + [False])
        self.decisions.append(True)
        self.assume(c)
        return True

    def choose(self, n):
        """n-way split with no condition of its own"""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.ex.stack.append(self.decisions + [('c', k)])
        self.decisions.append(('c', 0))
        return 0

    def feasible(self):
        r = self.solver.check()
        return r != z3.unsat

    def valid(self, c):
        """is c implied by the path condition (quick)"""
        if not is_sym(c):
            return bool(c)
        r, _ = self._decide(z3.Not(c))
        return r == z3.unsat

    def concretise(self, x, limit=300):
        """fork over the feasible values of an integer term"""
        if not is_sym(x):
            return x
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        for _ in range(limit):
            i = len(self.decisions)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.decisions.append(d)
                if d[0] == 'v':
                    self.assume(x == d[1])
                    return d[1]
                assert d[0] == 'nv'
                self.assume(x != d[1])
                continue
            r = self.solver.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise Unsupported('cannot enumerate the values of a term')
            v = self.solver.model().eval(x, model_completion=True).as_long()
            self.solver.push()
            self.solver.add(x != v)
            r = self.solver.check()
            self.solver.pop()
            if r != z3.unsat:
                self.ex.stack.append(self.decisions + [('nv', v)])
            self.decisions.append(('v', v))
            self.assume(x == v)
            return v
        raise Unsupported('term has too many values to enumerate')

    # -- obligations
    def oblige(self, name, c, kind='post'):
        st = self.ex.stats
        st.obligations += 1
        nm = self.ex.prefix_name + name
        rec = st.names.setdefault(nm, [0, 0])
        rec[0] += 1
        if not is_sym(c):
            if c:
                st.discharged += 1
                rec[1] += 1
                st.by['evaluation'] = st.by.get('evaluation', 0) + 1
                return True
            # fails on every execution of this path: a model of the path condition is a counterexample
            r = self._decide(z3.BoolVal(True))[0] if self.pc else z3.sat
            if r == z3.unsat:
                st.discharged += 1
                rec[1] += 1
                st.by['z3'] = st.by.get('z3', 0) + 1
                raise Infeasible()
            if r == z3.unknown:
                m = self.ex.hard(self.pc, nm)
                if m == 'unsat':
                    st.discharged += 1
                    rec[1] += 1
                    raise Infeasible()
                if m is None:
                    st.unknown.append((nm, self.where))
                    raise Infeasible()
                self.fail(nm, kind, m)
                raise Infeasible()
            self.fail(nm, kind, self.small_model([]) if self.pc else None)
            raise Infeasible()
        s = z3.simplify(c)
        if z3.is_true(s):
            st.discharged += 1
            rec[1] += 1
            st.by['simplifier'] = st.by.get('simplifier', 0) + 1
            return True
        if self.ring is not None and self.ring.decide(c):
            st.discharged += 1
            rec[1] += 1
            st.by['polynomial normal form'] = st.by.get('polynomial normal form', 0) + 1
            return True
        if z3.is_and(s) and s.num_args() > 1:
            # a conjunction: one query per conjunct
            c = None
            for x in s.children():
                self.set_timeout(self.ex.ob_timeout)
                r, m = self._decide(z3.Not(x))
                if r != z3.unsat:
                    c = x
                    break
            if c is None:
                self.set_timeout(self.ex.feas_timeout)
                st.discharged += 1
                rec[1] += 1
                st.by['z3'] = st.by.get('z3', 0) + 1
                return True
            if r == z3.unknown:
                c = s
        else:
            self.set_timeout(self.ex.ob_timeout)
            r, m = self._decide(z3.Not(c))
        self.set_timeout(self.ex.feas_timeout)
        by = 'z3'
        if r == z3.unknown:
            m = self.ex.hard(self.pc + [z3.Not(c)], nm)
            if m == 'unsat':
                r = z3.unsat
                by = self.ex.last_back_end
            elif m is None:
                st.unknown.append((nm, self.where))
                if self.ex.stop_early:
                    raise Unsupported('solver gave up on %s' % nm)
                self.assume(c)
                return False
            else:
                r = z3.sat
        if r == z3.unsat:
            st.discharged += 1
            rec[1] += 1
            st.by[by] = st.by.get(by, 0) + 1
            return True
        self.fail(nm, kind, self.small_model([z3.Not(c)]) or m)
        self.assume(c)
        if not self.feasible():
            raise Infeasible()
        return False

    def fail(self, nm, kind, m):
        self.ex.stats.failed.append((nm, self.where, m, list(self.decisions), kind))
        if self.ex.on_fail:
            self.ex.on_fail(self, nm, kind, m)
        if self.ex.stop_early:
            raise Unsupported('%s fails' % nm)

    def small_model(self, extra):
        """a model of the path condition with short inputs"""
        s = self.qsolver or self.solver
        if self.refine:
            t = z3.Solver()
            t.set('timeout', 15000)
            t.add(*(self.pc + extra + self.refine))
            if t.check() == z3.sat:
                return t.model()
        for k in ([0, 1, 2, 3, 4, 8, 16, 32, 64, 256, 4000] if self.ex.shrink else []) + [None]:
            s.push()
            for e in extra:
                s.add(e)
            if k is not None:
                for n in self.ex.shrink:
                    s.add(n <= k)
            m = s.model() if s.check() == z3.sat else None
            s.pop()
            if m is not None:
                return m
        return None

    # -- interval estimate of an integer term (None = unbounded)
    def bounds(self, e):
        if not is_sym(e):
            return (e, e)
        i = e.get_id()
        c = self.bcache.get(i)
        if c is not None:
            return c[0]
        b = self._bounds(e)
        self.bcache[i] = (b, e)
        return b

    def _bounds(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return (v, v)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return self.ranges.get(e.decl().name(), (None, None))
            return self.ranges.get('@' + e.decl().name(), (None, None))
        if k == z3.Z3_OP_SELECT:
            return self.ranges.get('@select', (None, None)) if False else self.selects.get(e.get_id(), (None, None))
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for x in ch:
                a, b = self.bounds(x)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            lo, hi = self.bounds(ch[0])
            for x in ch[1:]:
                a, b = self.bounds(x)
                lo = None if lo is None or b is None else lo - b
                hi = None if hi is None or a is None else hi - a
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            a, b = self.bounds(ch[0])
            return (None if b is None else -b, None if a is None else -a)
        if k == z3.Z3_OP_MUL:
            lo, hi = self.bounds(ch[0])
            for x in ch[1:]:
                a, b = self.bounds(x)
                if None in (lo, hi, a, b):
                    # both known non-negative below
                    if lo is not None and a is not None and lo >= 0 and a >= 0:
                        lo, hi = lo * a, None
                        continue
                    return (None, None)
                ps = (lo * a, lo * b, hi * a, hi * b)
                lo, hi = min(ps), max(ps)
            return (lo, hi)
        if k == z3.Z3_OP_IDIV:
            a, b = self.bounds(ch[0])
            if z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
                d = ch[1].as_long()
                return (None if a is None else a // d, None if b is None else b // d)
            if a is not None and a >= 0:
                return (0, b)
            return (None, None)
        if k == z3.Z3_OP_MOD:
            if z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
                a, b = self.bounds(ch[0])
                d = ch[1].as_long()
                if a is not None and b is not None and a >= 0 and b < d:
                    return (a, b)
                return (0, d - 1)
            return (None, None)
        if k == z3.Z3_OP_ITE:
            a, b = self.bounds(ch[1])
            c, d = self.bounds(ch[2])
            return (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
        return (None, None)

    def within(self, e, lo, hi):
        a, b = self.bounds(e)
        return a is not None and b is not None and a >= lo and b <= hi


class Explorer:
    """Depth-first enumeration of the paths of one contract"""

    def __init__(self, stats=None, feas_timeout=3000, ob_timeout=20000, hard_timeout=120, max_paths=20000, deadline_s=300, prefix_name=''):
        self.stats = stats or Stats()
        self.feas_timeout = feas_timeout
        self.ob_timeout = ob_timeout
        self.hard_timeout = hard_timeout
        self.max_paths = max_paths
        self.deadline_s = deadline_s
        self.deadline = time.time() + deadline_s
        self.prefix_name = prefix_name
        self.loop_writes = {}
        self.loop_drop = {}
        self.last_back_end = ''
        self.stack = []
        self.shrink = []
        self.cex = []
        self.on_fail = None
        self.stop_early = False

    def hard(self, fs, nm, limit=None):
        """second opinion for queries z3's incremental core gave up on: 'unsat', a model, or None"""
        t = time.time()
        try:
            left = max(5.0, min(limit or self.hard_timeout, self.deadline - time.time()))
            s = z3.Solver()
            s.set('timeout', int(left * 1000 / 3))
            for f in fs:
                s.add(f)
            r = s.check()
            if r == z3.unsat:
                self.last_back_end = 'z3'
                return 'unsat'
            if r == z3.sat:
                return s.model()
            r = cvc5_check(s.to_smt2(), left / 3)
            if r == 'unsat':
                self.last_back_end = 'cvc5'
                return 'unsat'
            for tac in (('simplify', 'purify-arith', 'nlsat'), ('qfnra-nlsat',), ('qfnia',)):
                try:
                    g = z3.Then(*tac).solver() if len(tac) > 1 else z3.Tactic(tac[0]).solver()
                    g.set('timeout', int(left * 1000 / 6))
                    for f in fs:
                        g.add(f)
                    r = g.check()
                    if r == z3.unsat:
                        self.last_back_end = 'z3'
                        return 'unsat'
                    if r == z3.sat:
                        return g.model()
                except z3.Z3Exception:
                    pass
            return None
        finally:
            self.stats.solver_s += time.time() - t

    def explore(self, fn):
        restarts = 0
        while True:
            self.stack = [[]]
            n = 0
            snap = (self.stats.obligations, self.stats.discharged, len(self.stats.failed), len(self.stats.unknown), dict(self.stats.by),
                    {k: list(v) for k, v in self.stats.names.items()}, self.stats.paths)
            try:
                while self.stack:
                    if len(self.stats.failed) > 12:
                        raise Unsupported('stopped after %d failed obligations' % len(self.stats.failed))
                    pre = self.stack.pop()
                    p = Path(self, pre)
                    n += 1
                    if n > self.max_paths:
                        raise Unsupported('more than %d paths' % self.max_paths)
                    if time.time() > self.deadline:
                        raise Unsupported('time budget for this contract exhausted')
                    try:
                        fn(p)
                        self.stats.paths += 1
                    except Infeasible:
                        pass
                return n
            except Restart:
                restarts += 1
                if restarts > 60:
                    raise Unsupported('loop write set does not stabilise')
                (self.stats.obligations, self.stats.discharged, nf, nu, by, names, self.stats.paths) = snap
                del self.stats.failed[nf:]
                del self.cex[:]
                del self.stats.unknown[nu:]
                self.stats.by = by
                self.stats.names = names


def cvc5_check(smt2, timeout_s):
    try:
        import cvc5
        s = cvc5.Solver()
        s.setOption('tlimit-per', str(int(timeout_s * 1000)))
        s.setOption('nl-ext-tplanes', 'true')
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + smt2, 'q')
        sm = p.getSymbolManager()
        out = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out += str(c.invoke(s, sm))
        return out.strip().split('\n')[-1].strip()
    except Exception as e:
        return 'error ' + str(e)
