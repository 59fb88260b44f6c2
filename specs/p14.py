"""A scope guard runs its function exactly once"""
import itertools
from vc.contract import *

TU = VERIF + '/drivers/guard_tu.cc'
SRC = [TU]
DRV = {'guard': Driver('guard', [])}
# sequences tried one by one; those of any length are the business of the second contract
HIST = [''.join(p) for n in range(6) for p in itertools.product('cmod', repeat=n)]


def run(I, i):
    runs = [0]

    def f(I, a):
        runs[0] += 1
    ctor = lambda k: I.prog.find('dcp::ScopeGuard::ScopeGuard', 1, lambda g: (g.get('ck') == 'move') == k)
    t = ctor(False)['cls']
    now = I.construct(ctor(False), t, [ObjLV(FnVal(f))])
    old, seen = [], []
    for c in i['history']:
        if c == 'c':
            I.call_named('dcp::ScopeGuard::cancel', now, [])
        elif c == 'm':
            n = I.construct(ctor(True), t, [ObjLV(now)])
            old.append(now)
            now = n
        elif c == 'o' and old:
            I.call_named('dcp::ScopeGuard::cancel', old[-1], [])
        elif c == 'd':
            for g in old:
                I.destroy(g)
            old = []
        seen.append(runs[0])
    I.destroy(now)
    seen.append(runs[0])
    for g in old:
        I.destroy(g)
    seen.append(runs[0])
    return {'seen': seen}


def post(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    live = 'c' not in i['history']
    n = len(i['history'])
    return [('not-before-the-end', all(x == 0 for x in o['seen'][:n])), ('once-at-the-end-unless-cancelled', o['seen'][n] == (1 if live else 0)), ('never-again', o['seen'][-1] == o['seen'][n])]


def run_states(I, i):
    """Induction over the number of operations: every state a guard can get into, with whether its function is still to run,
    closed under all operations; each operation from each of them does what it should."""
    runs = [0]

    def f(I, a):
        runs[0] += 1
    ctor = lambda k: I.prog.find('dcp::ScopeGuard::ScopeGuard', 1, lambda g: (g.get('ck') == 'move') == k)
    t = ctor(False)['cls']

    def key(g):
        r = []
        for n, v in sorted(g.fields.items()):
            if isinstance(v, FnVal):
                r.append((n, 'the function' if v.f is f else 'empty' if v.f is None else 'another'))
            elif isinstance(v, (bool, int)):
                r.append((n, v))
            else:
                raise Unsupported('guard with a %s' % type(v).__name__)
        return tuple(r)

    def clone(g):
        c = I.default(t)
        for n, v in g.fields.items():
            c.fields[n] = v.copy(I) if isinstance(v, Obj) else v
        return c

    def calls(what):
        n = runs[0]
        what()
        return runs[0] - n
    ok = lambda name, c: I.P.oblige(name, c)
    seen, todo = {}, []

    def reach(g, live):
        if (key(g), live) not in seen:
            seen[key(g), live] = True
            todo.append((g, live))
        if len(seen) > 40:
            raise Unsupported('guard with too many states')
    g = I.construct(ctor(False), t, [ObjLV(FnVal(f))])
    ok('not-before-the-end', runs[0] == 0)
    reach(g, True)
    while todo:
        g, live = todo.pop()
        a = clone(g)
        ok('cancelling-runs-nothing', calls(lambda: I.call_named('dcp::ScopeGuard::cancel', a, [])) == 0)
        reach(a, False)
        a = clone(g)
        b = []
        ok('moving-runs-nothing', calls(lambda: b.append(I.construct(ctor(True), t, [ObjLV(a)]))) == 0)
        reach(a, False)
        reach(b[0], live)
        ok('once-at-the-end-unless-cancelled', calls(lambda: I.destroy(clone(g))) == (1 if live else 0))
    runs[0] = 0
    return run(I, i)


SPEC = Spec('P14', [Contract('guard', SRC, [ChoiceIn('history', HIST)], run, post, driver='guard', op='guard', outs=[('seen', 'ints')]),
                    Contract('guard-after-any-history', SRC, [ChoiceIn('history', ['', 'm', 'cm'])], run_states, post, driver='guard', op='guard', outs=[('seen', 'ints')])], DRV,
            ['std::function calls what it holds; a moved-from one is empty'])
