"""Numbers and separated text: shared by the properties about reading text"""
from vc.contract import *


class PosIn(IntIn):
    """position of a separator: known to the contract only"""

    def __init__(self, name):
        IntIn.__init__(self, name, 0, 1 << 40)

    def enc(self, v):
        return ''


class GhostIn(ChoiceIn):
    def enc(self, v):
        return ''


class VarStrIn(StrIn):
    """std::string of lo to hi characters, every length on its own"""

    def __init__(self, name, lo, hi, **kw):
        StrIn.__init__(self, name, hi, minlen=lo, **kw)
        self.lo, self.hi = lo, hi

    def sym(self, P):
        n = self.lo + P.choose(self.hi - self.lo + 1)
        return Str([[P.fresh_int('%s_%d' % (self.name, k), -128, 127, exact=True) for k in range(n)]] if n else [])

    def concrete(self, m, v):
        return Str([[m.eval(c, model_completion=True).as_long() for c in v.parts[0]]] if v.parts else [])

    def sample(self, r):
        s = StrIn.sample(self, r).chars()
        while len(s) < self.lo:
            s.append(ord(r.choice(self.alphabet)))
        return Str([s[:self.hi]] if s[:self.hi] else [])


def digit(c):
    return And(c >= 48, c <= 57)


def only(C, i, char, ps, lo, hi):
    """from lo up to hi the character is at the positions ps, in this order, and nowhere else"""
    s = i['s']
    n = C.len(s)
    if not C.sym:
        return [k for k in range(lo, min(hi, n)) if C.at(s, k) == char] == list(ps)
    for p in ps:
        C.I.P.term(p)
    C.every2(s, lo, hi, lambda k, c: Or(ne(c, char), *[eq(k, p) for p in ps]))
    q = [lo - 1] + list(ps) + [hi]
    return And(hi <= n, *[a < b for a, b in zip(q, q[1:])] + [eq(C.at(s, p), char) for p in ps])


def prefix(cs, lo=-(1 << 31), hi=(1 << 31) - 1):
    """value of the longest prefix of the characters which is a number (0 if there is none or it does not fit)"""
    if not cs:
        return 0
    neg = And(lo < 0, eq(cs[0], 45))
    v, good = 0, True
    for k, c in enumerate(cs):
        d = And(good, digit(c))
        v = If(d, v * 10 + (c - 48), v) if is_sym(d) or is_sym(v) else v * 10 + (c - 48) if d else v
        good = Or(d, neg) if k == 0 else d
    v = If(neg, -v, v) if is_sym(neg) else -v if neg else v
    return If(And(v >= lo, v <= hi), v, 0) if is_sym(v) and 10 ** len(cs) > hi else v if is_sym(v) or lo <= v <= hi else 0


def known_number(most):
    """raw_convert<int>(string), of at most this many characters: property P23"""
    def f(I, f, t, a):
        if f['ret'].key != 'int' or 'string' not in f['params'][0]['t'].key:
            return NotImplemented
        s = I.rv(a[0])
        n = s.length()
        I.P.oblige('number-not-too-long', n <= most, 'pre')
        v = prefix([s.at(I, k) for k in range(n)]) if not is_sym(n) else 0
        if is_sym(n):
            for m in range(1, most + 1):
                v = If(eq(n, m), prefix([s.at(I, k) for k in range(m)]), v)
        if not is_sym(v):
            return v
        r = I.P.fresh_int('num', -(1 << 31), (1 << 31) - 1)
        I.P.assume(r == v)
        return r
    return f


NUMBER = z3.Function('number', z3.IntSort(), z3.IntSort(), z3.IntSort())


def number_at(C, s, lo, hi):
    """the number which reading characters lo to hi of the text gives"""
    if not C.sym:
        return prefix([C.at(s, k) for k in range(lo, hi)])
    return NUMBER(lo if is_sym(lo) else z3.IntVal(lo), simp(hi - lo) if is_sym(hi - lo) else z3.IntVal(hi - lo))


def some_number(I, f, t, a):
    """raw_convert<int>(string) of part of the text being read: the number there (property P23)"""
    if f['ret'].key != 'int' or 'string' not in f['params'][0]['t'].key:
        return NotImplemented
    s = I.rv(a[0]).norm()
    cs = s.chars()
    if cs is not None and not any(is_sym(c) for c in cs):
        return prefix(cs)
    whole = I.text.norm()
    if cs is not None or len(s.parts) != 1 or len(whole.parts) != 1 or s.parts[0].arr is not whole.parts[0].arr:
        raise Unsupported('number from text made up from parts')
    v, w = s.parts[0], whole.parts[0]
    off, n = simp(v.off - w.off), simp(v.n)
    r = I.P.fresh_int('num', -(1 << 31), (1 << 31) - 1)
    I.P.assume(r == NUMBER(off if is_sym(off) else z3.IntVal(off), n if is_sym(n) else z3.IntVal(n)))
    return r
