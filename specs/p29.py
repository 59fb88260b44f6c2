"""Pictures are converted between RGB and XYZ pixel by pixel"""
from specs.curves import *
from specs.p16 import REAL, INT
from vc.lib import Library, V
from vc.lib_matrix import Mat
from vc.values import *

SOURCES = ['rgb_xyz.cc', 'colour_conversion.cc', 'types.cc']
DRV = {'rgb': Driver('rgb', SRC + ['rgb_xyz.cc', 'colour_conversion.cc', 'chromaticity.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lboost_filesystem', '-lfmt'], partial=True)}
DCI = 48.0 / 52.37
LOOK = z3.Function('output_code', REAL, INT)
ROUND = z3.Function('rounded', REAL, INT)
byte = lambda: vast._types['unsigned char']


class Bytes(Arr):
    """bytes that hold values of 16 bits each: those are what is kept"""

    def __init__(self, I, wide, n):
        Arr.__init__(self, byte(), None, None, n, kind='heap')
        self.wide = wide

    def copy(self, I):
        return self

    def get(self, I, i):
        raise Unsupported('byte of a wider value')

    def put(self, I, i, v):
        raise Unsupported('byte of a wider value')

    def recast(self, I, i, t):
        if t.p.w != 16:
            raise Unsupported('cast of pixels')
        if not is_sym(i):
            return Ptr(ElemLV(I, self.wide, i // 2))
        h = I.P.fresh_int('half', None, None)
        I.P.oblige('aligned', i % 2 == 0, 'safety')
        I.P.assume(2 * h == i)
        return Ptr(ElemLV(I, self.wide, h))


class Ranged(Arr):
    """whose elements lie between two bounds"""

    def get(self, I, i):
        v = Arr.get(self, I, i)
        if is_sym(v):
            I.P.assume(z3.And(v >= self.lo, v <= self.hi))
        return v

    def copy(self, I):
        return self


def ranged(t, arr, n, lo, hi):
    a = Ranged(t, None, arr, n, kind='heap')
    a.lo, a.hi = lo, hi
    return a


# ------------------------------------------------------------------ what conversions consist of

def table(I, f, t, a):
    """of an input or output curve, by what is asked for"""
    lo, hi, bits, inverse = [V(x) for x in a]
    which = t.kind
    I.P.oblige('whole-range', And(eq(lo, 0), eq(hi, 1)), 'post')
    return ObjLV(ranged(f['ret'].p.a[0] if f['ret'].k == 'ref' else f['ret'].a[0], tables(which, bits, inverse), 1 << bits, 0, 1))


def tables(which, bits, inverse):
    return z3.Array('table_%s_%d_%d' % (which, bits, inverse), INT, REAL)


def entry(I, a, i):
    v = z3.Select(a, i)
    I.P.assume(z3.And(v >= 0, v <= 1))
    return v


def rounded(I, v):
    r = ROUND(v)
    I.P.assume(z3.And(z3.ToReal(r) - v <= z3.Q(1, 2), v - z3.ToReal(r) <= z3.Q(1, 2)))
    return r


def lrint(I, f, t, a):
    v = V(a[0])
    return rounded(I, v) if is_sym(v) else NotImplemented


def make(I, f, t, a):
    if f['ret'].a[0].n != 'dcp::OpenJPEGImage':
        return NotImplemented
    s = V(a[0])
    I.P.oblige('picture-of-the-same-size', And(eq(s.fields['width'], I.goal['W']), eq(s.fields['height'], I.goal['H'])), 'post')
    return SPtr(Lib('dcp::OpenJPEGImage'))


def lut2(I, f, t, a):
    fn, boundary, low, high, inverse, scale = [V(x) for x in a]
    I.P.oblige('table-of-the-output-curve', fn.o.kind == 'out' and inverse is True and scale == 4095, 'post')
    return Lib('dcp::PiecewiseLUT2')


def lookup(I, f, t, a):
    x = V(a[0])
    x = x if is_sym(x) else z3.RealVal(x)
    I.P.oblige('between-0-and-1', z3.And(x >= 0, x <= 1), 'safety')
    I.P.assume(z3.And(LOOK(x) >= 0, LOOK(x) <= 4095))
    return LOOK(x)


def matrix(name):
    cells = [z3.Real('%s_%d%d' % (name, r, c)) for r in range(3) for c in range(3)]
    return lambda I, f, t, a: Mat(3, 3, list(cells), f['ret'].a[0])


MODELS = {'dcp::ColourConversion::in': lambda I, f, t, a: SPtr(Lib('dcp::TransferFunction', kind='in')), 'dcp::ColourConversion::out': lambda I, f, t, a: SPtr(Lib('dcp::TransferFunction', kind='out')),
          'dcp::TransferFunction::double_lut': table, 'dcp::PiecewiseLUT2::PiecewiseLUT2': lut2, 'dcp::PiecewiseLUT2::lookup': lookup,
          'dcp::ColourConversion::rgb_to_xyz': matrix('M'), 'dcp::ColourConversion::bradford': matrix('B'), 'dcp::ColourConversion::xyz_to_rgb': matrix('N'),
          'std::make_shared': make, 'lrint': lrint, 'std::lrint': lrint,
          'dcp::OpenJPEGImage::data': lambda I, f, t, a: Ptr(ElemLV(I, I.planes[V(a[0])], 0)),
          'dcp::OpenJPEGImage::size': lambda I, f, t, a: copyval(I, I.dims)}


def clamp01(v):
    return z3.If(v < 0, z3.RealVal(0), z3.If(v > 1, z3.RealVal(1), v))


def to_xyz(I, comps):
    """codes of a pixel from its three 16-bit components"""
    lut = tables('in', 12, False)
    s = [entry(I, lut, c / 16) for c in comps]
    m = lambda n, r, c: z3.Real('%s_%d%d' % (n, r, c))
    k = num_(DCI)
    row = lambda r: [z3.Sum([m('B', r, j) * m('M', j, c) for j in range(3)]) * k for c in range(3)]
    return [LOOK(clamp01(z3.Sum([s[c] * row(r)[c] for c in range(3)]))) for r in range(3)]


def light(I, comps):
    """red, green and blue light of a pixel from its three codes"""
    lut = tables('out', 12, False)
    s = [entry(I, lut, z3.If(c < 0, 0, z3.If(c > 4095, 4095, c))) / num_(DCI) for c in comps]
    return [clamp01(z3.Sum([s[c] * z3.Real('N_%d%d' % (r, c)) for c in range(3)])) for r in range(3)]


def to_rgb(I, comps):
    lut = tables('in', 16, True)
    return [rounded(I, entry(I, lut, rounded(I, v * 65535)) * 65535) for v in light(I, comps)]


def to_rgba(I, comps):
    lut = tables('in', 16, True)
    r, g, b = [z3.ToInt(entry(I, lut, rounded(I, v * 65535)) * 255) for v in light(I, comps)]
    return [b, g, r, num(255)]


# ------------------------------------------------------------------ the loops

def unique(a, b, c, d, w):
    """a * w + b == c * w + d, remainders in range, only for the same quotient and remainder"""
    return z3.Implies(z3.And(b >= 0, b < w, d >= 0, d < w, a * w + b == c * w + d), z3.And(a == c, b == d))


def below(a, b, w, h):
    """places in rows before the end are before the end"""
    return z3.Implies(z3.And(a >= 0, a < h, b >= 0, b < w), z3.And(a * w >= 0, a * w + b < h * w, a * w + w <= h * w, a * w <= h * w - w))


def arithmetic():
    """what is assumed of products in the proofs, for all integers"""
    a, b, c, d, w, h = z3.Ints('a b c d w h')
    facts = [z3.Implies(w >= 1, unique(a, b, c, d, w)), below(a, b, w, h), z3.Implies(z3.And(a >= 0, a <= h, w >= 0), z3.And(a * w >= 0, a * w <= h * w)),
             z3.Implies(z3.And(a >= 0, a < h, w >= 0), z3.And(a * w >= 0, a * w <= (h - 1) * w)), z3.Implies(z3.And(a >= 0, b >= 0), a * b >= 0)]
    for f in facts:
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(z3.Not(f))
        if s.check() != z3.unsat:
            raise Unsupported('lemma about products: %s' % f)
    return len(facts)


def invariants(I, L):
    g = getattr(I, 'goal', None)
    if g is None:
        return []
    known = I.__dict__.setdefault('loops', [])
    if not any(x is L for x in known):
        known.append(L)
    W, H, py, px = g['W'], g['H'], g['py'], g['px']

    told = I.__dict__.setdefault('told', {})

    def lemmas():
        """facts of arithmetic about the rows and columns of the loops"""
        x = num(L.it)
        for o in known:
            if o.it is None:
                continue
            y = num(o.it)
            k = y.get_id(), x.get_id()
            if k in told:
                continue
            told[k] = y, x
            facts = [z3.Implies(z3.And(y >= 0, y <= H), z3.And(y * W >= 0, y * W <= H * W)), z3.Implies(y == py, y * W == py * W), z3.Implies(y == H, y * W == H * W)]
            for w in g['pitches']:
                facts += [z3.Implies(z3.And(y >= 0, y < H), z3.And(y * w >= 0, y * w <= (H - 1) * w)), z3.Implies(y == py, y * w == py * w)]
            if o is not L:
                facts += [below(y, x, W, H), unique(y, x, py, px, W)] + [unique(y, k * x + c, py, k * px + d, w) for w, k in g['steps'] for c in range(k) for d in range(k)]
            for f in facts:
                I.P.assume(f)
        return True
    out = [('lemmas', lemmas)]
    for q, v in L.entry.items():
        if isinstance(v, (tuple, bool)) or v is UNINIT or v is None or not (isinstance(v, int) or z3.is_int(v)):
            continue
        now = lambda q=q: num(L.now[q])
        out += [('%s counts' % (q,), lambda now=now, v=v: now() == num(v) + L.it), ('%s row' % (q,), lambda now=now: And(lemmas(), now() == W * L.it)), ('%s packed row' % (q,), lambda now=now: And(lemmas(), now() == 3 * W * L.it)),
                ('%s done before' % (q,), lambda now=now: And(lemmas(), z3.Implies(py * W + px < now(), g['stored']()))),
                ('%s packed done before' % (q,), lambda now=now: And(lemmas(), z3.Implies(3 * (py * W + px) < now(), g['stored']())))]
        for w in g['pitches']:
            for n in (1, 2):
                out.append(('%s pitch %d*%s' % (q, n, w), lambda now=now, w=w, n=n: And(lemmas(), now() == n * w * L.it)))
    return out


def start(I, i, steps, pitches=()):
    P = I.P
    P.use_linear()
    W, H = i['W'], i['H']
    py, px = P.fresh_int('row', 0, None), P.fresh_int('column', 0, None)
    P.assume(z3.And(py < H, px < W))
    P.assume(below(py, px, W, H))
    P.assume(z3.And((H - 1) * W >= 0, H * W <= 1 << 26))
    for w in pitches:
        P.assume(z3.And(w * H < 1 << 29, py * w <= (H - 1) * w, py * w >= 0))
    I.dims = I.construct(I.prog.find('dcp::Size::Size', 2), I.prog.type('dcp::Size'), [W, H])
    I.goal = dict(W=W, H=H, py=py, px=px, steps=steps, pitches=pitches, stored=lambda: True)
    return py, px


def conversion(I):
    return ObjLV(Lib('dcp::ColourConversion'))


def whole(I, name, t, n, lo, hi):
    a = z3.Array(name, INT, INT)
    if lo is None:
        return Arr(vast._types[t], None, a, n, kind='heap')
    return ranged(vast._types[t], a, n, lo, hi)


def values(I, arrs, at, lo, hi):
    v = [z3.Select(a, k) for a, k in zip(arrs, at)]
    for x in v:
        I.P.assume(z3.And(x >= lo, x <= hi))
    return v


def rgb_input(I, i, py, px):
    W, H, s = i['W'], i['H'], i['pitch']
    wide = whole(I, 'rgb', 'unsigned short', simp((H - 1) * s + 3 * W), 0, 65535)
    I.P.assume(z3.Implies(H >= 1, (H - 1) * s >= 0))
    I.P.assume(z3.And(py * s >= 0, py * s <= (H - 1) * s))
    comps = values(I, [wide.arr] * 3, [py * s + 3 * px + c for c in range(3)], 0, 65535)
    return Ptr(ElemLV(I, Bytes(I, wide, simp(2 * ((H - 1) * s + 3 * W))), 0)), comps


def run_xyz(packed):
    def f(I, i):
        W, H = i['W'], i['H']
        py, px = start(I, i, [], [i['pitch']])
        rgb, comps = rgb_input(I, i, py, px)
        want = to_xyz(I, comps)
        q = py * W + px
        stride = simp(2 * i['pitch'])
        if packed:
            dst = whole(I, 'xyz', 'unsigned short', simp(3 * W * H), None, None)
            I.name(dst, 'picture')
            I.goal['stored'] = lambda: z3.And([z3.Select(dst.arr, 3 * q + c) == want[c] for c in range(3)])
            I.call(I.prog.find('dcp::rgb_to_xyz', 5), None, [rgb, Ptr(ElemLV(I, dst, 0)), I.dims, stride, conversion(I)])
        else:
            I.planes = [whole(I, 'xyz%d' % c, 'int', simp(W * H), None, None) for c in range(3)]
            for c, p in enumerate(I.planes):
                I.name(p, 'plane%d' % c)
            I.goal['stored'] = lambda: z3.And([z3.Select(I.planes[c].arr, q) == want[c] for c in range(3)])
            I.call(I.prog.find('dcp::rgb_to_xyz', 4), None, [rgb, I.dims, stride, conversion(I)])
        return {}
    return f


def xyz_input(I, i, py, px, lo=-(1 << 31), hi=(1 << 31) - 1):
    I.planes = [whole(I, 'xyz%d' % c, 'int', simp(i['W'] * i['H']), lo, hi) for c in range(3)]
    return values(I, [p.arr for p in I.planes], [py * i['W'] + px] * 3, lo, hi)


def run_rgb(I, i):
    W, H, s = i['W'], i['H'], i['pitch']
    py, px = start(I, i, [(s, 3)], [s])
    want = to_rgb(I, xyz_input(I, i, py, px))
    I.P.assume(z3.And((H - 1) * s >= 0, py * s >= 0, py * s <= (H - 1) * s))
    wide = whole(I, 'rgb', 'unsigned short', simp((H - 1) * s + 3 * W), None, None)
    I.name(wide, 'picture')
    I.goal['stored'] = lambda: z3.And([z3.Select(wide.arr, py * s + 3 * px + c) == want[c] for c in range(3)])
    I.call(I.prog.find('dcp::xyz_to_rgb', 5), None, [SPtr(Lib('dcp::OpenJPEGImage')), conversion(I), Ptr(ElemLV(I, Bytes(I, wide, simp(2 * ((H - 1) * s + 3 * W))), 0)), simp(2 * s), Opt()])
    return {}


def run_rgba(I, i):
    W, H, s = i['W'], i['H'], i['pitch']
    py, px = start(I, i, [(s, 4)], [s])
    want = to_rgba(I, xyz_input(I, i, py, px, 0, 4095))
    I.P.assume(z3.And((H - 1) * s >= 0, py * s >= 0, py * s <= (H - 1) * s))
    out = whole(I, 'argb', 'unsigned char', simp((H - 1) * s + 4 * W), None, None)
    I.name(out, 'picture')
    I.goal['stored'] = lambda: z3.And([z3.Select(out.arr, py * s + 4 * px + c) == want[c] for c in range(4)])
    I.call(I.prog.find('dcp::xyz_to_rgba', 4), None, [SPtr(Lib('dcp::OpenJPEGImage')), conversion(I), Ptr(ElemLV(I, out, 0)), s])
    return {}


def post(C, i, o):
    if o['exc'] is not None:
        return [('no-exception', False)]
    if C.sym:
        return [('every-pixel-converted', C.I.goal['stored']())]
    return [('every-pixel-converted', o['got'] == o['want']), ('nothing-else-written', o['rest'])]


class PixelsIn(In):
    """contents of a picture: only for samples"""

    def __init__(self, name):
        self.name = name

    def sym(self, P):
        return None

    def concrete(self, m, v):
        raise Unsupported('tables are not those of a real conversion')

    def enc(self, v):
        return '%d %s' % (len(v), ' '.join(map(str, v)))


def draw(op, n, lo, hi):
    def f(r):
        W, H = r.randint(1, 5), r.randint(1, 4)
        pts = [0, 1, 15, 16, 4095, 4096, 65535, 65520, 32768, -1, -5, 2047]
        return {'W': W, 'H': H, 'pitch': n * W + r.choice([0, 0, 1, 2, 5]), 'data': [r.choice([x for x in pts if lo <= x <= hi]) if r.random() < 0.4 else r.randint(max(lo, -100), min(hi, 65535)) for _ in range(3 * W * H)], 'kind': r.randint(0, 9)}
    return f


def contract(name, run, op, n, lo, hi):
    least = lambda C, i: And(i['pitch'] >= n * i['W'], i['pitch'] * i['H'] < 1 << 29)
    return Contract(name, SOURCES, [IntIn('W', 1, 1 << 13), IntIn('H', 1, 1 << 13), IntIn('pitch', 1, 1 << 20), PixelsIn('data'), ChoiceIn('kind', [0])], run, post, pre=least, summaries=MODELS, opts={'merge': True, 'ptr_arith_checked': False}, cut_after=1, loop_invs=[('*', invariants)],
                    driver='rgb', op=op, enc=lambda i: '%d %d %d %d %s' % (i['W'], i['H'], i['pitch'], i['kind'], ArrEnc(i['data'])), sample=draw(op, n, lo, hi), diff=False, parse=parse, bounded=2000)


def ArrEnc(v):
    return '%d %s' % (len(v), ' '.join(map(str, v)))


def parse(tok):
    n = int(tok[1])
    v = [int(x) for x in tok[2:]]
    return {'rest': tok[0] == '1', 'got': v[:n], 'want': v[n:]}


contracts = [contract('rgb-to-planes', run_xyz(False), 'planes', 3, 0, 65535), contract('rgb-to-packed', run_xyz(True), 'packed', 3, 0, 65535),
             contract('xyz-to-rgb', run_rgb, 'rgb', 3, -(1 << 31), (1 << 31) - 1), contract('xyz-to-rgba', run_rgba, 'rgba', 4, 0, 4095)]
SPEC = Spec('P29', contracts, DRV, ['tables and matrices are what P15 to P18 prove them to be; entries of tables lie between 0 and 1', 'doubles are real numbers in the proof', 'openjpeg keeps the planes of a picture row after row', 'pictures of up to 8192 by 8192 pixels, whose rows take fewer than 2^30 bytes altogether'],
            lemmas=[('products', arithmetic)])
