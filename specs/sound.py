"""Shared by the properties about sound: a sound asset and its writer, over a stand-in for the library that stores frames.

The frame buffer is a window of one endless stream of bytes: storing a frame moves the window on by its length, and what was in the
buffer stays there.
"""
from vc.contract import *
from vc.lib import Library, STRUCTS, CTOR, V, crc_value, crc16, cstr
from vc.values import *

SRC = ['sound_asset_writer.cc', 'sound_asset.cc', 'asset_writer.cc', 'mxf.cc', 'asset.cc', 'object.cc', 'sound_frame.cc', 'fsk.cc', 'bitstream.cc', 'types.cc']
LOW, HIGH = -(1 << 23), (1 << 23) - 1
RATES = [24, 25, 30, 48, 50, 60, 96, 100, 120]


STRUCTS['ASDCP::Rational'] = {'Numerator': None, 'Denominator': None}
STRUCTS['ASDCP::PCM::AudioDescriptor'] = {n: None for n in 'Locked ChannelCount QuantizationBits BlockAlign AvgBps LinkedTrackID ContainerDuration ChannelFormat'.split()}
STRUCTS['ASDCP::PCM::AudioDescriptor'].update({'EditRate': 'ASDCP::Rational', 'AudioSamplingRate': 'ASDCP::Rational'})


def rational(I, f, t, a):
    s = StructObj(t)
    s.fields['Numerator'], s.fields['Denominator'] = (V(a[0]), V(a[1])) if len(a) == 2 else (UNINIT, UNINIT)
    return s


CTOR['ASDCP::Rational'] = rational


class Stream(Arr):
    """of which the frame buffer is a part.  What is at one place of each group (the bytes of one moment) is an array of its own."""

    def __init__(self, I, g, group):
        Arr.__init__(self, vast._types['unsigned char'], None, None, None, kind='heap')
        self.g, self.group = g, group
        self.fresh(I)

    def fresh(self, I):
        self.parts = tuple(z3.Array(I.P.fresh('stream'), z3.IntSort(), z3.IntSort()) for _ in range(self.group))

    def first(self):
        return self.g.base

    def size(self):
        return self.g.base + self.g.cap

    def copy(self, I):
        return self

    def place(self, I, i):
        """the group and the place in it of index i"""
        i = simp(i)
        if not is_sym(i):
            return divmod(i, self.group)
        known = I.__dict__.setdefault('moments', {})
        guess = I.__dict__.get('guess', 0)
        for r in [*range(guess, self.group), *range(guess)]:
            start = z3.simplify(num(i) - r)
            if start.get_id() not in known:
                if not I.P.valid(start % self.group == 0):
                    continue
                q = I.P.fresh_int('moment', None, None)
                I.P.assume(self.group * q == start)
                known[start.get_id()] = q, start
            I.guess = (r + 1) % self.group
            return known[start.get_id()][0], r
        raise Unsupported('a store at no particular place of its group')

    def inside(self, I, i, n=1):
        I.P.oblige('inside-the-frame', And(i >= self.first(), i + n <= self.size()), 'safety')

    def get(self, I, i):
        self.inside(I, i)
        q, r = self.place(I, i)
        return simp(z3.Select(self.parts[r], q))

    def put(self, I, i, v):
        self.inside(I, i)
        q, r = self.place(I, i)
        I.wrote(self, 'elems')
        self.parts = self.parts[:r] + (z3.Store(self.parts[r], q, num(v)),) + self.parts[r + 1:]

    def each(self, I, f):
        I.wrote(self, 'elems')
        k = z3.Int('k!each')
        self.parts = tuple(z3.Lambda([k], f(k, self.group * k + r, p)) for r, p in enumerate(self.parts))

    def fill(self, I, i, n, v):
        self.inside(I, i, n)
        self.each(I, lambda q, k, p: z3.If(z3.And(k >= num(i), k < num(i) + num(n)), num(v), z3.Select(p, q)))


Stream.havoc = lambda I, o: o.fresh(I)


def havoc_frames(self, I, o):
    o.q = I.P.fresh_int('moments', 0, None)
    o.base = I.stream.group * o.q
    o.count = I.P.fresh_int('count', 0, None)
    o.sets, o.gets, o.data = I.P.fresh_int('sets', 0, None), I.P.fresh_int('gets', 0, None), None


Library.havoc_frames = havoc_frames


def result(I, v=0):
    return Lib('Kumu::Result_t', v=v)


def outcome(I, what):
    """success or failure of a request, as the input says"""
    g = I.pcm
    g.log.append(what)
    return result(I, -1 if what == g.failing else 0)


def capacity(I, f, t, a):
    g = I.pcm
    if a:
        I.wrote(g, None)
        g.cap = I.rv(a[0])
        return result(I)
    return g.cap


def size(I, f, t, a):
    g = I.pcm
    if a:
        I.wrote(g, None)
        g.size = I.rv(a[0])
    return g.size


def write_frame(I, f, t, a):
    g, S = I.pcm, I.stream
    r = outcome(I, 'write')
    if r.v < 0:
        return r
    I.P.oblige('whole-frames', eq(g.size, g.cap), 'safety')
    I.P.oblige('frames-of-the-right-length', eq(g.cap, S.group * g.samples), 'safety')
    I.wrote(g, None)
    n, end = num(g.samples), num(g.base) + num(g.cap)
    S.each(I, lambda q, k, p: z3.If(z3.And(k >= end, k < end + num(g.cap)), z3.Select(p, q - n), z3.Select(p, q)))
    g.base = simp(g.base + g.cap)
    g.count = simp(g.count + 1)
    return r


MODELS = {
    'ASDCP::FrameBuffer::Capacity': capacity, 'ASDCP::FrameBuffer::Size': size,
    'ASDCP::FrameBuffer::Data': lambda I, f, t, a: Ptr(ElemLV(I, I.stream, I.pcm.base)),
    'ASDCP::PCM::MXFWriter::WriteFrame': write_frame,
    'ASDCP::PCM::MXFWriter::OpenWrite': lambda I, f, t, a: outcome(I, 'open'),
    'ASDCP::PCM::MXFWriter::Finalize': lambda I, f, t, a: outcome(I, 'finalize'),
    'ASDCP::PCM::CalcFrameBufferSize': lambda I, f, t, a: simp(I.rv(a[0]).fields['BlockAlign'] * I.pcm.samples),
    'Kumu::Result_t::operator int': lambda I, f, t, a: t.v,
    'dcp::maybe_throw_from_asdcplib': lambda I, f, t, a: None,
    'dcp::MXF::fill_writer_info': lambda I, f, t, a: None,
    'dcp::filesystem::fix_long_path': lambda I, f, t, a: copyval(I, I.rv(a[0])),
    'dcp::filesystem::absolute': lambda I, f, t, a: copyval(I, I.rv(a[0])),
    'dcp::make_uuid': lambda I, f, t, a: S(UUID),
    'dcp::MXFMetadata::MXFMetadata': lambda I, f, t, a: I.default(f['cls']),
    'ASDCP::WriterInfo::WriterInfo': lambda I, f, t, a: I.default(f['cls']),
    'dcp::LanguageTag::as_string': lambda I, f, t, a: S('en'),
}


def uuid_value(I, f, t, a):
    return Ptr(ElemLV(I, I.uuid, 0))


def uuid_decode(I, f, t, a):
    s = cstr(I, I.rv(a[0]))
    I.P.oblige('of-the-asset', str_eq(I, s, S(UUID)), 'safety')
    return True


def set_data(I, f, t, a):
    g = I.pcm
    I.wrote(g, None)
    v = I.rv(a[0])
    g.sets = simp(g.sets + 1)
    g.data = v.copy(I) if v.items is not None else None
    if not g.ending:
        I.P.oblige('new-packets-at-the-start-of-a-frame', eq(I.stream.group * g.gets, g.base), 'post')
    return None


def next_sample(I, f, t, a):
    g = I.pcm
    v = SYNC(num(g.gets))
    I.P.assume(z3.And(v >= LOW, v <= HIGH))
    I.wrote(g, None)
    g.gets = simp(g.gets + 1)
    return v


def checksum(I, f, t, a):
    v = crc_value(I, t.poly, t.fed)
    I.crcs.append((t.poly, t.fed, v))
    return v


UUID = 'b30bd6a8-2f6d-4e07-bc1e-d28ba2c1ed39'
SYNC = z3.Function('sync_sample', z3.IntSort(), z3.IntSort())
PACKETS = {'Kumu::UUID::UUID': lambda I, f, t, a: Lib('Kumu::UUID'), 'Kumu::UUID::Value': uuid_value, 'Kumu::UUID::DecodeHex': uuid_decode, 'dcp::FSK::set_data': set_data, 'boost::crc_basic::checksum': checksum}
SIGNAL = {'dcp::SoundAssetWriter::create_sync_packets': lambda I, f, t, a: Arr(I.prog.type('bool'), []), 'dcp::FSK::set_data': set_data, 'dcp::FSK::get': next_sample}


def sound(I, channels, rate=(24, 1), sync=False, samples=None, failing=None, frequency=48000, standard='SMPTE'):
    """an asset, and a writer for it as its constructor leaves it"""
    P = I.P
    I.pcm = Lib('frames', base=0, count=0, cap=0, size=0, samples=samples if samples is not None else P.fresh_int('samples', 1, 1 << 20), failing=failing, log=[], sets=0, gets=0, data=None, ending=False)
    I.stream = Stream(I, I.pcm, 3 * channels)
    I.name(I.pcm, 'frames')
    I.name(I.stream, 'stream')
    fr = I.construct(I.prog.find('dcp::Fraction::Fraction', 2), I.prog.type('dcp::Fraction'), list(rate))
    T = I.prog.type('dcp::SoundAsset')
    lang = Lib('dcp::LanguageTag')
    a = I.construct(I.prog.find('dcp::SoundAsset::SoundAsset', 5), T, [fr, frequency, channels, lang, I.prog.type('dcp::Standard').cs[standard]])
    I.nameobj(a, 'asset')
    W = I.prog.type('dcp::SoundAssetWriter')
    w = I.construct(I.prog.find('dcp::SoundAssetWriter::SoundAssetWriter', 5), W, [Ptr(ObjLV(a)), Lib('path', s=S('f')), Arr(I.prog.type('dcp::Channel'), []), sync, False])
    I.nameobj(w, 'writer')
    return a, w


# ------------------------------------------------------------------ samples

def element(real):
    return [t for t in vast._types.values() if (t.k == 'float' and t.w == 32 if real else t.key == 'int')][0]


class SamplesIn(In):
    """samples of each channel, as whole numbers or as parts of full scale; as many as the run says"""

    def __init__(self, name, channels, real, of):
        self.name, self.channels, self.real, self.of = name, channels, real, of

    def sym(self, P):
        t = element(self.real)
        return [Arr(t, None, z3.Array('%s_%d' % (self.name, k), z3.IntSort(), z3.RealSort() if self.real else z3.IntSort()), 0) for k in range(self.channels)]

    def concrete(self, m, v):
        out = []
        for a in v:
            n = m.eval(num(a.n), model_completion=True).as_long()
            if n > 300:
                raise Unsupported('counterexample too long')
            e = [m.eval(z3.Select(a.arr, k), model_completion=True) for k in range(n)]
            out.append(Arr(a.t, [flt_of(x) for x in e] if self.real else [max(-(1 << 31), min((1 << 31) - 1, x.as_long())) for x in e]))
        return out

    def draw(self, r, n):
        def one():
            k = r.random()
            if self.real:
                return r.choice([0.0, 1.0, -1.0, 1.5, -1.5, 0.5, 1 - 2.0 ** -23, -1 + 2.0 ** -23, 1 - 2.0 ** -24, 2.0 ** -24, -2.0 ** -24]) if k < 0.5 else r.randint(-(1 << 24), 1 << 24) / float(1 << 24)
            return r.choice([0, 1, -1, LOW, HIGH, LOW - 1, HIGH + 1, LOW + 1, HIGH - 1, 255, 256, -256, 65535, 65536, (1 << 31) - 1, -(1 << 31)]) if k < 0.5 else r.randint(LOW, HIGH)
        t = element(self.real)
        return [Arr(t, [one() for _ in range(n)]) for _ in range(self.channels)]

    def enc(self, v):
        return '%d %s' % (len(v[0].items) if v else 0, ' '.join(x.hex() if self.real else str(x) for a in v for x in a.items))


def sample24(x, real):
    """the 24-bit sample for a value"""
    if not real:
        return If(x < LOW, LOW, If(x > HIGH, HIGH, x))
    if not is_sym(x):
        y = max(-HIGH / 8388608.0, min(HIGH / 8388608.0, x)) * 8388608.0
        return int(math.floor(abs(y) + 0.5)) * (-1 if y < 0 else 1)
    y = x * 8388608
    y = z3.If(y < -HIGH, z3.RealVal(-HIGH), z3.If(y > HIGH, z3.RealVal(HIGH), y))
    h = z3.Q(1, 2)
    return z3.If(y >= 0, z3.ToInt(y + h), -z3.ToInt(-y + h))


def pointers(I, v):
    for k, a in enumerate(v):
        I.name(a, 'given%d' % k)
    return Ptr(ElemLV(I, Arr(None, [Ptr(ElemLV(I, a, 0)) for a in v], kind='heap'), 0)) if v else Ptr(None)


# ------------------------------------------------------------------ reading

def read_frame(I, f, t, a):
    I.asked = I.rv(a[0])
    return result(I, -1 if getattr(I, 'unreadable', False) else 0)


def fill_descriptor(I, f, t, a):
    d = I.rv(a[0]) if not isinstance(a[0], LV) else a[0].get()
    d.fields['ChannelCount'], d.fields['QuantizationBits'] = I.format
    return result(I)


READING = {
    'ASDCP::PCM::MXFReader::ReadFrame': read_frame, 'ASDCP::PCM::MXFReader::FillAudioDescriptor': fill_descriptor,
    'ASDCP::FrameBuffer::RoData': lambda I, f, t, a: Ptr(ElemLV(I, I.contents, 0)), 'ASDCP::FrameBuffer::Size': lambda I, f, t, a: I.contents.size(),
    'ASDCP::PCM::FrameBuffer::FrameBuffer': lambda I, f, t, a: Lib('ASDCP::PCM::FrameBuffer'),
    'Kumu::Result_t::operator int': lambda I, f, t, a: t.v,
}
CTOR['ASDCP::PCM::FrameBuffer'] = lambda I, f, t, a: Lib('ASDCP::PCM::FrameBuffer')


def sound_frame(I, contents, channels, bits, n):
    I.contents, I.format = contents, (channels, bits)
    D = I.prog.type('dcp::CryptoContext<ASDCP::AESDecContext>')
    c = I.construct(I.prog.find('dcp::CryptoContext<ASDCP::AESDecContext>::CryptoContext', 2), D, [Opt(), I.prog.type('dcp::Standard').cs['SMPTE']])
    return I.construct(I.prog.find('dcp::SoundFrame::SoundFrame', 4), I.prog.type('dcp::SoundFrame'), [Ptr(ObjLV(Lib('ASDCP::PCM::MXFReader'))), n, SPtr(c), False])
