"""Sound samples are stored exactly, in order, in frames of the right length"""
from specs.sound import *

DRV = {'sound': Driver('sound', ['sound_asset_writer.cc', 'sound_asset.cc', 'asset_writer.cc', 'mxf.cc', 'asset.cc', 'object.cc', 'sound_frame.cc', 'fsk.cc', 'bitstream.cc', 'types.cc', 'filesystem.cc', 'exceptions.cc', 'locale_convert.cc'], ['-lboost_filesystem', '-lfmt'], partial=True)}


CONVERT = z3.Function('sample_of', z3.RealSort(), z3.IntSort())


def convert(I, f, t, a):
    """the sample of a part of full scale: a contract of its own says what it is"""
    x = I.rv(a[0])
    if not is_sym(x) or not z3.is_real(x):
        return NotImplemented
    I.P.assume(z3.And(CONVERT(x) >= LOW, CONVERT(x) <= HIGH))
    return CONVERT(x)


def write(I, w, v, dc, n, real):
    want = lambda f: f['params'][0]['t'].p.p.k == ('float' if real else 'int')
    I.call(I.prog.find('dcp::SoundAssetWriter::write', 3, want), w, [pointers(I, v), dc, n])


def expected(i, ch, real, g, frame, channel, part):
    """the byte that belongs there"""
    at = lambda a, k: a.items[k] if a.items is not None else z3.Select(a.arr, num(k))
    if not is_sym(frame):
        v = 0 if channel >= i['dc'] or (channel == 13 and g) else sample24(at(i['first'][channel], frame) if frame < i['n1'] else at(i['second'][channel], frame - i['n1']), real)
        return (v >> (8 * part)) & 255
    if g is not None and channel == 13:
        v = g(frame)
    else:
        of = CONVERT if real else lambda x: sample24(x, False)
        v = z3.If(channel < num(i['dc']), of(If(frame < i['n1'], at(i['first'][channel], frame), at(i['second'][channel], frame - i['n1'])) if twice(ch) else at(i['first'][channel], frame)), 0)
    return [v % 256, (v / 256) % 256, (v / 65536) % 256][part]


def stored(I, channel):
    """all of the sample is where it should be"""
    c = I.case
    return z3.And([z3.Select(I.stream.parts[3 * channel + k], c['frame']) == c['E'][channel][k] for k in range(3)])


def silent(I, moment, end=None):
    """nothing in the frame from some moment on"""
    g, z = I.pcm, I.case['Z']
    return z3.Implies(z3.And(z >= num(moment), 3 * I.case['ch'] * z < (num(g.base) + num(g.cap) if end is None else num(end))), z3.And([z3.Select(p, z) == 0 for p in I.stream.parts]))


def twice(ch):
    """are samples given in two lots?"""
    return ch <= 2


def run(ch, real, sync):
    def f(I, i):
        P = I.P
        sym = is_sym(i['n1'])
        for a in i['first']:
            if sym:
                a.n = i['n1']
        for a in i['second']:
            if sym:
                a.n = i['n2']
        I.case = None
        a, w = sound(I, ch, samples=i['samples'], sync=sync)
        if sym:
            frame = P.fresh_int('frame', 0, None)
            I.case = dict(ch=ch, sync=sync, before=0, Z=P.fresh_int('place', 0, None), frame=frame,
                          E=[[expected(i, ch, real, SYNC if sync else None, frame, j, k) for k in range(3)] for j in range(ch)])
            P.assume(frame < i['n1'] + i['n2'])
        write(I, w, i['first'], i['dc'], i['n1'], real)
        if twice(ch):
            if sym:
                I.case['before'] = i['n1']
            write(I, w, i['second'], i['dc'], i['n2'], real)
        I.pcm.ending = True
        r = I.rv(I.call_named('dcp::SoundAssetWriter::finalize', w, []))
        g = I.pcm
        o = {'done': I.P.branch(r), 'stored': g.count, 'duration': I.rv(I.call_named('dcp::MXF::intrinsic_duration' if 'dcp::MXF::intrinsic_duration' in I.prog.by_name else 'dcp::SoundAsset::intrinsic_duration', a, [])),
             'length': g.base, 'finished': g.log.count('finalize')}
        if not sym:
            o['bytes'] = [simp(I.stream.parts[k % (3 * ch)][k // (3 * ch)]) for k in range(g.base)]
            if sync:
                o['bytes'] = unsignalled(o['bytes'], ch)
        return o
    return f


def invariants(I, L):
    c = getattr(I, 'case', None)
    if c is None:
        return []
    g, ch = I.pcm, c['ch']
    pos = lambda: 3 * ch * (num(c['before']) + L.it)
    out = [('samples of channel %d before are stored' % j, lambda j=j: z3.Implies(c['frame'] < num(c['before']) + L.it, stored(I, j))) for j in range(ch)]
    out += [('silence after', lambda: silent(I, num(c['before']) + L.it)),
           ('no more frames than samples', lambda: And(num(g.count) >= 0, num(g.count) <= num(c['before']) + L.it))]
    if c['sync']:
        out += [('a sync sample each time', lambda: num(g.gets) == num(c['before']) + L.it), ('packets for each frame', lambda: num(g.sets) == num(g.count) + 1)]
    for q, v in L.entry.items():
        if isinstance(v, (tuple, bool)) or v is UNINIT or v is None or not (isinstance(v, int) or z3.is_int(v)):
            continue
        now = lambda q=q: num(L.now[q])
        out += [('%s is the place in the frame' % (q,), lambda now=now: And(num(g.base) + now() == pos(), now() >= 0, now() < num(g.cap), now() % (3 * ch) == 0)),
                ('%s is the sample in the frame' % (q,), lambda now=now: And(num(g.base) + 3 * ch * now() == pos(), now() >= 0, 3 * ch * now() < num(g.cap))),
                ('%s counts frames' % (q,), lambda now=now: now() == num(g.count))]
    return out


def post(ch, real, sync):
    def f(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        n = i['n1'] + i['n2']
        end, cap = 3 * ch * n, 3 * ch * i['samples']
        r = [('done', o['done']), ('finished-once', o['finished'] == 1), ('last-frame-completed', And(o['length'] >= end, o['length'] - cap < end)), ('duration-is-the-number-of-frames', eq(o['duration'], o['stored']))]
        if C.sym:
            return r + [('every-sample-in-its-place', stored(C.I, j)) for j in range(ch)] + [('silence-after-the-last', silent(C.I, n, o['length']))]
        want = [expected(i, ch, real, sync, k // (3 * ch), k // 3 % ch, k % 3) for k in range(end)]
        want += [0] * (-len(want) % cap)
        return r + [('every-sample-in-its-place', o['bytes'][:end] == want[:end]), ('silence-after-the-last', o['bytes'] == want)]
    return f


def unsignalled(b, ch):
    """without what is on the channel of the sync signal"""
    return [0 if k // 3 % ch == 13 else x for k, x in enumerate(b)]


def parse(tok, ch, sync):
    n = int(tok[5])
    if sync:
        tok = tok[:6] + unsignalled(tok[6:], ch)
    return {'done': tok[0] == '1', 'stored': int(tok[1]), 'duration': int(tok[2]), 'length': int(tok[3]), 'finished': int(tok[4]), 'bytes': [int(x) for x in tok[6:6 + n]]}


def contract(ch, real, sync=False):
    a, b = SamplesIn('first', ch, real, 'n1'), SamplesIn('second', ch, real, 'n2')

    def draw(r):
        n1, n2 = r.randint(1, 5), r.randint(1, 5) if twice(ch) else 0
        return {'n1': n1, 'n2': n2, 'first': a.draw(r, n1), 'second': b.draw(r, n2), 'samples': r.randint(1, 6), 'dc': r.randint(0, ch)}
    big = (1 << 30) - 1
    more = IntIn('n2', 1, big) if twice(ch) else ChoiceIn('n2', [0])
    return Contract('write-%s-%d%s' % ('real' if real else 'int', ch, '-sync' if sync else ''), SRC, [IntIn('n1', 1, big), more, a, b, IntIn('samples', 1, 1 << 20), IntIn('dc', 0, ch)],
                    run(ch, real, sync), post(ch, real, sync), summaries=dict(MODELS, **dict({'dcp::sound_asset_writer::convert': convert}, **(SIGNAL if sync else {}))), opts={'merge': True, 'ptr_arith_checked': False}, cut_after=1, loop_invs=[('*', invariants)], driver='sound', op='write', **({} if twice(ch) else dict(ndiff=15, bounded=800, stop_early=True, hard=45)),
                    enc=lambda i: '%d %d %d %d %d %s %s' % (real, ch, i['samples'], i['dc'], sync, a.enc(i['first']), b.enc(i['second'])), sample=draw, parse=lambda tok: parse(tok, ch, sync))


def run_one(real):
    def f(I, i):
        a, w = sound(I, 1, samples=1)
        write(I, w, [Arr(element(real), [i['x']])], 1, 1, real)
        o = {'stored': I.pcm.count}
        o['bytes'] = [simp(z3.Select(p, 0)) for p in I.stream.parts]
        return o
    return f


def post_one(real):
    def f(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        if is_sym(i['x']) and real:
            # the nearest whole number; of two as near, the one further from zero
            b = o['bytes']
            v = num(b[0]) + 256 * num(b[1]) + 65536 * num(b[2])
            r = z3.ToReal(z3.If(num(b[2]) >= 128, v - (1 << 24), v))
            y = i['x'] * (1 << 23)
            y = z3.If(y < -HIGH, z3.RealVal(-HIGH), z3.If(y > HIGH, z3.RealVal(HIGH), y))
            h = z3.Q(1, 2)
            return [('one-frame', eq(o['stored'], 1)), ('bytes', z3.And([z3.And(num(x) >= 0, num(x) <= 255) for x in b])), ('nearest-sample', z3.If(y >= 0, z3.And(r > y - h, r <= y + h), z3.And(r >= y - h, r < y + h)))]
        v = sample24(i['x'], real)
        want = [v & 255, (v >> 8) & 255, (v >> 16) & 255] if not is_sym(v) else [v % 256, (v / 256) % 256, (v / 65536) % 256]
        return [('one-frame', eq(o['stored'], 1))] + [('byte-%d' % k, eq(o['bytes'][k], want[k])) for k in range(3)]
    return f


REFUSED = ['no samples', 'fewer than none', 'too many channels', 'after the end', 'ended twice', 'open', 'write', 'finalize']


def run_refused(I, i):
    case = REFUSED[i['case']]
    a, w = sound(I, 2, samples=2, failing=case if case in ('open', 'write', 'finalize') else None)
    give = lambda n, dc=2: write(I, w, [Arr(element(False), [i['x']] * 3), Arr(element(False), [i['x']] * 3)] + ([Arr(element(False), [0] * 3)] if dc == 3 else []), dc, n, False)
    end = lambda: I.call_named('dcp::SoundAssetWriter::finalize', w, [])
    give({'no samples': 0, 'fewer than none': i['n']}.get(case, 1), 3 if case == 'too many channels' else 2)
    end()
    if case == 'after the end':
        give(1)
    elif case == 'ended twice':
        end()
    return {}


def run_nothing(I, i):
    a, w = sound(I, 2, samples=2)
    r = I.P.branch(I.rv(I.call_named('dcp::SoundAssetWriter::finalize', w, [])))
    return {'done': r, 'stored': I.pcm.count, 'opened': I.pcm.log.count('open'), 'duration': I.rv(I.call_named('dcp::SoundAsset::intrinsic_duration', a, []))}


def run_read(bits):
    def f(I, i):
        s = sound_frame(I, i['contents'], i['channels'], bits, i['n'])
        return {'asked': I.asked, 'value': I.rv(I.call_named('dcp::SoundFrame::get', s, [i['channel'], i['moment']])), 'samples': I.rv(I.call_named('dcp::SoundFrame::samples', s, [])),
                'channels': I.rv(I.call_named('dcp::SoundFrame::channels', s, [])), 'bits': I.rv(I.call_named('dcp::SoundFrame::bits', s, [])), 'size': I.rv(I.call_named('%s::size' % FRAME, s, []))}
    return f


FRAME = 'dcp::Frame<ASDCP::PCM::MXFReader, ASDCP::PCM::FrameBuffer>'


def pre_read(bits):
    w = bits // 8
    return lambda C, i: And(i['channel'] < i['channels'], (i['moment'] + 1) * i['channels'] * w <= C.len(i['contents']))


def post_read(bits):
    w = bits // 8

    def f(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        at = (i['moment'] * i['channels'] + i['channel']) * w
        b = [C.at(i['contents'], simp(at + k)) for k in range(w)]
        v = sum(x << (8 * k) if not is_sym(x) else x * (1 << (8 * k)) for k, x in enumerate(b))
        n = C.len(i['contents'])
        return [('sample-with-its-sign', eq(o['value'], If(v >= 1 << (bits - 1), v - (1 << bits), v))), ('samples', And(o['samples'] * i['channels'] * w <= n, (o['samples'] + 1) * i['channels'] * w > n)),
                ('frame-asked-for', eq(o['asked'], i['n'])), ('format', And(eq(o['channels'], i['channels']), eq(o['bits'], bits), eq(o['size'], n)))]
    return f


def bounded_bytes(C, i):
    k = z3.Int('anybyte')
    return z3.ForAll([k], z3.And(z3.Select(i['contents'].arr, k) >= 0, z3.Select(i['contents'].arr, k) <= 255))


def read(bits):
    ins = [ArrIn('contents', 0, 255, maxlen=1 << 24, smax=40, pts=[127, 128, 255]), ChoiceIn('channels', range(1, 17)), IntIn('channel', 0, 15), IntIn('moment', 0, 1 << 22), IntIn('n', 0, (1 << 31) - 1)]

    def draw(r):
        ch, m = r.randint(1, 4), r.randint(1, 4)
        return {'contents': Arr(vast._types['unsigned char'], [r.choice([0, 1, 127, 128, 255, r.randint(0, 255)]) for _ in range(m * ch * (bits // 8) + r.randint(0, 1))]), 'channels': ch, 'channel': r.randrange(ch), 'moment': r.randrange(m), 'n': r.randint(0, 99)}
    return Contract('read-%d' % bits, SRC, ins, run_read(bits), post_read(bits), pre=pre_read(bits), summaries=READING, driver='sound', op='read', sample=draw,
                    enc=lambda i: '%d %d %d %d %d %s' % (bits, i['channels'], i['channel'], i['moment'], i['n'], ArrIn('', 0, 255).enc(i['contents'])),
                    outs=[('asked', 'int'), ('value', 'int'), ('samples', 'int'), ('channels', 'int'), ('bits', 'int'), ('size', 'int')])


def one(real):
    x = RealIn('x', -4, 4, [0, 1, -1, 2.0 ** -24, -2.0 ** -24, 1.5 * 2.0 ** -23, 0.5, 1 - 2.0 ** -23, -1 + 2.0 ** -23]) if real else IntIn('x', -(1 << 31), (1 << 31) - 1, [0, -1, LOW, HIGH, LOW - 1, HIGH + 1, 256, 65536])
    return Contract('one-sample-' + ('real' if real else 'int'), SRC, [x], run_one(real), post_one(real), summaries=MODELS, driver='sound', op='one', enc=lambda i: '%d %s' % (real, x.enc(i['x'])),
                    outs=[('stored', 'int'), ('bytes', 'ints')], sample=(lambda r: {'x': r.choice(x.pts) if r.random() < 0.4 else r.randint(-(1 << 24), 1 << 24) / float(1 << 24)}) if real else None)


contracts = [one(False), one(True)] + [contract(ch, False) for ch in range(1, 17)] + [contract(ch, True) for ch in (1, 2, 6, 16)] + [
    Contract('refusals', SRC, [ChoiceIn('case', range(len(REFUSED))), IntIn('x', LOW, HIGH), IntIn('n', -(1 << 31), -1)], run_refused, lambda C, i, o: [('refused', o['exc'] is not None)], summaries=MODELS, driver='sound', op='refused'),
    Contract('nothing-written', SRC, [IntIn('x', 0, 1)], run_nothing, lambda C, i, o: [('no-exception', o['exc'] is None), ('nothing-done', lambda: And(not o['done'], eq(o['stored'], 0), eq(o['opened'], 0), eq(o['duration'], 0)))],
             summaries=MODELS, driver='sound', op='nothing', outs=[('done', 'bool'), ('stored', 'int'), ('opened', 'int'), ('duration', 'int')]),
    read(24), read(16)]
SPEC = Spec('P26', contracts, DRV, ['the library which stores frames takes the bytes of the buffer it is given, and hands back the bytes of the frame asked for', 'floating-point samples are treated as real numbers', 'exception objects are opaque'])
