"""The sync signal names the asset and the frame"""
from specs import p26
from specs.p26 import *

DRV = {'sound': p26.DRV['sound']}
# frames each second: code, packets in each frame, and padding at the end of each packet
TABLE = {24: (0, 4, 25), 25: (1, 4, 20), 30: (2, 4, 0), 48: (3, 2, 25), 50: (4, 2, 20), 60: (5, 2, 0), 96: (6, 1, 25), 100: (7, 1, 20), 120: (8, 1, 0)}


def number(i):
    """of the frame whose packets are looked at: one of the first five, or any later one"""
    return i['k'] + 5 if i['k'] < 0 else 5 + i['k'] + 4 * i['m']


def counts(o):
    """the values of all plain members"""
    return {k: v for k, v in o.fields.items() if isinstance(v, (int, bool)) or is_sym(v)}


def run_packets(rate):
    def f(I, i):
        I.uuid, I.crcs = i['id'], []
        a, w = sound(I, 14, rate=(rate, 1), sync=True, samples=1)
        I.pcm.ending = True         # what is given here is not a frame's worth
        give = lambda: write(I, w, [], 0, 1, False)
        states = [counts(w)]

        def frame():
            del I.crcs[:]
            give()
            states.append(counts(w))
        if i['k'] < 0:
            for _ in range(i['k'] + 5):
                frame()
        else:
            for _ in range(8):
                frame()
            names = [k for k in states[0] if all(not is_sym(s[k]) and type(s[k]) is int and s[k] == n for n, s in enumerate(states))]
            if len(names) != 1:
                raise Unsupported('no counter of frames')
            n = names[0]
            I.P.oblige('packets-recur', all(states[k][x] == states[k + 4][x] for k in range(1, 5) for x in states[0] if x != n), 'post')
            w.fields[n] = states[4][n] + 4 * i['m'] if not is_sym(i['m']) else 4 + 4 * i['m']
            for x in states[4]:
                if x != n:
                    w.fields[x] = states[4][x]
            for _ in range(i['k'] + 1):
                del I.crcs[:]
                give()
        o = {'bits': I.pcm.data.items}
        if not is_sym(i['id'].items[0]):
            o['bits'] = [int(bool(b)) for b in o['bits']]
        return o
    return f


def bit(v, k):
    return bool((v >> k) & 1) if not is_sym(v) else eq(fmod(fdiv(v, 1 << k), 2), 1)


def bits(v, n):
    return [bit(v, k) for k in range(n - 1, -1, -1)]


def post_packets(rate):
    code, packets, padding = TABLE[rate]

    def f(C, i, o):
        if o['exc'] is not None:
            return [('no-exception', False)]
        n = number(i)
        phase = (i['k'] + 5) % 4 * packets
        want, r = [], []
        if C.sym and len(C.I.crcs) != packets:
            return [('a-checksum-in-each-packet', False)]
        for p in range(packets):
            x = (phase + p) % 4
            covered = bits(code, 4) + bits(0, 2) + bits(x, 2)
            for k in range(4):
                covered += bits(i['id'].items[4 * x + k], 8)
            covered += bits(n, 24)
            if C.sym:
                poly, fed, value = C.I.crcs[p]
                r.append(('checksum-of-the-packet', And(eq(poly, 0x1021), len(fed) == len(covered)) if len(fed) != len(covered) else And(eq(poly, 0x1021), *[Iff(a, b) for a, b in zip(fed, covered)])))
            else:
                value = crc16(0x1021, covered)
            want += bits(0x4d56, 16) + covered + bits(value, 16) + bits(0, 4 + padding)
        r.append(('as-long-as-the-frame', len(o['bits']) == len(want) == 12000 // rate))
        if len(o['bits']) == len(want):
            for p in range(packets):
                s = slice(p * len(want) // packets, (p + 1) * len(want) // packets)
                r.append(('packet', And([Iff(bool(a) if not is_sym(a) else a, b) for a, b in zip(o['bits'][s], want[s])])))
        return r
    return f


def packets(rate):
    def enc(i):
        return '%d %d %s' % (rate, number(i), ' '.join(str(x) for x in i['id'].items))
    return Contract('packets-%d' % rate, SRC, [FixArrIn('id', 16, 0, 255), ChoiceIn('k', range(-5, 4)), IntIn('m', 0, (1 << 29) - 10, [0, 1, 64, 16384, (1 << 22) - 2, (1 << 22) + 3])], run_packets(rate), post_packets(rate),
                    summaries=dict(MODELS, **dict(PACKETS, **{'dcp::FSK::get': next_sample})), driver='sound', op='packets', nsamples=100, bounded=1000, ndiff=8, enc=enc, outs=[('bits', 'ints')])


def run_refused(I, i):
    case = i['case']
    sound(I, 14 if case != 1 else i['ch'], rate=(24, 1), sync=True, samples=1, frequency=48000 if case != 0 else i['f'], standard='SMPTE' if case != 2 else 'INTEROP')
    return {}


contracts = [packets(r) for r in RATES] + [contract(ch, real, True) for ch, real in ((14, False), (16, False), (14, True))] + [
    Contract('refusals', SRC, [ChoiceIn('case', [0, 1, 2]), ChoiceIn('f', [96000, 44100]), ChoiceIn('ch', range(1, 14))], run_refused, lambda C, i, o: [('refused', o['exc'] is not None)],
             summaries=dict(MODELS, **dict(PACKETS, **{'dcp::FSK::get': next_sample})), driver='sound', op='refusedsync')]
SPEC = Spec('P27', contracts, DRV, ['the library which stores frames takes the bytes of the buffer it is given', 'the samples which carry a bit are the subject of another property', 'boost::crc_basic computes the CRC of the bits it is fed (compared with a bitwise CRC each run)', 'exception objects are opaque'])
