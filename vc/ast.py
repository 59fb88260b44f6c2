"""Runs the extractor over the real sources and links the functions it emits."""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class ExtractError(Exception):
    pass


_flags = None


def flags():
    global _flags
    if _flags is None:
        pk = subprocess.run(['pkg-config', '--cflags', 'openssl', 'libxml++-2.6', 'xmlsec1-openssl', 'sndfile', 'libopenjp2',
                             'xerces-c', 'fmt', 'libavcodec', 'libavutil'], capture_output=True, text=True).stdout.split()
        pk = [x for x in pk if not x.startswith('-DXMLSEC_CRYPTO=')]
        _flags = ['-std=c++11', '-w', '-D_FILE_OFFSET_BITS=64', '-D__STDC_FORMAT_MACROS', '-DLIBDCP_VERSION="devel"', '-DLIBDCP_LINUX', '-DLIBDCP_MPEG2_TRANSCODE',
                  '-DLIBDCP_HAVE_NO_CHECK_TIME=1', '-DLIBDCP_HAVE_WEAKLY_CANONICAL=1', '-DLIBDCP_HAVE_COPY_OPTIONS=1',
                  '-DLIBDCP_HAVE_REPLACE_EXTENSION=1', '-DLIBDCP_HAVE_HARU=1', '-I%s/src' % REPO, '-I%s/stubs' % VERIF] + pk
    return _flags


def ensure_tool():
    r = subprocess.run([VERIF + '/tool/build.sh'], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('extractor does not build: ' + r.stderr[-2000:])


class Type:
    __slots__ = ('k', 'w', 's', 'n', 'p', 'cnt', 'a', 'r', 'cs', 'rv', 'key', 'c')

    def __repr__(self):
        return self.key

    @property
    def isint(self):
        return self.k in ('int', 'enum')

    @property
    def lo(self):
        return -(1 << (self.w - 1)) if self.s else 0

    @property
    def hi(self):
        return (1 << (self.w - 1)) - 1 if self.s else (1 << self.w) - 1


_types = {}


def strip_targs(n):
    """std::vector<a, b<c>>::size -> std::vector::size (operators <, <<, -> etc. kept)"""
    m = re.search(r'operator\s*(<=|<<|>>|->\*?|<|>=|>)', n)
    tail = ''
    if m:
        # an operator name containing angle brackets: split it off at its last occurrence at depth 0
        i = n.rfind('operator' + m.group(0)[8:])
        tail, n = n[i:], n[:i]
        tail = re.sub(r'^(operator\s*(?:<=|<<|>>|->\*?|<|>=|>)).*$', r'\1', tail)
    else:
        m = re.search(r'::operator [^:]', n)
        if m and n.rfind('operator ') > 0:
            i = n.find('::operator ')
            head, conv = n[:i], n[i:]
            return strip_targs(head) + conv
    out = []
    d = 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out) + tail


class Func:
    pass


class Program:
    """All extracted translation units, linked"""

    def __init__(self, sources):
        ensure_tool()
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.by_name = {}
        self.sources = sources
        self._mt = {}

        def run(s):
            p = subprocess.run([VERIF + '/build/astx', '%s/src/%s' % (REPO, s) if not s.startswith('/') else s, REPO + '/src/', '--'] + flags() +
                               ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18'], capture_output=True, text=True, cwd='/')
            if p.returncode or not p.stdout.strip():
                raise ExtractError('%s: %s' % (s, p.stderr[-3000:]))
            return json.loads(p.stdout)
        with ThreadPoolExecutor(8) as ex:
            tus = list(ex.map(run, sources))
        for tu, s in zip(tus, sources):
            self._load(tu, s)

    def _load(self, tu, src):
        raw = tu['types']
        T = [None] * len(raw)

        def get(i):
            if T[i] is not None:
                return T[i]
            o = raw[i]
            k = o['k']
            if k == 'ref':
                key = get(o['p']).key + ('&&' if o['rv'] else '&')
            elif k == 'ptr':
                key = get(o['p']).key + '*'
            elif k == 'array':
                key = '%s[%d]' % (get(o['e']).key, o['n'])
            elif k in ('enum', 'other'):
                key = o['n']
            elif k == 'rec':
                key = o['n']
                if 'a' in o:
                    key += '<' + ','.join(get(x).key if isinstance(x, int) else x for x in o['a']) + '>'
            elif k == 'int':
                key = o['n']
            elif k == 'float':
                key = 'float%d' % o['w']
            elif k == 'func':
                key = get(o['r']).key + '(' + ','.join(get(x).key for x in o['ps']) + ')'
            elif k == 'mptr':
                key = get(o['p']).key + ' mptr'
            else:
                key = k
            t = _types.get(key)
            if t is None:
                t = Type()
                t.key = key
                t.k = k
                t.w = o.get('w')
                t.s = o.get('s')
                t.n = o.get('n') if k != 'array' else None
                t.cnt = o.get('n') if k == 'array' else None
                t.rv = o.get('rv')
                t.c = o.get('c')
                t.p = None
                t.a = None
                t.r = None
                t.cs = dict((a, int(b)) for a, b in o.get('cs', []))
                _types[key] = t
                T[i] = t
                if k in ('ref', 'ptr', 'mptr'):
                    t.p = get(o['p'])
                elif k == 'array':
                    t.p = get(o['e'])
                elif k == 'func':
                    t.r = get(o['r'])
                    t.a = [get(x) for x in o['ps']]
                if k == 'rec' and 'a' in o:
                    t.a = [get(x) if isinstance(x, int) else x for x in o['a']]
            if k == 'rec' and 'r' in o:
                t.r = o['r']
            if k == 'enum' and o.get('cs') and not t.cs:
                t.cs = dict((a, int(b)) for a, b in o.get('cs', []))
            T[i] = t
            return t
        for i in range(len(raw)):
            get(i)
        varmap = {}
        for v in tu['vars']:
            varmap[v['id']] = v

        def fix(x):
            if isinstance(x, dict):
                for f in ('t', 'ct', 'lt', 'at', 'ret', 'bt'):
                    if f in x and isinstance(x[f], int) and not isinstance(x[f], bool):
                        x[f] = T[x[f]]
                if 'k' in x and x['k'] == 'var' and x.get('g'):
                    x['gk'] = varmap[x['id']]['key']
                if x.get('k') == 'decl':
                    for d in x['ds']:
                        if d.get('static'):
                            d['gk'] = varmap[d['id']]['key']
                if 'path' in x:
                    x['path'] = [T[i] for i in x['path']]
                if 'ta' in x:
                    x['ta'] = [T[i] if isinstance(i, int) else i for i in x['ta']]
                if 'base' in x and isinstance(x['base'], int):
                    x['base'] = T[x['base']]
                if 'cls' in x and isinstance(x['cls'], int):
                    x['cls'] = T[x['cls']]
                if 'bases' in x:
                    x['bases'] = [T[i] for i in x['bases']]
                if x.get('k') == 'int' and isinstance(x.get('v'), str):
                    x['v'] = int(x['v'])
                    if x['t'].k == 'bool':
                        x['v'] = bool(x['v'])
                if x.get('k') == 'flt' and isinstance(x.get('v'), str):
                    x['v'] = float.fromhex(x['v'])
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        fix(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        fix(v)
        for part in ('functions', 'records', 'vars'):
            fix(tu[part])
        for f in tu['functions']:
            f['sn'] = strip_targs(f['n'])
            f['tu'] = src
            old = self.functions.get(f['key'])
            if old is None or (old.get('body') is None and f.get('body') is not None):
                self.functions[f['key']] = f
        for r in tu['records']:
            if r['key'] not in self.records:
                r['fd'] = dict((x['n'], x) for x in r['fields'])
                self.records[r['key']] = r
        for v in tu['vars']:
            old = self.globals.get(v['key'])
            if old is None or ('init' not in old and 'init' in v):
                self.globals[v['key']] = v

    def finish(self):
        self.by_name = {}
        for f in self.functions.values():
            if f.get('body') is not None:
                self.by_name.setdefault(f['n'], []).append(f)
        return self

    def find(self, name, nparams=None, pick=None):
        if not self.by_name:
            self.finish()
        c = self.by_name.get(name, [])
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if pick is not None:
            c = [f for f in c if pick(f)]
        if not c:
            raise ExtractError('no definition of %s' % name)
        if len(c) > 1:
            raise ExtractError('%s is ambiguous: %s' % (name, [x['key'] for x in c]))
        return c[0]

    def rec(self, t):
        return self.records.get(t.r) if t.r else None

    def type(self, key):
        return _types[key]
