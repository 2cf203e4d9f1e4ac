"""C03 executable contract: typed values survive encode/decode, other bytes raise ValueError."""
import struct
from common import *   # noqa
from katcp import kattypes as K

RULE = ('every type with edge values and random ones, majors 4..6, through pack/unpack; mutated and random byte strings '
        'compared with an independent reading of what they denote')
BOUNDS = 'integers up to 2**200, random floats over the whole range, texts and byte strings of up to 24 characters'
FUNCTIONS = ['kattypes.*.pack', 'kattypes.*.unpack']
CH = ['one', 'Two', u'f\u00fcnf', 'three-3']
MV = ['b', 'A', 'c', 'd d']
TYPES = {'Int': lambda: K.Int(), 'Float': lambda: K.Float(), 'Bool': lambda: K.Bool(), 'Str': lambda: K.Str(),
         'Discrete': lambda: K.Discrete(CH), 'DiscreteCI': lambda: K.Discrete(CH, case_insensitive=True),
         'Multi': lambda: K.DiscreteMulti(MV), 'MultiBar': lambda: K.DiscreteMulti(MV, separator='|', all_keyword='*'),
         'Lru': lambda: K.Lru(), 'Address': lambda: K.Address(), 'Timestamp': lambda: K.Timestamp(),
         'TimestampOrNow': lambda: K.TimestampOrNow(), 'Strict': lambda: K.StrictTimestamp(),
         'Struct': lambda: K.Struct('>iBd3s'), 'Regex': lambda: K.Regex('')}
NOW = '<now>'
FLOATS = [0.0, -0.0, 1.0, -1.5, 1e-5, 1e16, 1e22, 123456789.123456789, 5e-324, 1.7976931348623157e308, 0.1, 1e-7,
          float('inf'), float('-inf'), 1e15, 1e17, 12345678901234567890.0]


def rnd_float(r):
    return struct.unpack('>d', struct.pack('>Q', r.getrandbits(64)))[0]


def cases(h):
    r = h.rng
    vals = []
    for v in [0, -1, 1, 10 ** 18, -10 ** 40, 2 ** 64, 2 ** 200]:
        vals.append(('Int', v))
    for v in FLOATS:
        vals.append(('Float', v))
    for v in (True, False):
        vals.append(('Bool', v))
    for v in ['', 'a', ' ', u'\u00e9\U0001f600', 'a\nb', '\\_', '\0', 'x' * 300, b'abc', u'\xc3\xa9'.encode('utf8'), 'None', '\ufeffa',
              '\r\n', '@']:
        vals.append(('Str', v))
        vals.append(('Regex', v if isinstance(v, str) else 'r'))
    for v in CH:
        vals.append(('Discrete', v))
        vals.append(('DiscreteCI', v.upper()))
        vals.append(('DiscreteCI', v))
    import itertools
    for n in range(5):
        for c in itertools.permutations(MV, n):
            vals.append(('Multi', list(c)))
            vals.append(('MultiBar', list(c)))
    for v in (0, 1):
        vals.append(('Lru', v))
    for hst in ['0.0.0.0', '', 'host.name', 'fe80::1', '::', 'fe80::1%eth0', '[x', 'a]b:c', 'a]:7', 'x y', 'a-b_c']:
        if hst == '[x':
            continue
        for port in (None, 0, 1, 80, 65535):
            vals.append(('Address', (hst, port)))
    for v in [0.0, 1.0, 1e9, 1234567890.123456, 1.5e-3, 1e-6, 4102444800.999999, 0.0005, 5, 1700000000]:
        vals += [('Timestamp', v), ('TimestampOrNow', v)]
    vals.append(('TimestampOrNow', NOW))
    for v in [0.0, 1.0, 1e-5, 1e16, 5e-324, 1.7976931348623157e308, 0.1, 1e-7, 12345.6789, 3, 10 ** 20]:
        vals.append(('Strict', v))
    for v in [(0, 0, 0.0, b'abc'), (-2 ** 31, 255, 1e300, b'\0\xff ')]:
        vals.append(('Struct', v))
    for tv in vals:
        for m in (4, 5, 6):
            yield 'round', tv + (m,)
    alpha = [u'a', u'b', u' ', u'\n', u'\u00e9', u'\U0001f600', u',', u':', u'[', u']', u'\\', u'0']
    for i in range(h.n(400, 30000)):
        m = r.choice([4, 5, 5, 6])
        yield 'round', ('Int', r.choice([1, -1]) * r.getrandbits(r.randrange(1, 200)), m)
        v = rnd_float(r)
        if v == v:
            yield 'round', ('Float', v, m)
            if 0 <= v < float('inf'):
                yield 'round', ('Strict', v, m)
        yield 'round', ('Timestamp', round(r.uniform(0, 4e9), r.randrange(0, 8)), m)
        yield 'round', ('Str', u''.join(r.choice(alpha) for _ in range(r.randrange(0, 12))), m)
        yield 'round', ('Address', ('%d.%d.%d.%d' % tuple(r.randrange(256) for _ in range(4)), r.choice([None, r.randrange(65536)])), m)
        yield 'round', ('Struct', (r.randrange(-2 ** 31, 2 ** 31), r.randrange(256), r.random(), bytes(bytearray(r.randrange(256) for _ in range(3)))), m)
    toks = [b'0', b'1', b'7', b'-', b'+', b'.', b'e', b'nan', b'inf', b' ', b'_', b'a', b'\xff', b'\xc3\xa9', b',', b':', b'[', b']',
            b'\n', b'\0', b'nominal', b'error', b'now', b'all', b'one', b'Two', b'b', b'A', b'c', b'x', b'E', b'']
    base = [b'0', b'1', b'-5', b'1.5', b'1e5', b'one', b'b,A', b'nominal', b'1.2.3.4:80', b'[::1]:80', b'[::1]', b'now', b'', b'abc',
            b'10.250', b'b|A', b'127.0.0.1']
    for name in sorted(TYPES):
        for b in base + toks + [b'0 ', b' 1', b'01', b'00', b'true', b'2', b'[::1]80', b'host:', b'host:x', b'[a]b', b':80', b'h:80\n',
                                b'\xff', b'h\xc3\xa9', b'1..2', b'1.-2', b'1.2.3', b'.5', b'5.', b'-1.0', b'b,', b'b,,A', b'one\n', b'ONE', b'NaN']:
            yield 'decode', (name, b, 5)
            yield 'decode', (name, b, 4)
        for i in range(h.n(60, 6000)):
            b = b''.join(r.choice(toks) for _ in range(r.randrange(0, 5))) if r.random() < .5 else r.choice(base)
            if r.random() < .5 and b:
                k = r.randrange(len(b) + 1)
                b = b[:k] + r.choice(toks) + b[k + r.randrange(0, 2):]
            yield 'decode', (name, b, r.choice([4, 5, 6]))


def same(name, v, w, major):
    if name in ('Timestamp', 'TimestampOrNow'):
        if v is K.TimestampOrNow.NOW:
            return w is v
        return isinstance(w, float) and abs(v - w) <= (1.0e-3 if major < 5 else 1e-6) + abs(v) * 1e-15
    if name == 'Bool':
        return w is v
    if name in ('Float', 'Strict'):
        return isinstance(w, float) and w == float(v) and str(w)[0] == str(float(v))[0]
    if name in ('Multi', 'MultiBar'):
        return isinstance(w, list) and sorted(w) == sorted(v)
    if name == 'Str' and isinstance(v, bytes):
        return w == v.decode('utf8')
    return type(w) is type(v) and w == v


def case_round(h, p):
    name, v, major = p
    if v == NOW:
        v = K.TimestampOrNow.NOW
    T = TYPES[name]()
    try:
        b = T.pack(v, major=major)
    except Exception as e:
        h.check('a value of the type is packed', False, '%r %r' % (p, e))
    h.check('packed to bytes', type(b) is bytes, p)
    try:
        w = T.unpack(b, major)
    except Exception as e:
        h.check('the packed value unpacks', False, '%r %r %r' % (p, b, e))
    h.nontrivial((name, repr(v)[:40], major))
    h.check('an equal value comes back', same(name, v, w, major), '%r -> %r -> %r' % (p, b, w))
    other = 4 if major > 4 else 5
    if name in ('Timestamp', 'TimestampOrNow') and v is not K.TimestampOrNow.NOW and abs(v) > 1:
        h.check('the unit follows the version', not same(name, v, T.unpack(b, other), 4), p)


def denotes(name, b, major):
    """independent reading: ('ok', value) | ('bad',) | ('any',) where the library documentation leaves it open."""
    import re
    if name == 'Int':
        if re.match(br'[-+]?[0-9]+\Z', b):
            return 'ok', int(b.decode())
        if re.match(br'\s*[-+]?[0-9_]+\s*\Z', b):
            return ('any',)
        return ('bad',)
    if name in ('Float', 'Timestamp', 'TimestampOrNow', 'Strict'):
        if name == 'TimestampOrNow' and b == b'now':
            return 'ok', K.TimestampOrNow.NOW
        try:
            f = float(b.decode('ascii')) if re.match(br'[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?\Z', b) else None
        except ValueError:
            f = None
        if f is None:
            return ('any',) if re.match(br'[\s_0-9.eE+-]*\Z|\s*[-+]?(inf|nan)', b, re.I) else ('bad',)
        if name == 'Strict':
            if f < 0:
                return ('bad',)
            return ('ok', f) if re.match(br'[0-9]+(\.[0-9]+)?\Z', b) else ('any',)
        if name in ('Timestamp', 'TimestampOrNow') and major < 5:
            return 'ms', f
        return 'ok', f
    if name == 'Bool':
        return ('ok', b == b'1') if b in (b'0', b'1') else ('bad',)
    if name == 'Lru':
        return ('ok', {b'nominal': 0, b'error': 1}[b]) if b in (b'nominal', b'error') else ('bad',)
    if name == 'Struct':
        return ('ok', struct.unpack('>iBd3s', b)) if len(b) == 16 else ('bad',)
    if name == 'Address':
        if b.startswith(b'['):
            m = re.match(br'\[([^\[\]]*)\](?::([0-9]+))?\Z', b)
            if m is None and b.count(b']') > 1:
                return ('any',)
        else:
            m = re.match(br'([^:]*)(?::([0-9]+))?\Z', b)
        if m is None:
            return ('bad',)
        try:
            hst = m.group(1).decode('ascii')
        except UnicodeDecodeError:
            return ('bad',)
        return 'ok', (hst, None if m.group(2) is None else int(m.group(2)))
    try:
        s = b.decode('utf8')
    except UnicodeDecodeError:
        return ('bad',)
    if name in ('Str', 'Regex'):
        return 'ok', s
    if name == 'Discrete':
        return ('ok', s) if s in CH else ('bad',)
    if name == 'DiscreteCI':
        return ('ok', s) if s.lower() in [c.lower() for c in CH] else ('bad',)
    sep, al = (',', 'all') if name == 'Multi' else ('|', '*')
    if s == al:
        return 'ok', list(MV)
    if s == '':
        return 'ok', []
    parts = s.split(sep)
    if all(x in MV for x in parts):
        return 'ok', parts
    if all(x.strip() in MV for x in parts):
        return ('any',)
    return ('bad',)


def case_decode(h, p):
    name, b, major = p
    T = TYPES[name]()
    d = denotes(name, b, major)
    try:
        w = T.unpack(b, major)
    except ValueError:
        h.check('bytes that encode a value are not refused', d[0] in ('bad', 'any'), p)
        return
    except Exception as e:
        h.check('refusal is a ValueError', False, '%r %r' % (p, e))
    h.check('bytes that do not encode a value are refused', d[0] != 'bad', '%r -> %r' % (p, w))
    if d[0] == 'ok':
        h.nontrivial((name, b, major))
        h.check('the value the bytes denote', w == d[1] if name not in ('Multi', 'MultiBar') else sorted(w) == sorted(d[1]),
                '%r -> %r, expected %r' % (p, w, d[1]))
    elif d[0] == 'ms':
        h.check('milliseconds', abs(w - d[1] / 1000.) <= abs(d[1]) * 1e-12, '%r -> %r' % (p, w))


def from_witness(h, w):
    import itertools
    for name in TYPES:
        for k, v in w.items() if isinstance(w, dict) else []:
            if isinstance(v, bytes):
                yield 'decode', (name, v, 5)
                yield 'decode', (name, v, 4)
