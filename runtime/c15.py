"""C15 executable contract: ProtocolFlags on concrete versions and strings."""
import re
from common import *   # noqa
from katcp.core import ProtocolFlags

RULE = ('every major 0..7, minor 0..3, every subset of M,I,T,B plus other flag characters; '
        'mutated and random version strings')
BOUNDS = 'majors 0..12, minors 0..12, flag sets of up to 8 characters, strings of up to 16 bytes'
FUNCTIONS = ['core.ProtocolFlags']
V4 = {b'none', b'auto', b'period', b'event', b'differential'}
V5 = V4 | {b'event-rate', b'differential-rate'}


def legal(major, minor, flags):
    v51 = (major, minor) >= (5, 1)
    return (b'I' not in flags or major >= 5) and (not flags & {b'T', b'B'} or v51)


def cases(h):
    import itertools
    for major in range(0, 8):
        for minor in range(0, 3):
            for k in range(16):
                fl = [c for i, c in enumerate([b'M', b'I', b'T', b'B']) if k >> i & 1]
                yield 'flags', (major, minor, fl + ([b'x'] if (major + k) % 3 == 0 else []))
    for i in range(h.n(300, 20000)):
        r = h.rng
        fl = list({bytes([r.randrange(33, 127)]) for _ in range(r.randrange(0, 8))} |
                  {r.choice([b'M', b'I', b'T', b'B']) for _ in range(r.randrange(0, 3))})
        yield 'flags', (r.choice([4, 5, 6, 5, 12, 10]), r.randrange(0, 12), fl)
    alpha = [b'5', b'4', b'0', b'1', b'.', b'-', b'M', b'I', b'T', b'B', b' ', b'\n', b'x', b'\xff', b'\xc3\xa9']
    base = [b'5.0-MI', b'5.1-MIBT', b'4.0-M', b'5.0', b'5', b'', b'.', b'5.', b'.5', b'5.0-', b'-', b'5.0M',
            b'5.0-\n', b'5.0-M\n', b'4.0-I', b'5.0-T', b' 5.0', b'5.0 ', b'a5.0', b'+5.0', b'5.0--', b'5.1-\xff']
    for b in base:
        yield 'parse', b
    for i in range(h.n(600, 40000)):
        if h.rng.random() < .5:
            b = b''.join(h.rng.choice(alpha) for _ in range(h.rng.randrange(0, 9)))
        else:
            b = bytearray(h.rng.choice(base))
            for _ in range(h.rng.randrange(1, 3)):
                k = h.rng.randrange(0, len(b) + 1)
                b[k:k + h.rng.randrange(0, 2)] = h.rng.choice(alpha)
            b = bytes(b)
        yield 'parse', b


def case_flags(h, p):
    major, minor, fl = p
    fs = set(fl)
    try:
        v = ProtocolFlags(major, minor, fl)
    except ValueError:
        h.check('only undefined flags are refused', not legal(major, minor, fs), p)
        return
    except Exception as e:
        h.check('refusal is ValueError', False, '%r %r' % (p, e))
    h.check('undefined flag refused', legal(major, minor, fs), p)
    h.nontrivial((major, minor, len(fs)))
    for attr, c in (('multi_client', b'M'), ('message_ids', b'I'), ('request_timeout_hints', b'T'),
                    ('bulk_set_sensor_sampling', b'B')):
        h.check('feature iff flag', bool(getattr(v, attr)) == (c in fs), (p, attr))
    for c in [bytes([i]) for i in range(33, 127)]:
        h.check('supports iff flag', bool(v.supports(c)) == (c in fs), (p, c))
    if major in (4, 5):
        for s in V5 | {b'', b'auto ', b'Auto', b'xx'}:
            h.check('strategies by major', v.strategy_allowed(s) == (s in (V4 if major == 4 else V5)), (p, s))
    try:
        s = str(v)
        w = ProtocolFlags.parse_version(s.encode('ascii'))
    except Exception as e:
        h.check('round trip raises', False, '%r %r' % (p, e))
    h.check('round trip equal', w == v and not (w != v), (p, s))
    h.check('round trip fields', (w.major, w.minor, w.flags) == (major, minor, fs), (p, s))
    h.check('text form', re.match(r'%d\.%d(-.*)?\Z' % (major, minor), s), (p, s))
    for o in (ProtocolFlags(major + 1, 7, [b'M']), ProtocolFlags(major, minor + 1, [c for c in fs if legal(major, minor+1, {c})])):
        if (o.major, o.minor, o.flags) != (v.major, v.minor, v.flags):
            h.check('different flags are unequal', not (o == v) and o != v, p)


def case_parse(h, b):
    m = re.match(br'([0-9]+)\.([0-9]+)(?:-([^\n]*))?\n?\Z', b)
    try:
        v = ProtocolFlags.parse_version(b)
    except ValueError:
        h.check('refused only for an undefined flag', m and not legal(int(m.group(1)), int(m.group(2)),
                set(bytes([c]) for c in (m.group(3) or b''))), b)
        return
    except Exception as e:
        h.check('parse raises only ValueError', False, '%r %r' % (b, e))
    if m:
        want = (int(m.group(1)), int(m.group(2)), set(bytes([c]) for c in (m.group(3) or b'')))
        h.nontrivial(b)
    else:
        want = (0, 0, set())
    h.check('parse result', (v.major, v.minor, v.flags) == want, (b, v.major, v.minor, v.flags))
    h.check('parsed features', v.message_ids == (b'I' in want[2]) and v.multi_client == (b'M' in want[2]), b)


def from_witness(h, w):
    v = w['values']
    def B(x):
        return x.encode('latin-1', 'replace')
    if 'version' in v:
        yield 'parse', B(v['version'])
    if 'major' in v:
        f = [bytes([c]) for c in sorted(set(B(v.get('flags', ''))))]
        for fl in [f] + [[c for i, c in enumerate([b'M', b'I', b'T', b'B']) if k >> i & 1] for k in range(16)]:
            for mj in {v['major'], 4, 5, 6}:
                for mn in {v.get('minor', 0), 0, 1}:
                    yield 'flags', (mj, mn, fl)
