"""C01 executable contract: serialise / parse / copy on concrete messages."""
from common import *   # noqa
from msgspec import *  # noqa
from katcp.core import Message, MessageParser

RULE = ('all 256 bytes singly and in pairs with escape characters as arguments; random types, names, ids and '
        'argument lists; a case is non-trivial when the message was constructed')
BOUNDS = 'arguments up to 24 bytes (thorough: 3000), up to 8 arguments'
FUNCTIONS = ['core.Message', 'core.MessageParser']
SPECIAL = b'\\ \0\n\r\x1b\t_@0nret'


def rand_arg(r, n=12):
    k = r.random()
    if k < .12:
        return b''
    if k < .6:
        return bytes(bytearray(r.choice(SPECIAL) for _ in range(r.randrange(1, n))))
    if k < .75:
        return ''.join(r.choice(u'aé\u20ac\U0001f600 \\') for _ in range(r.randrange(0, n))).encode('utf-8')
    return bytes(bytearray(r.randrange(256) for _ in range(r.randrange(0, n))))


NAMES = ['a', 'Z', 'help', 'sensor-value', 'a-', 'a--b', 'x9', 'sensor-sampling-clear', 'version-connect',
         'A1-B2-', 'z' * 70]


def cases(h):
    r = h.rng
    for mt in (0, 1, 2):
        for name in NAMES:
            yield 'rt', (mt, name, None, [])
            yield 'rt', (mt, name, b'17', [b'', b'x'])
    for a in range(256):
        yield 'rt', (0, 'a', None, [bytes([a])])
        yield 'rt', (2, 'a', b'0', [b'', bytes([a]), b''])
        for b in SPECIAL:
            yield 'rt', (1, 'a', None, [bytes([a, b]), bytes([b, a])])
    for n in (1, 2, 3):
        yield 'rt', (0, 'a', b'5', [b''] * n)
    for i in range(h.n(1500, 60000)):
        name = r.choice(NAMES) if r.random() < .5 else r.choice('abzAZ') + ''.join(
            r.choice('abzAZ019-') for _ in range(r.randrange(0, 12)))
        mid = r.choice([None, b'1', b'0', b'007', b'123456789012345678901234567890', 5, 0, '42', 2 ** 70])
        yield 'rt', (r.randrange(3), name, mid, [rand_arg(r, 12 if i % 50 else h.n(40, 3000))
                                                  for _ in range(r.randrange(0, 8))])
    for i in range(h.n(300, 5000)):
        args = [r.choice([True, False, 0, -5, 2 ** 80, 1.5, -0.1, 1e300, float('inf'), u'h\u00e9 \\x', 'plain', b'raw\n',
                          u'', b'', None, (1, 2), u'\U0001f600\t'])
                for _ in range(r.randrange(0, 6))]
        yield 'typed', (r.randrange(3), args, r.choice([None, 3, '3']))
    for name in ['', '1a', '-a', 'a b', 'a\n', 'a\n\n', '\u00e9', 'a\u00e9', 'a\u0660', 'a_b', 'a[1]', 'a\\', 'a?', 'a\0', ' a',
                 'a\t', '\uff21', 'a\u00b2', 'a.b', 'a/b', '\x80', 'a\x80', 'a\xa0']:
        yield 'badname', name
    for mid in [b'', b'a', b'1a', b'-1', -1, '1 ', '', 'x', 1.5, b'1]', '\u0661', '\u00b2', True, b'1\n', '1\n', b' 1', [], '+1']:
        yield 'badmid', mid
    for mt in [3, -1, None, 'x', 4, b'?']:
        yield 'badtype', mt
    for i in range(h.n(300, 5000)):
        s = ''.join(r.choice(u'aZ9-[] \u00e9\n_\u0663') for _ in range(r.randrange(0, 6)))
        yield 'badname', s


def make(p):
    mt, name, mid, args = p
    return Message(mt, name, args, mid)


def wire_ok(h, m, p):
    line = bytes(m)
    h.check('line has no raw newline, CR, NUL or ESC', not set(line) & {0, 10, 13, 27}, (p, line))
    back = MessageParser().parse(line)
    h.check('parse(serialise(m)) == m', back == m and not (back != m), (p, line))
    h.check('parsed fields', (back.mtype, back.name, back.mid, list(back.arguments)) ==
            (m.mtype, m.name, m.mid, list(m.arguments)), (p, line, back.mid, back.arguments))
    h.check('serialisation as the grammar defines it',
            line == spec_serialise(m.mtype, m.name, m.mid, m.arguments), (p, line))
    h.check('serialisation is repeatable', bytes(m) == line, p)
    return line


def case_rt(h, p):
    mt, name, mid, args = p
    m = make(p)
    h.nontrivial(repr(p)[:80])
    want = mid if mid is None or isinstance(mid, bytes) else str(mid).encode('ascii')
    h.check('constructed fields', (m.mtype, m.name, m.mid, list(m.arguments)) == (mt, name, want, args), p)
    line = wire_ok(h, m, p)
    for ctor in ([Message.request, Message.reply, Message.inform][mt],):
        m2 = ctor(name, *args, mid=mid)
        h.check('helper constructors agree', m2 == m and bytes(m2) == line, p)
    c = m.copy()
    h.check('copy equals original', c == m and c.mid == m.mid and bytes(c) == line, (p, c.mid))
    before = list(m.arguments)
    c.arguments.append(b'extra')
    if before:
        c.arguments[0] = b'changed'
    h.check('changing the copy leaves the original', m.arguments == before and bytes(m) == line, p)
    for ch in [Message((mt + 1) % 3, name, args, mid), Message(mt, name + 'x', args, mid),
               Message(mt, name, args + [b''], mid), Message(mt, name, args, b'99999')]:
        h.check('different messages are unequal', m != ch and not (m == ch), p)
    req = Message.request(name, mid=mid)
    for f, t in ((Message.reply_to_request, 1), (Message.reply_inform, 2)):
        x = f(req, *args)
        h.check('replies carry name and id', (x.mtype, x.name, x.mid, x.arguments) == (t, name, want, args), p)


def case_typed(h, p):
    mt, args, mid = p
    m = Message(mt, 'n', args, mid)
    exp = []
    for a in args:
        if isinstance(a, bool):
            exp.append(b'1' if a else b'0')
        elif isinstance(a, bytes):
            exp.append(a)
        elif isinstance(a, int):
            exp.append(str(a).encode())
        elif isinstance(a, float):
            exp.append(repr(a).encode())
        elif isinstance(a, str):
            exp.append(a.encode('utf-8'))
        else:
            exp.append(str(a).encode('utf-8'))
    h.check('typed arguments', m.arguments == exp, (p, m.arguments))
    h.nontrivial(repr(p)[:80])
    wire_ok(h, m, p)


def refused_or_sendable(h, clause, p, *a):
    try:
        m = Message(*a)
    except (ValueError, TypeError):
        return
    try:
        wire_ok(h, m, p)
    except Violation:
        raise
    except Exception as e:
        h.check(clause, False, '%r accepted but %r when sent' % (p, e))
    h.nontrivial(repr(p))


def case_badname(h, name):
    legal = HEAD.fullmatch(name.encode('utf-8')) and '[' not in name
    try:
        m = Message(0, name, [b'x'], None)
    except Exception as e:
        h.check('legal names are accepted', not legal, name)
        h.check('illegal names are refused with a syntax error', isinstance(e, ValueError), (name, repr(e)))
        return
    h.check('unrepresentable names are refused', legal, name)
    refused_or_sendable(h, 'unrepresentable names are refused', name, 0, name, [b'x'], None)


def case_badmid(h, mid):
    refused_or_sendable(h, 'unrepresentable ids are refused', mid, 0, 'a', [b'x'], mid)


def case_badtype(h, mt):
    try:
        Message(mt, 'a', [], None)
    except Exception:
        return
    h.check('unknown message types are refused', False, mt)


def from_witness(h, w):
    v = w['values']

    def B(x):
        return x.encode('latin-1', 'replace')
    args = [B(x) for n, x in sorted(v.items()) if n.startswith(('arg', 'a!')) and isinstance(x, str)]
    if 'name' in v:
        yield 'badname', v['name']
    for mid in (None, b'1', v.get('mid')):
        yield 'rt', (v.get('mtype', 0) if v.get('mtype') in (0, 1, 2) else 0, 'a', mid, args)
        yield 'rt', (0, 'a', mid, args + [b''])
    if 'mid' in v:
        yield 'badmid', v['mid']
        yield 'badmid', B(str(v['mid']))
    for a in range(256):
        for b in SPECIAL:
            yield 'rt', (1, 'a', None, [bytes([a, b]), bytes([b, a])])
