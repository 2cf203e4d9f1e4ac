"""C02 executable contract: the parser against an independent grammar."""
from common import *   # noqa
from msgspec import *  # noqa
from c01 import rand_arg, NAMES
from katcp.core import Message, MessageParser, KatcpSyntaxError

RULE = ('all strings of length <= 2 over all bytes in head position, all two-byte argument bodies, grammar-derived lines '
        'with mutations, random byte strings; non-trivial when the line is inside the grammar or differs from such a line '
        'by one edit')
BOUNDS = 'lines up to 60 bytes (thorough: 2000)'
FUNCTIONS = ['core.MessageParser.parse', 'core.MessageParser._parse_arg', 'core.MessageParser._unescape_match']
ALPHA = [b'?', b'!', b'#', b'a', b'Z', b'9', b'-', b'[', b']', b' ', b'\t', b'\\', b'_', b'0', b'n', b'r', b'e', b't', b'@',
         b'\0', b'\n', b'\r', b'\x1b', b'\x0b', b'\x0c', b'\x80', b'\xff', b'\xc3\xa9', b'\xa0', b'x', b'\x85']


def cases(h):
    r = h.rng
    for a in range(256):
        yield 'parse', bytes([a])
        yield 'parse', b'?' + bytes([a])
        yield 'parse', bytes([a]) + b'foo'
        yield 'parse', b'?a' + bytes([a])
        yield 'parse', b'?a[1]' + bytes([a])
        yield 'parse', b'!a[1' + bytes([a]) + b']'
        yield 'parse', b'?a x' + bytes([a]) + b'y'
        yield 'parse', b'#a \\' + bytes([a])
        yield 'parse', b'#a x\\' + bytes([a]) + b'y \\@'
        yield 'parse', b'?a \\\\' + bytes([a])
    for x in ALPHA:
        for y in ALPHA:
            yield 'parse', b'?a ' + x + y
            yield 'parse', b'?a' + x + y
            yield 'parse', b'?a \\' + x + y + b' b'
    for l in [b'', b' ', b'\t', b'?', b'??', b'? a', b'?a  ', b'?a \t b\t\tc ', b'?a[]', b'?a[1][2]', b'?a[1]b', b'?a[01]', b'?[1]',
              b'?a [1]', b'?a[1 ]', b'?a[-1]', b'?a\\_b', b'?a \\@\\@', b'?a \\@b', b'?a b\\@c', b'?a \\@', b'?a \\@ \\@', b'#a\t',
              b'?a \\\\n', b'?a \\\\\\n', b'?a \\', b'?a \\ b', b'?a b\\\\', b'?a \\_\\_', b'?a[1]\n', b'?a\n', b'?a\r\n', b'?a b\n',
              b'?\xc3\xa9', b'\xc3\xa9', b'?a\xff', b'?a[\xd9\xa1]', b'?a[\xb2]', b'?A--9[0]', b'?a[99999999999999999999999]']:
        yield 'parse', l
    for i in range(h.n(4000, 150000)):
        k = r.random()
        if k < .3:
            line = b''.join(r.choice(ALPHA) for _ in range(r.randrange(0, 14)))
            if r.random() < .6:
                line = r.choice([b'?', b'!', b'#']) + line
        else:
            ws = lambda: b''.join(r.choice([b' ', b'\t']) for _ in range(r.randrange(1, 4)))
            line = r.choice([b'?', b'!', b'#']) + r.choice(NAMES).encode() + r.choice([b'', b'', b'[1]', b'[0099]'])
            for _ in range(r.randrange(0, 6)):
                a = rand_arg(r, 8)
                line += ws() + (b''.join(ESC.get(c, bytes([c])) for c in a) or b'\\@')
            if r.random() < .3:
                line += ws()
            if k > .6:
                line = bytearray(line)
                for _ in range(r.randrange(1, 3)):
                    j = r.randrange(0, len(line) + 1)
                    line[j:j + r.randrange(0, 3)] = r.choice(ALPHA)
                line = bytes(line)
        yield 'parse', line


def case_parse(h, line):
    want = spec_parse(line)
    try:
        m = MessageParser().parse(line)
    except KatcpSyntaxError:
        h.check('lines in the grammar are accepted', want is None, (line, want))
        return
    except Exception as e:
        h.check('the parser raises nothing but the syntax error', False, '%r raised %r' % (line, e))
    got = (m.mtype, m.name, m.mid, list(m.arguments))
    h.check('lines outside the grammar are refused', want is not None, (line, got))
    h.check('the message is the one the grammar assigns', got == want, (line, got, want))
    h.check('name is text, id and arguments are bytes', isinstance(m.name, str) and
            all(type(a) is bytes for a in m.arguments) and (m.mid is None or type(m.mid) is bytes), line)
    h.nontrivial(line[:60])


def from_witness(h, w):
    v = w['values']

    def B(x):
        return x.encode('latin-1', 'replace')
    for n, x in v.items():
        if isinstance(x, str):
            yield 'parse', B(x)
            yield 'parse', b'?a ' + B(x)
            yield 'parse', b'?' + B(x)
            yield 'parse', b'?a \\' + B(x)
    for a in range(256):
        yield 'parse', b'?a x\\' + bytes([a]) + b'y'
