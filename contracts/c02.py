"""C02: contracts on MessageParser.parse / _parse_arg / _unescape_match for every byte string."""
from .msglib import *          # noqa

MODULES = ['core']
UNDER_CONTRACT = ['core.MessageParser.parse', 'core.MessageParser._parse_arg', 'core.MessageParser._unescape_match',
                  'core.Message.__init__ (on parser output)']
ASSUMPTIONS = ['re.sub/re.split on unknown strings follow the documented semantics (contracts/msglib.py)',
               'the result of unescaping is the per-escape table computed from the real function for all 256 bytes']
SYN = 'katcp.core:KatcpSyntaxError'


def parser(ip):
    return ip.call(ip.get('katcp.core:MessageParser'), [])


def check_table(cx, r):
    """r came from the real unescape substitution, whose table is the grammar's"""
    tab = cx.ghost.get('unesc_table')
    if tab is None:
        raise Unsupported('argument is not unescaped by one substitution')
    for b in range(256):
        cx.prove('every escape is undone as the grammar says', tab[b] == UNESC.get(bytes([b])))
    cx.prove('a lone backslash is refused', tab[None] is None)


def c_escape_table(cx):
    """One escape (backslash + any one byte, or a lone backslash) inside an argument, for all 257 cases."""
    ip = cx.interp
    b = cx.pick('escape character', list(range(256)) + [None])
    arg = b'\\' if b is None else bytes([0x5c, b])
    st, r = attempt(ip, ip.getattr(parser(ip), '_parse_arg'), arg)
    want = UNESC.get(bytes([b])) if b is not None else None
    if st == 'ok':
        cx.prove('the escape is undone as the grammar says', want is not None and r == want)
    else:
        cx.prove('only a bad escape is refused', want is None)
        cx.prove('a bad escape raises the syntax error', is_exc(ip, r, SYN))


def c_arg(cx):
    ip = cx.interp
    install(cx)
    arg = cx.bytes('arg')
    st, r = attempt(ip, ip.getattr(parser(ip), '_parse_arg'), arg)
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('an accepted argument is in the grammar', z3.InRe(arg.t, ARG))
        cx.prove('the argument is bytes', is_type(r, 'bytes'))
        cx.prove('the argument is unescaped exactly once', bool(
            isinstance(r, SBytes) and r.info and r.info[0] == 'unesc' and r.info[2].t.eq(arg.t)))
        check_table(cx, r)
    else:
        cx.cover('refused')
        cx.prove('a bad argument raises the syntax error', is_exc(ip, r, SYN))
        cx.prove('an argument in the grammar is never refused', z3.Not(z3.InRe(arg.t, ARG)))


def c_parse(cx, kind):
    """parse(line) for every line; the arguments through _parse_arg's contract."""
    ip = cx.interp
    install(cx)
    cx.solver.set('timeout', 600)
    cx.FEAS_MS = 600
    line = cx.bytes('line')
    if kind == 'empty':
        cx.add(line.t == zs(''))
    elif kind == 'other':
        cx.add(line.t != zs(''))
        cx.add(z3.Not(z3.Or(*[z3.PrefixOf(zs(s), line.t) for s in SYMS.values()])))
    else:
        body = cx.bytes('body', input=False)
        cx.add(line.t == z3.Concat(zs(kind), body.t))
        cx.add(z3.Length(line.t) == z3.Length(body.t) + 1)
        line = SBytes(z3.Concat(zs(kind), body.t))
    argcalls = []

    def parse_arg(ip, a, k):
        # _parse_arg's contract (contract 'argument'): syntax error iff outside the grammar, else unescaped once
        x = a[-1]
        argcalls.append(x)
        if cx.branch(z3.InRe(t(x), ARG)):
            return SBytes(UNESCF(t(x)), ('unesc', None, x))
        cx.ghost['bad_arg'] = True
        raise PyExc(ip.call(ip.get(SYN), ['bad argument']))
    cx.stubs['katcp.core:MessageParser._parse_arg'] = parse_arg
    st, m = attempt(ip, ip.getattr(parser(ip), 'parse'), line)
    head = cx.ghost.get('split_head')
    parts = cx.ghost.get('split_parts')
    if st == 'raise':
        cx.cover('refused')
        cx.prove('a bad line raises the syntax error', is_exc(ip, m, SYN))
        if kind in (b'?', b'!', b'#'):
            if cx.ghost.get('bad_arg'):
                return
            if head is None:
                word = body.t
            else:
                word = tail_of(head, kind)
            cx.prove('a line in the grammar is never refused', z3.Not(z3.InRe(word, HEADRE)))
        return
    cx.cover('accepted')
    cx.prove('an accepted line starts with a message type', kind in (b'?', b'!', b'#'))
    if kind not in (b'?', b'!', b'#'):
        return
    if head is None:
        head, parts = line.t, None
    cx.prove('message type as in the line', ip.eq(ip.getattr(m, 'mtype'), {b'?': 0, b'!': 1, b'#': 2}[kind]))
    name, mid = ip.getattr(m, 'name'), ip.getattr(m, 'mid')
    cx.prove('name is text', is_type(name, 'str'))
    cx.prove('id is absent or bytes', mid is None or is_type(mid, 'bytes'))
    whole = z3.Concat(zs(kind), t(name)) if mid is None else z3.Concat(zs(kind), t(name), zs('['), t(mid), zs(']'))
    cx.prove('type, name and id make up the first word', head == whole)
    cx.prove('the name is in the grammar', z3.InRe(t(name), NAME))
    if mid is not None:
        cx.prove('the id is in the grammar', z3.InRe(t(mid), R('digits')))
    args = seq_of(ip.getattr(m, 'arguments'))
    if parts is None:
        cx.prove('no arguments without separators', length(args) == 0)
        return
    # expected: parts[1:], minus one trailing empty piece
    i = z3.Int(cx.name('k'))
    n = parts.length
    last = parts.at(cx, n - 1)
    want = z3.If(z3.And(n > 1, t(last) == zs('')), n - 2, n - 1)
    cx.prove('as many arguments as non-empty words', length(args) == want)
    if isinstance(args, SSeq):
        if not cx.branch(z3.And(i >= 0, i < want)):
            return
        a = args.at(cx, i)
        src = parts.at(cx, i + 1)
        cx.prove('each argument is its word unescaped', bool(isinstance(a, SBytes) and a.info and a.info[0] == 'unesc')
                 and t(a.info[2]) == t(src))


def tail_of(head, kind):
    ps = STR.flatten(head)
    if ps[0] != kind.decode('latin-1'):
        raise Unsupported('first word')
    ps = [zs(p) if isinstance(p, str) else p for p in ps[1:]]
    return z3.Concat(*ps) if len(ps) > 1 else ps[0] if ps else zs('')


def length(s):
    return s.length if isinstance(s, SSeq) else z3.IntVal(len(s))


CONTRACTS = {
    'escape table': (c_escape_table, {}),
    'argument': (c_arg, {'expect': ['accepted', 'refused']}),
    'parse': (c_parse, {'expect': ['accepted', 'refused'], 'split': ['empty', 'other', b'?', b'!', b'#']}),
}
