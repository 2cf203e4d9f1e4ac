"""C01: contracts on katcp.core.Message (constructor, bytes, copy, equality) and the round trip through parse."""
from .msglib import *          # noqa

MODULES = ['core']
UNDER_CONTRACT = ['core.Message.__init__', 'core.Message.format_argument', 'core.Message.__bytes__',
                  'core.Message._escape_match', 'core.Message.copy', 'core.Message.__eq__', 'core.Message.__ne__',
                  'core.Message.request/reply/inform/reply_to_request/reply_inform', 'core.MessageParser.parse',
                  'core.MessageParser._parse_arg', 'core.MessageParser._unescape_match']
ASSUMPTIONS = ['re.sub/re.split/bytes.join on unknown strings follow the documented semantics (contracts/msglib.py); '
               'the escape tables are computed from the real functions for all 256 bytes',
               'str.isalnum/isalpha are only known on ASCII text']


def new(cx, ip, mtype, name, args, mid):
    return attempt(ip, ip.get('katcp.core:Message'), mtype, name, args, mid)


def c_construct(cx, kind):
    """Constructed => well formed (so it can be sent); otherwise refused with a ValueError/TypeError now."""
    ip = cx.interp
    install(cx)
    mtype = cx.pick('mtype', [0, 1, 2, 3, -1, None, b'?'])
    name = cx.str('name')
    mid = {'none': lambda: None, 'int': lambda: cx.int('mid'), 'bytes': lambda: cx.bytes('mid'),
           'str': lambda: cx.str('mid')}[kind]()
    args = arg_seq(cx)
    st, m = new(cx, ip, mtype, name, args, mid)
    if st == 'raise':
        cx.prove('refusal is a ValueError', is_exc(ip, m, ValueError))
        good_mid = {'none': lambda: z3.BoolVal(True), 'int': lambda: mid.t >= 0,
                    'bytes': lambda: z3.InRe(mid.t, R('digits')),
                    'str': lambda: z3.InRe(mid.t, R('digits'))}[kind]()
        legal = z3.And(z3.BoolVal(mtype in (0, 1, 2) and mtype is not True), z3.InRe(name.t, NAME), good_mid)
        cx.prove('a representable message is never refused', z3.Not(legal))
        cx.cover('refused')
        return
    cx.cover('constructed')
    cx.prove('type is a known type', mtype in (0, 1, 2))
    cx.prove('name is representable', z3.InRe(t(ip.getattr(m, 'name')), NAME))
    cx.prove('name is kept', ip.eq(ip.getattr(m, 'name'), name))
    got = ip.getattr(m, 'mid')
    if got is None:
        cx.prove('no id only when none was given', kind == 'none')
    else:
        cx.prove('id is bytes', is_type(got, 'bytes'))
        cx.prove('id is a decimal number', z3.InRe(t(got), R('digits')))
        if kind in ('bytes', 'str'):
            cx.prove('id is kept', t(got) == mid.t)
        elif kind == 'int':
            cx.prove('integer id is its decimal form', bool(isinstance(got, SBytes) and got.info and
                     got.info[0] == 'int' and z3.simplify(got.info[1] - mid.t).eq(z3.IntVal(0))))
    same_args(cx, 'constructor', ip.getattr(m, 'arguments'), args)


def c_format(cx):
    """Typed arguments become the documented bytes."""
    ip = cx.interp
    kind = cx.pick('kind', ['bool', 'int', 'float', 'bytes', 'str'])
    v = {'bool': lambda: cx.bool('b'), 'int': lambda: cx.int('i'), 'float': lambda: cx.real('f'),
         'bytes': lambda: cx.bytes('arg'), 'str': lambda: cx.str('s')}[kind]()
    st, m = new(cx, ip, 0, 'a', [v], None)
    if st == 'raise':
        cx.prove('only text that has no UTF-8 form is refused',
                 z3.Not(UF['nosurr'](v.t)) if kind == 'str' else False)
        return
    r = ip.getattr(m, 'arguments')[0]
    cx.prove('argument is bytes', is_type(r, 'bytes'))
    if kind == 'bool':
        cx.prove('booleans are 0 and 1', t(r) == z3.If(v.t, zs('1'), zs('0')))
    elif kind == 'bytes':
        cx.prove('bytes are kept', t(r) == v.t)
    elif kind == 'str':
        if cx.branch(UF['nosurr'](v.t)):              # text that has a UTF-8 form (no lone surrogate)
            back = ip.call(ip.getattr(r, 'decode'), ['utf-8'])
            cx.prove('text is UTF-8', ip.eq(back, v))
    elif kind == 'int':
        cx.prove('integers are decimal', ip.eq(ip.call(int, [r]), v))
    else:
        cx.prove('floats keep their value', ip.eq(ip.call(float, [r]), v))


def c_serialise(cx):
    """bytes(m) for every well-formed message."""
    ip = cx.interp
    install(cx)
    mtype = cx.pick('mtype', [0, 1, 2])
    name, mid, args = wf_name(cx), wf_mid(cx), arg_seq(cx)
    st, m = new(cx, ip, mtype, name, args, mid)
    if st == 'raise':
        raise PathEnd()
    st, line = attempt(ip, ip.getattr(m, '__bytes__'))
    cx.prove('serialising never raises', st == 'ok')
    if st != 'ok':
        return
    cx.prove('the line is bytes', is_type(line, 'bytes'))
    nonl = z3.Star(STR.set_re(set(range(256)) - set(RAW)))
    head = z3.Concat(zs(SYMS[mtype]), name.t) if mid is None else \
        z3.Concat(zs(SYMS[mtype]), name.t, zs('['), mid.t, zs(']'))
    cx.prove('the line starts with type, name and id', z3.PrefixOf(head, t(line)))
    joins = list(cx.ghost.get('joins', {}).values())
    if not cx.branch(args.length > 0):
        cx.prove('without arguments the line is just the head', t(line) == head)
        cx.prove('no raw newline, CR, NUL or ESC (no arguments)', z3.InRe(head, nonl))
        cx.cover('no arguments')
        return
    if len(joins) != 1:
        raise Unsupported('arguments are not joined once')
    cx.cover('arguments')
    j, sep, seq = joins[0]
    cx.prove('arguments follow, separated by single spaces', z3.And(
        z3.BoolVal(sep == b' '), t(line) == z3.Concat(head, zs(' '), j), seq.length == args.length))
    i = z3.Int(cx.name('argidx'))
    cx.assume(z3.And(i >= 0, i < args.length))
    e, a = seq.at(cx, i), args.at(cx, i)
    tab = cx.ghost.get('esc_table')
    if tab is None:
        raise Unsupported('arguments are not escaped with re.sub')
    cx.prove('no raw newline, CR, NUL, ESC, space or tab in a serialised argument',
             z3.And(z3.InRe(t(e), z3.Star(SAFE)), z3.InRe(head, nonl)))
    cx.prove('a serialised argument is never empty', t(e) != zs(''))
    want = {0x5c: b'\\\\', 0x20: b'\\_', 0: b'\\0', 10: b'\\n', 13: b'\\r', 27: b'\\e', 9: b'\\t'}
    cx.prove('every byte is escaped as the grammar says',
             all(tab[b] == want.get(b, bytes([b])) for b in range(256)))
    cx.prove('an empty argument is escaped as such',
             z3.If(t(a) == zs(''), t(e) == zs('\\@'), t(e) == ESCF(t(a))))


def c_roundtrip(cx, mtype):
    """parse(bytes(m)) == m for every well-formed message."""
    ip = cx.interp
    install(cx)
    mtype, midkind = mtype
    cx.FEAS_MS = 700
    cx.solver.set('timeout', 700)
    name, mid, args = wf_name(cx), wf_mid(cx, midkind), arg_seq(cx)
    st, m = new(cx, ip, mtype, name, args, mid)
    if st == 'raise':
        raise PathEnd()
    line = ip.call(ip.getattr(m, '__bytes__'), [])
    P = ip.call(ip.get('katcp.core:MessageParser'), [])
    st, r = attempt(ip, ip.getattr(P, 'parse'), line)
    cx.prove('a serialised message parses', st == 'ok')
    if st != 'ok':
        return
    cx.cover('parsed')
    cx.prove('same type', ip.eq(ip.getattr(r, 'mtype'), mtype))
    cx.prove('same name', ip.eq(ip.getattr(r, 'name'), name))
    g = ip.getattr(r, 'mid')
    cx.prove('same id', (g is None) if mid is None else (False if g is None else ip.eq(g, mid)))
    same_args(cx, 'round trip', ip.getattr(r, 'arguments'), args)


def c_copy(cx):
    ip = cx.interp
    install(cx)
    mtype = cx.pick('mtype', [0, 1, 2])
    name, mid, args = wf_name(cx), wf_mid(cx), arg_seq(cx)
    st, m = new(cx, ip, mtype, name, args, mid)
    if st == 'raise':
        raise PathEnd()
    st, c = attempt(ip, ip.getattr(m, 'copy'))
    cx.prove('copying never raises', st == 'ok')
    if st != 'ok':
        return
    for a in ('mtype', 'name', 'mid'):
        x, y = ip.getattr(c, a), ip.getattr(m, a)
        cx.prove('copy has the same %s' % a, (x is y) or ip.eq(x, y))
    same_args(cx, 'copy', ip.getattr(c, 'arguments'), ip.getattr(m, 'arguments'))
    cx.prove('the copy has its own argument list', ip.getattr(c, 'arguments') is not ip.getattr(m, 'arguments'))
    cx.prove('the copy is another object', c is not m)


def c_eq(cx, mids):
    """== holds iff type, name, id and arguments agree (argument lists of length <= 2 here)."""
    ip = cx.interp
    mk = []
    for p, hasmid in zip('ab', mids):
        mt = cx.pick('mtype', [0, 1])
        name = wf_name(cx, p + '_name')
        mid = None
        if hasmid:
            mid = cx.bytes(p + '_mid')
            cx.add(z3.InRe(mid.t, R('digits')))
        args = [cx.bytes(p + '_arg') for _ in range(cx.pick('n', [0, 1, 2]))]
        st, m = new(cx, ip, mt, name, args, mid)
        if st == 'raise':
            raise PathEnd()
        mk.append((m, mt, name, mid, args))
    (a, t1, n1, i1, g1), (b, t2, n2, i2, g2) = mk
    same = z3.And(z3.BoolVal(t1 == t2 and len(g1) == len(g2) and (i1 is None) == (i2 is None)), n1.t == n2.t,
                  z3.BoolVal(True) if i1 is None or i2 is None else i1.t == i2.t,
                  *[x.t == y.t for x, y in zip(g1, g2)])
    r = ip.truth(ip.eq(a, b))
    cx.prove('equal iff same type, name, id and arguments', z3.BoolVal(r) == same)
    ne = ip.truth(ip.call(ip.getattr(a, '__ne__'), [b]))
    cx.prove('!= is the negation', z3.BoolVal(ne) == z3.Not(same))


def c_helpers(cx):
    """request/reply/inform and the reply helpers build the message they say."""
    ip = cx.interp
    install(cx)
    M = ip.get('katcp.core:Message')
    which = cx.pick('which', ['request', 'reply', 'inform', 'reply_to_request', 'reply_inform'])
    name, mid = wf_name(cx), wf_mid(cx)
    a, b = cx.bytes('arg'), cx.bytes('arg')
    if which.startswith('reply_'):
        st, req = new(cx, ip, 0, name, [cx.bytes('arg')], mid)
        if st == 'raise':
            raise PathEnd()
        st, m = attempt(ip, ip.getattr(M, which), req, a, b)
    else:
        st, m = attempt(ip, ip.getattr(M, which), name, a, b, mid=mid)
    cx.prove('helper constructors never refuse a legal message', st == 'ok')
    if st != 'ok':
        return
    want = {'request': 0, 'reply': 1, 'inform': 2, 'reply_to_request': 1, 'reply_inform': 2}[which]
    cx.prove('helper type', ip.eq(ip.getattr(m, 'mtype'), want))
    cx.prove('helper name', ip.eq(ip.getattr(m, 'name'), name))
    g = ip.getattr(m, 'mid')
    cx.prove('helper id', (g is None) if mid is None else (False if g is None else ip.eq(g, mid)))
    args = ip.getattr(m, 'arguments')
    cx.prove('helper arguments', len(args) == 2 and z3.And(t(args[0]) == a.t, t(args[1]) == b.t))


CONTRACTS = {
    'constructor': (c_construct, {'expect': ['refused', 'constructed'], 'split': ['none', 'int', 'bytes', 'str']}),
    'format_argument': (c_format, {}),
    'serialise': (c_serialise, {'expect': ['no arguments', 'arguments']}),
    'round-trip': (c_roundtrip, {'expect': ['parsed'], 'split': [(a, b) for a in (0, 1, 2) for b in ('none', 'bytes')]}),
    'copy': (c_copy, {}),
    'equality': (c_eq, {'split': [(0, 0), (0, 1), (1, 0), (1, 1)]}),
    'helpers': (c_helpers, {}),
}
