"""C15: contracts on katcp.core.ProtocolFlags (constructor, __str__, parse_version, __eq__, supports)."""
from .common import *          # noqa

MODULES = ['core']
UNDER_CONTRACT = ['core.ProtocolFlags.__init__', 'core.ProtocolFlags.__str__', 'core.ProtocolFlags.parse_version',
                  'core.ProtocolFlags.__eq__', 'core.ProtocolFlags.supports',
                  'core.ProtocolFlags.strategy_allowed', 'compat.byte_chars']
ASSUMPTIONS = ['flags are sets of single bytes (as produced by parse_version); the round-trip contract takes '
               'flag characters from printable ASCII',
               'sorted()/join() of a set of characters keeps exactly its characters (library contract)']

FEAT = [('multi_client', b'M'), ('message_ids', b'I'), ('request_timeout_hints', b'T'),
        ('bulk_set_sensor_sampling', b'B')]


def sym_flags(cx, printable=False):
    f = cx.bytes('flags')
    if printable:
        cx.add(z3.InRe(f.t, z3.Star(re_range(33, 126))))
    return f, CharSet(f.t, SBytes)


def inset(f, c):
    return I.CHARIN(f.t, zs(c))


def legal(major, minor, f):
    v51 = z3.Or(major > 5, z3.And(major == 5, minor >= 1))
    return z3.And(z3.Implies(inset(f, b'I'), major >= 5), z3.Implies(inset(f, b'T'), v51),
                  z3.Implies(inset(f, b'B'), v51))


def c_init(cx):
    ip = cx.interp
    PF = ip.get('katcp.core:ProtocolFlags')
    major, minor = cx.int('major'), cx.int('minor')
    cx.assume(z3.And(major.t >= 0, minor.t >= 0))
    f, fl = sym_flags(cx)
    st, v = attempt(ip, PF, major, minor, fl)
    if st == 'raise':
        cx.cover('refused')
        cx.prove('refusal is a ValueError', is_exc(ip, v, ValueError))
        cx.prove('only undefined flags are refused', z3.Not(legal(major.t, minor.t, f)))
        return
    cx.cover('accepted')
    cx.prove('flags the version does not define are refused', legal(major.t, minor.t, f))
    for attr, ch in FEAT:
        cx.prove('feature %s reported iff flag present' % attr,
                 ip.zbool(ip.truth(ip.getattr(v, attr))) == inset(f, ch))
        cx.prove('supports(%s)' % attr,
                 ip.zbool(ip.truth(ip.call(ip.getattr(v, 'supports'), [ch]))) == inset(f, ch))
    cx.prove('major kept', ip.eq(ip.getattr(v, 'major'), major))
    cx.prove('minor kept', ip.eq(ip.getattr(v, 'minor'), minor))
    c = cx.bytes('c')
    cx.assume(z3.Length(c.t) == 1)
    cx.prove('flags kept', ip.zbool(ip.truth(ip.contains(ip.getattr(v, 'flags'), c))) == I.charin(cx, f.t, c.t))


def c_strategies(cx):
    ip = cx.interp
    PF = ip.get('katcp.core:ProtocolFlags')
    major = cx.pick('major', [4, 5])
    v = ip.call(PF, [major, cx.int('minor'), ISet()])
    s = cx.bytes('strategy')
    four = [b'none', b'auto', b'period', b'event', b'differential']
    want = four + ([b'event-rate', b'differential-rate'] if major == 5 else [])
    got = ip.truth(ip.call(ip.getattr(v, 'strategy_allowed'), [s]))
    cx.prove('strategies allowed are those of the major version',
             z3.BoolVal(got) == z3.Or([s.t == zs(w) for w in want]))


def c_roundtrip(cx):
    ip = cx.interp
    PF = ip.get('katcp.core:ProtocolFlags')
    major, minor = cx.int('major'), cx.int('minor')
    cx.assume(z3.And(major.t >= 0, minor.t >= 0))
    f, fl = sym_flags(cx, printable=True)
    st, v = attempt(ip, PF, major, minor, fl)
    if st == 'raise':
        return
    st, s = attempt(ip, ip.getattr(v, '__str__'))
    cx.prove('formatting never raises', st == 'ok')
    if st != 'ok':
        return
    b = ip.call(ip.getattr(s, 'encode'), ['ascii'])
    st, w = attempt(ip, ip.getattr(PF, 'parse_version'), b)
    cx.prove('parsing a formatted version never raises', st == 'ok')
    if st != 'ok':
        return
    cx.cover('round trip')

    def cseq(ip, a, b):
        c = z3.String(cx.name('anychar'))
        cx.add(z3.Length(c) == 1)
        return z3.simplify(ip.zbool(ip.contains(a, SBytes(c))) == ip.zbool(ip.contains(b, SBytes(c))))
    cx.ghost['charset_eq'] = cseq
    cx.prove('major survives', ip.eq(ip.getattr(w, 'major'), major))
    cx.prove('minor survives', ip.eq(ip.getattr(w, 'minor'), minor))
    cx.prove('flags survive', ip.eq(ip.getattr(w, 'flags'), ip.getattr(v, 'flags')))
    r = ip.eq(v, w)
    cx.prove('parse(format(flags)) == flags', r)


def c_parse_total(cx):
    ip = cx.interp
    PF = ip.get('katcp.core:ProtocolFlags')
    b = cx.bytes('version')
    st, w = attempt(ip, ip.getattr(PF, 'parse_version'), b)
    D = R('digits')
    nonl = z3.Union(re_range(0, 9), re_range(11, 255))
    gram = z3.Concat(D, z3.Re('.'), D, z3.Option(z3.Concat(z3.Re('-'), z3.Star(nonl))), z3.Option(z3.Re(zs('\n'))))
    isg = z3.InRe(b.t, gram)
    if st == 'raise':
        cx.prove('parsing fails only with ValueError', is_exc(ip, w, ValueError))
        cx.prove('parsing fails only on a flag the version does not define', isg)
        cx.cover('undefined flag')
        return
    unknown = z3.And(t(ip.getattr(w, 'major')) == 0, t(ip.getattr(w, 'minor')) == 0)
    fl = ip.getattr(w, 'flags')
    if isinstance(fl, CharSet):
        cx.cover('recognised')
        cx.prove('only version strings are recognised', isg)
        mj, mn = ip.getattr(w, 'major'), ip.getattr(w, 'minor')
        dot = z3.IndexOf(b.t, zs('.'), 0)
        if t(mj).decl().name() == 'str.to_int' and t(mn).decl().name() == 'str.to_int':
            cx.prove('major is digits', z3.InRe(t(mj).arg(0), D))
            cx.prove('minor is the digits after the dot',
                     z3.PrefixOf(z3.Concat(t(mj).arg(0), zs('.'), t(mn).arg(0)), b.t))
            cx.prove('minor is digits', z3.InRe(t(mn).arg(0), D))
        else:
            cx.prove('major is the number before the dot',
                     t(mj) == z3.StrToInt(z3.SubString(b.t, 0, dot)))
        cx.prove('flags come from the string', z3.Contains(b.t, fl.t))
        return
    cx.prove('flags are a set of the flags in the string', isinstance(fl, ISet) and not fl.elems)
    if cx.branch(isg):
        noflags = z3.Concat(D, z3.Re('.'), D, z3.Option(z3.Re('-')), z3.Option(z3.Re(zs('\n'))))
        cx.prove('no flags only if the string has none', z3.InRe(b.t, noflags))
        cx.cover('recognised without flags')
    else:
        cx.cover('unknown version')
        cx.prove('anything else is the unknown version', unknown)


def c_eq(cx):
    ip = cx.interp
    PF = ip.get('katcp.core:ProtocolFlags')
    a1, a2, b1, b2 = [cx.int(n) for n in ('a_major', 'a_minor', 'b_major', 'b_minor')]
    cx.assume(z3.And(a1.t >= 6, b1.t >= 6, a2.t >= 0, b2.t >= 0))
    f = cx.bytes('f')
    g = cx.bytes('g')
    same = cx.bool('same_flags')

    def cseq(ip, x, y):
        return same.t
    cx.ghost['charset_eq'] = cseq
    x = ip.call(PF, [a1, a2, CharSet(f.t, SBytes)])
    y = ip.call(PF, [b1, b2, CharSet(g.t, SBytes)])
    r = ip.truth(ip.eq(x, y))
    cx.prove('equal iff version and flags are equal',
             z3.BoolVal(r) == z3.And(a1.t == b1.t, a2.t == b2.t, same.t))
    cx.prove('never equal to another kind of object', ip.truth(ip.eq(x, b'5.0')) is False)


CONTRACTS = {
    'constructor': (c_init, {'expect': ['refused', 'accepted']}),
    'strategies': (c_strategies, {}),
    'round-trip': (c_roundtrip, {'expect': ['round trip']}),
    'parse-total': (c_parse_total, {'expect': ['undefined flag', 'recognised', 'unknown version']}),
    'equality': (c_eq, {}),
}
