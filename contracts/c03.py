"""C03: contracts on encode/decode (and pack/unpack) of every parameter type."""
from .common import *          # noqa
from .c21 import anymajor, c_ts, c_ts_dec, num, obj

MODULES = ['core', 'kattypes']
UNDER_CONTRACT = ['kattypes.%s.%s' % (c, m) for c in ('Int', 'Float', 'Bool', 'Str', 'Discrete', 'Lru', 'Address', 'Timestamp',
                                                      'TimestampOrNow', 'StrictTimestamp', 'Struct', 'Regex', 'DiscreteMulti')
                  for m in ('encode', 'decode')] + ['kattypes.KatcpType.pack', 'kattypes.KatcpType.unpack']
ASSUMPTIONS = ['finite floats are treated as real numbers; float(repr(x)) == x (documented for float)',
               'struct.unpack(fmt, struct.pack(fmt, *v)) == v for values the format represents (documented)',
               "Decimal's '{:f}' writes the same number without exponent",
               'UTF-8 decoding inverts encoding; lone surrogates are refused (documented)',
               'discrete-multi values: every ordered choice out of a fixed set of up to three values']


def mk(cx, cls, *a, **k):
    ip = cx.interp
    return ip.call(ip.get('katcp.kattypes:' + cls), list(a), k)


def rt(cx, T, v, what='value'):
    """pack and unpack v (or encode/decode); returns the outcome of the second step, or None after a refusal."""
    ip = cx.interp
    m = anymajor(cx)
    if cx.pick('via', ['pack', 'encode']) == 'pack':
        st, x = attempt(ip, ip.getattr(T, 'pack'), v, False, m)
        return st, x, (attempt(ip, ip.getattr(T, 'unpack'), x, m) if st == 'ok' else None)
    st, x = attempt(ip, ip.getattr(T, 'encode'), v, m)
    return st, x, (attempt(ip, ip.getattr(T, 'decode'), x, m) if st == 'ok' else None)


def dec(cx, T, b):
    ip = cx.interp
    m = anymajor(cx)
    if cx.pick('via', ['unpack', 'decode']) == 'unpack':
        return attempt(ip, ip.getattr(T, 'unpack'), b, m)
    return attempt(ip, ip.getattr(T, 'decode'), b, m)


def good(cx, st, x, y, typ):
    cx.prove('a value of the type is packed', st == 'ok', info=ename(x))
    cx.prove('to bytes', is_type(x, 'bytes'))
    cx.prove('which unpack', y is not None and y[0] == 'ok', info=ename(y[1]) if y else None)
    if y is None or y[0] != 'ok':
        raise PathEnd('reported')
    if typ:
        cx.prove('to a value of the same kind', is_type(y[1], typ))


def refused(cx, x):
    cx.cover('refused')
    cx.prove('other bytes raise a value error', is_exc(cx.interp, x, ValueError), info=ename(x))


def c_int(cx):
    ip = cx.interp
    T = mk(cx, 'Int')
    if cx.pick('dir', ['round', 'decode']) == 'round':
        v = cx.int('v')
        st, x, y = rt(cx, T, v)
        good(cx, st, x, y, 'int')
        cx.prove('the same integer', t(y[1]) == v.t)
        return
    b = cx.bytes('b')
    st, x = dec(cx, T, b)
    lit = z3.InRe(b.t, z3.Concat(z3.Option(z3.Re(zs('-'))), R('digits')))
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('an integer', is_type(x, 'int'))
        cx.prove('the integer the digits denote', z3.And(
            z3.Implies(z3.InRe(b.t, R('digits')), t(x) == z3.StrToInt(b.t)),
            z3.Implies(z3.InRe(b.t, z3.Concat(z3.Re(zs('-')), R('digits'))),
                       t(x) == -z3.StrToInt(z3.SubString(b.t, 1, z3.Length(b.t) - 1)))))
    else:
        refused(cx, x)
        cx.prove('decimal digits are not refused', z3.Not(lit))


def c_float(cx):
    ip = cx.interp
    T = mk(cx, 'Float')
    k = cx.pick('dir', ['finite', 'inf', '-inf', 'decode', 'int'])
    if k == 'finite':
        v = cx.real('v')
        st, x, y = rt(cx, T, v)
        good(cx, st, x, y, 'float')
        cx.prove('the same number', t(y[1]) == v.t)
    elif k == 'int':
        v = cx.int('v')
        st, x, y = rt(cx, T, v)
        good(cx, st, x, y, 'float')
        cx.prove('the same number', t(y[1]) == z3.ToReal(v.t))
    elif k != 'decode':
        st, x, y = rt(cx, T, float(k))
        good(cx, st, x, y, 'float')
        cx.prove('the same infinity', y[1] == float(k))
    else:
        b = cx.bytes('b')
        st, x = dec(cx, T, b)
        if st == 'ok':
            cx.cover('accepted')
            cx.prove('a float', is_type(x, 'float'))
            cx.prove('only number literals', STR.UF['fok'](b.t))
            if isinstance(x, Sym):
                cx.prove('the number the literal denotes', x.t == STR.UF['fparse'](b.t))
        else:
            refused(cx, x)
            cx.prove('number literals are not refused', z3.Not(STR.UF['fok'](b.t)))


def c_bool(cx):
    ip = cx.interp
    T = mk(cx, 'Bool')
    if cx.pick('dir', ['round', 'decode']) == 'round':
        v = cx.pick('v', [True, False])
        st, x, y = rt(cx, T, v)
        good(cx, st, x, y, None)
        cx.prove('the same truth value', y[1] is v)
        return
    b = cx.bytes('b')
    st, x = dec(cx, T, b)
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('only 0 and 1', z3.Or(b.t == zs(b'0'), b.t == zs(b'1')))
        cx.prove('1 is true, 0 is false', (x if isinstance(x, bool) else t(x)) == (b.t == zs(b'1')))
    else:
        refused(cx, x)
        cx.prove('0 and 1 are not refused', z3.Not(z3.Or(b.t == zs(b'0'), b.t == zs(b'1'))))


def c_str(cx):
    ip = cx.interp
    T = mk(cx, 'Str') if cx.pick('type', ['Str', 'Regex']) == 'Str' else mk(cx, 'Regex', '')
    k = cx.pick('dir', ['text', 'bytes', 'decode'])
    if k == 'text':
        v = cx.str('v')
        st, x, y = rt(cx, T, v)
        if st != 'ok':
            cx.prove('only text with lone surrogates is refused', z3.Not(STR.UF['nosurr'](v.t)))
            cx.prove('with a value error', is_exc(ip, x, ValueError))
            return
        good(cx, st, x, y, 'str')
        cx.prove('the same text', t(y[1]) == v.t)
    elif k == 'bytes':
        v = cx.bytes('v')
        m = anymajor(cx)
        st, x = attempt(ip, ip.getattr(T, 'encode'), v, m)
        cx.prove('byte strings are sent as they are', st == 'ok' and is_type(x, 'bytes') and t(x).eq(v.t))
    else:
        b = cx.bytes('b')
        st, x = dec(cx, T, b)
        if st == 'ok':
            cx.cover('accepted')
            cx.prove('the text the bytes encode', z3.And(STR.UF['u8ok'](b.t), t(x) == STR.UF['u8dec'](b.t)))
        else:
            refused(cx, x)
            cx.prove('UTF-8 is not refused', z3.Not(STR.UF['u8ok'](b.t)))


def c_discrete(cx):
    ip = cx.interp
    vals = ['one', 'Two', 'three-3', u'f\u00fcnf', '']
    ci = cx.pick('case-insensitive', [False, True])
    T = mk(cx, 'Discrete', vals, case_insensitive=ci)
    k = cx.pick('dir', ['round', 'decode'])
    if k == 'round':
        v = cx.pick('v', vals + (['ONE', 'tWO'] if ci else []))
        st, x, y = rt(cx, T, v)
        good(cx, st, x, y, 'str')
        cx.prove('the same choice', y[1] == v)
        return
    b = cx.bytes('b')
    m = anymajor(cx)
    st, x = attempt(ip, ip.getattr(T, 'unpack'), b, m)
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('the text the bytes encode', z3.And(STR.UF['u8ok'](b.t), t(x) == STR.UF['u8dec'](b.t)))
        f = (lambda s: STR.UF['lower'](s)) if ci else (lambda s: s)
        cx.prove('a declared choice', z3.Or(*[f(t(x)) == zs(v.lower() if ci else v) for v in vals]))
    else:
        refused(cx, x)
        if not ci:
            cx.prove('declared choices are not refused',
                     z3.Not(z3.And(STR.UF['u8ok'](b.t), z3.Or(*[STR.UF['u8dec'](b.t) == zs(v) for v in vals]))))


def c_multi(cx):
    ip = cx.interp
    vals = ['b', 'A', 'c']
    sep = cx.pick('separator', [',', '|'])
    T = mk(cx, 'DiscreteMulti', vals, separator=sep)
    import itertools as it
    subs = [list(p) for n in range(4) for p in it.permutations(vals, n)]
    v = cx.pick('v', subs)
    st, x, y = rt(cx, T, list(v))
    good(cx, st, x, y, None)
    cx.prove('the same choices', isinstance(y[1], list) and sorted(y[1]) == sorted(v))
    al = attempt(ip, ip.getattr(T, 'unpack'), b'all', 5)
    cx.prove('"all" is every choice', al[0] == 'ok' and sorted(al[1]) == sorted(vals))
    bad = attempt(ip, ip.getattr(T, 'unpack'), cx.pick('bad', [b'x', b'b' + sep.encode() + b'x', b'B', b'\xff', sep.encode()]), 5)
    cx.prove('other bytes raise a value error', bad[0] == 'raise' and is_exc(ip, bad[1], ValueError))


def c_lru(cx):
    ip = cx.interp
    T = mk(cx, 'Lru')
    if cx.pick('dir', ['round', 'decode']) == 'round':
        v = cx.int('v')
        st, x, y = rt(cx, T, v)
        legal = z3.Or(v.t == 0, v.t == 1)
        if st != 'ok':
            cx.prove('legal values are not refused', z3.Not(legal))
            cx.prove('with a value error', is_exc(ip, x, ValueError))
            return
        cx.prove('only nominal and error are packed', legal)
        good(cx, st, x, y, 'int')
        cx.prove('the same value', t(y[1]) == v.t)
        cx.prove('named nominal or error', z3.And(z3.Implies(v.t == 0, t(x) == zs(b'nominal')), z3.Implies(v.t == 1, t(x) == zs(b'error'))))
        return
    b = cx.bytes('b')
    st, x = dec(cx, T, b)
    legal = z3.Or(b.t == zs(b'nominal'), b.t == zs(b'error'))
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('only nominal and error', legal)
        cx.prove('the value named', (t(x) == 1) == (b.t == zs(b'error')))
    else:
        refused(cx, x)
        cx.prove('nominal and error are not refused', z3.Not(legal))


def c_addr(cx):
    ip = cx.interp
    T = mk(cx, 'Address')
    port = None if cx.pick('port', ['none', 'some']) == 'none' else cx.int('port')
    if port is not None:
        cx.assume(port.t >= 0)
    host = cx.str('host')
    v6 = cx.pick('kind', ['v4', 'v6']) == 'v6'
    cx.FEAS_MS = 700
    ok = z3.Star(z3.Union(*[re_range(lo, hi) for lo, hi in ([(0, 90), (92, 127)] if v6 else [(0, 57), (59, 90), (92, 127)])]))
    cx.assume(z3.InRe(host.t, ok))                       # ASCII, no '[', ':' only in IPv6 addresses
    if v6:
        cx.assume(z3.Contains(host.t, zs(':')))
    st, x, y = rt(cx, T, (host, port))
    good(cx, st, x, y, None)
    h, p = y[1]
    cx.prove('the same host', t(h) == host.t and is_type(h, 'str') if not isinstance(h, Sym) else t(h) == host.t)
    cx.prove('the same port', (p is None) if port is None else (p is not None and t(p) == port.t))


def c_addr_dec(cx):
    ip = cx.interp
    T = mk(cx, 'Address')
    b = cx.bytes('b')
    st, x = dec(cx, T, b)
    def cls(*bad):
        return z3.Star(z3.Union(*[re_range(lo, hi) for lo, hi in bad]))
    v4h = z3.Star(z3.Union(re_range(0, 57), re_range(59, 255)))            # no ':'
    v6h = z3.Star(z3.Union(re_range(0, 90), re_range(92, 255)))            # no '['
    portre = z3.Option(z3.Concat(z3.Re(zs(':')), R('digits')))
    br = z3.PrefixOf(zs('['), b.t)
    legal = z3.If(br, z3.InRe(b.t, z3.Concat(z3.Re(zs('[')), v6h, z3.Re(zs(']')), portre)),
                  z3.InRe(b.t, z3.Concat(v4h, portre)))
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('only addresses', legal)
        h, p = x
        cx.prove('host is text, port an integer or none', is_type(h, 'str') and (p is None or is_type(p, 'int')))
        ht = t(h)
        if p is None:
            cx.prove('host and no port', z3.Or(b.t == ht, b.t == z3.Concat(zs('['), ht, zs(']'))))
        else:
            cx.prove('host and port', z3.Exists([z3.String('pp')], z3.BoolVal(True)) if False else
                     z3.Or(z3.PrefixOf(z3.Concat(ht, zs(':')), b.t), z3.PrefixOf(z3.Concat(zs('['), ht, zs(']:')), b.t)))
    else:
        refused(cx, x)
        cx.prove('ASCII addresses are not refused', z3.Not(z3.And(legal, z3.InRe(b.t, R('ascii*')))))


def c_strict(cx):
    ip = cx.interp
    cx.FEAS_MS = 700
    T = mk(cx, 'StrictTimestamp')
    if cx.pick('dir', ['round', 'decode']) == 'round':
        v = cx.real('v')
        cx.assume(v.t >= 0)
        cx.ghost['repr_shape'] = True
        st, x, y = rt(cx, T, v)
        good(cx, st, x, y, 'float')
        cx.prove('the same time', t(y[1]) == v.t)
        return
    plain = cx.pick('bytes', ['any', 'digits', 'digits.digits'])
    m = anymajor(cx)
    b = cx.bytes('b')
    if plain != 'any':
        q = z3.Real('q')
        lit = STR.fixed_shape(ip, z3.RealVal(0), plain == 'digits.digits')
        cx.axiom('digits[.digits] is a number literal that is not negative', z3.And(STR.UF['fok'](lit), STR.UF['fparse'](lit) >= 0))
        b = SBytes(lit)
    st, x = attempt(ip, ip.getattr(T, 'unpack'), b, m)
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('only number literals', STR.UF['fok'](b.t))
        if isinstance(x, Sym):
            cx.prove('the number the literal denotes', x.t == STR.UF['fparse'](b.t))
            cx.prove('not negative', x.t >= 0)
    else:
        refused(cx, x)
        cx.prove('plain decimal times are not refused', z3.BoolVal(plain == 'any'))


def c_struct(cx):
    """struct.pack/unpack replaced by their contract: mutually inverse for one format, or struct.error."""
    import struct as S
    ip = cx.interp
    T = mk(cx, 'Struct', '>if')
    log = []
    v = (cx.int('a'), cx.real('b'))
    packed = cx.bytes('packed')
    fail = cx.pick('library', ['works', 'refuses'])

    def pack(ip2, a, k):
        log.append(('pack',) + tuple(a))
        if fail == 'refuses':
            raise PyExc(S.error('model'))
        return packed

    def unpack(ip2, a, k):
        log.append(('unpack',) + tuple(a))
        if fail == 'refuses':
            raise PyExc(S.error('model'))
        return v
    cx.ghost['host_stubs'] = {S.pack: pack, S.unpack: unpack}
    m = anymajor(cx)
    st, x = attempt(ip, ip.getattr(T, 'pack'), v, False, m)
    if fail == 'works':
        cx.prove('packed by the format', st == 'ok' and x is packed and log == [('pack', '>if') + v])
        st, y = attempt(ip, ip.getattr(T, 'unpack'), x, m)
        cx.prove('unpacked by the same format', st == 'ok' and tuple(y) == v and log[1:] == [('unpack', '>if', packed)])
    else:
        cx.prove('unpackable values raise a value error', st == 'raise' and is_exc(ip, x, ValueError))
        st, y = attempt(ip, ip.getattr(T, 'unpack'), packed, m)
        cx.prove('bytes of another format raise a value error', st == 'raise' and is_exc(ip, y, ValueError))


CONTRACTS = {'int': (c_int, {'expect': ['accepted', 'refused']}), 'float': (c_float, {'expect': ['accepted', 'refused']}),
             'bool': (c_bool, {'expect': ['accepted', 'refused']}), 'str': (c_str, {'expect': ['accepted', 'refused']}),
             'discrete': (c_discrete, {'expect': ['accepted', 'refused']}), 'multi': (c_multi, {}),
             'lru': (c_lru, {'expect': ['accepted', 'refused']}), 'address': (c_addr, {}),
             'address-decode': (c_addr_dec, {'expect': ['accepted', 'refused']}),
             'timestamp': (c_ts, {}), 'timestamp-decode': (c_ts_dec, {'expect': ['time', 'refused', 'now']}),
             'strict': (c_strict, {'expect': ['accepted', 'refused']}), 'struct': (c_struct, {})}
