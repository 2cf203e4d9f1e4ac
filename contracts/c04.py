"""C04: contracts on check/pack/unpack/get_default of every parameter type with declared constraints."""
from .common import *          # noqa
from .c21 import anymajor, num, obj
from .c03 import mk, c_lru, c_bool

MODULES = ['core', 'kattypes']
UNDER_CONTRACT = ['kattypes.KatcpType.pack', 'kattypes.KatcpType.unpack', 'kattypes.KatcpType.get_default',
                  'kattypes.KatcpType.check', 'kattypes.Parameter.pack', 'kattypes.Parameter.unpack'] + \
                 ['kattypes.%s.check' % c for c in ('Int', 'Float', 'Discrete', 'DiscreteMulti', 'Regex', 'StrictTimestamp')] + \
                 ['kattypes.%s.%s' % (c, m) for c in ('Lru', 'Bool') for m in ('encode', 'decode')] + \
                 ['kattypes.%s.__init__' % c for c in ('KatcpType', 'Int', 'Float', 'Discrete', 'DiscreteMulti', 'Regex')]
ASSUMPTIONS = ['floats are real numbers (NaN is neither below nor above a bound)',
               'regular expressions by their documented semantics, for five fixed patterns',
               'discrete-multi values: lists of up to three items']


def refusal(cx, x):
    cx.prove('refused with a value error', is_exc(cx.interp, x, ValueError), info=ename(x))


def c_range(cx, kind):
    """Int / Float with every combination of bounds."""
    ip = cx.interp
    sym = (lambda n: cx.int(n)) if kind == 'Int' else (lambda n: cx.real(n))
    how = cx.pick('bounds', ['none', 'min', 'max', 'both', 'zero'])
    lo = sym('lo') if how in ('min', 'both') else (0 if how == 'zero' else None)
    hi = sym('hi') if how in ('max', 'both') else None
    kw = {}
    if lo is not None:
        kw['min'] = lo
    if hi is not None:
        kw['max'] = hi
    T = mk(cx, kind, **kw) if cx.pick('args', ['kw', 'pos']) == 'kw' else mk(cx, kind, lo, hi)
    m = anymajor(cx)
    v = sym('v')
    inside = z3.And(*([] if lo is None else [t(v) >= t(lo)]) + ([] if hi is None else [t(v) <= t(hi)]))
    dirn = cx.pick('dir', ['pack', 'unpack'])
    if dirn == 'pack':
        st, x = attempt(ip, ip.getattr(T, 'pack'), v, False, m)
    else:
        wire = ip.call(ip.getattr(mk(cx, kind), 'encode'), [v, m])
        st, x = attempt(ip, ip.getattr(T, 'unpack'), wire, m)
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('only values within the bounds are accepted', inside)
        if dirn == 'unpack':
            cx.prove('unchanged', t(x) == v.t)
    else:
        cx.cover('refused')
        cx.prove('values within the bounds are not refused', z3.Not(inside))
        refusal(cx, x)


def c_int(cx):
    c_range(cx, 'Int')


def c_float(cx):
    c_range(cx, 'Float')


def c_discrete(cx):
    """any two choices, any text"""
    ip = cx.interp
    ci = cx.pick('case-insensitive', [False, True])
    if ci:
        vals = ['one', 'Two', u'F\u00fcnf', '']
    else:
        vals = [cx.str('c1'), cx.str('c2'), 'fixed']
    T = mk(cx, 'Discrete', list(vals), case_insensitive=ci)
    v = cx.str('v')
    cx.assume(STR.UF['nosurr'](v.t))
    m = anymajor(cx)
    f = (lambda s: STR.UF['lower'](s)) if ci else (lambda s: s)
    inside = z3.Or(*[f(v.t) == (zs(x.lower()) if isinstance(x, str) and ci else t(x)) for x in vals])
    if cx.pick('dir', ['pack', 'unpack']) == 'pack':
        st, x = attempt(ip, ip.getattr(T, 'pack'), v, False, m)
    else:
        wire = ip.call(ip.getattr(mk(cx, 'Str'), 'encode'), [v, m])
        st, x = attempt(ip, ip.getattr(T, 'unpack'), wire, m)
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('only declared choices are accepted', inside)
    else:
        cx.cover('refused')
        cx.prove('declared choices are not refused', z3.Not(inside))
        refusal(cx, x)


def c_multi(cx):
    import itertools as it
    ip = cx.interp
    vals = ['b', 'A', 'c']
    T = mk(cx, 'DiscreteMulti', vals)
    items = cx.pick('items', [list(p) for n in range(4) for p in it.product(['b', 'A', 'x', 'B'], repeat=n)])
    inside = all(i in vals for i in items)
    m = anymajor(cx)
    if cx.pick('dir', ['pack', 'unpack']) == 'pack':
        st, x = attempt(ip, ip.getattr(T, 'pack'), list(items), False, m)
    else:
        st, x = attempt(ip, ip.getattr(T, 'unpack'), ','.join(items).encode(), m)
    cx.prove('accepted exactly when every item is a declared choice', (st == 'ok') == inside, info=(items, st))
    if st != 'ok':
        refusal(cx, x)


def RX(s):
    return z3.Re(zs(s))


def c_regex(cx):
    ip = cx.interp
    anys = z3.Star(re_range(0, 0x2ffff))
    dig = re_range(48, 57)
    name, pat, rx = cx.pick('pattern', [
        ('digits', r'^[0-9]+\Z', z3.Plus(dig)),
        ('prefix', r'ab?', z3.Concat(RX('a'), anys)),
        ('choice', r'^(on|off)\Z', z3.Union(RX('on'), RX('off'))),
        ('dots', r'^\d\.[xyz]{2}\Z', None),
        ('empty', r'', anys)])
    import re
    if name == 'dots':
        pat = r'^[0-9]\.[xyz]{2}\Z'
        c = re_range(120, 122)
        rx = z3.Concat(dig, RX('.'), c, c)
    T = mk(cx, 'Regex', re.compile(pat) if cx.pick('given as', ['text', 'compiled']) == 'compiled' else pat)
    v = cx.str('v')
    cx.assume(STR.UF['nosurr'](v.t))
    m = anymajor(cx)
    if cx.pick('dir', ['pack', 'unpack']) == 'pack':
        st, x = attempt(ip, ip.getattr(T, 'pack'), v, False, m)
    else:
        wire = ip.call(ip.getattr(mk(cx, 'Str'), 'encode'), [v, m])
        st, x = attempt(ip, ip.getattr(T, 'unpack'), wire, m)
    inside = z3.InRe(v.t, rx)
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('only matching texts are accepted', inside)
    else:
        cx.cover('refused')
        cx.prove('matching texts are not refused', z3.Not(inside))
        refusal(cx, x)


def c_strict(cx):
    ip = cx.interp
    cx.FEAS_MS = 700
    T = mk(cx, 'StrictTimestamp')
    m = anymajor(cx)
    if cx.pick('dir', ['pack', 'unpack']) == 'pack':
        v = cx.real('v') if cx.pick('as', ['float', 'int']) == 'float' else cx.int('v')
        cx.ghost['repr_shape'] = True
        st, x = attempt(ip, ip.getattr(T, 'pack'), v, False, m)
        cx.cover('accepted' if st == 'ok' else 'refused')
        cx.prove('negative times are refused, others are not', (t(v) >= 0) if st == 'ok' else (t(v) < 0))
    else:
        b = cx.bytes('b')
        st, x = attempt(ip, ip.getattr(T, 'unpack'), b, m)
        if st == 'ok' and isinstance(x, Sym):
            cx.prove('negative times are refused', x.t >= 0)
        # a plain time, whatever its digits, is accepted
    if st != 'ok':
        refusal(cx, x)


GHOST = '''
class Typ(Base):
    def check(self, value, major):
        log.append(('check', value, major))
        if refuse:
            raise ValueError('refused')
    def encode(self, value, major):
        log.append(('encode', value, major))
        return WIRE
    def decode(self, value, major):
        log.append(('decode', value, major))
        if bad:
            raise ValueError('bad')
        return VALUE
'''


def typ(cx, **kw):
    """A type with an arbitrary constraint: check/encode/decode are ghost functions recording their calls."""
    ip = cx.interp
    log = []
    wire, value = cx.bytes('wire'), cx.int('decoded')
    refuse, bad = cx.pick('constraint', ['holds', 'broken']) == 'broken', cx.pick('wire', ['good', 'bad']) == 'bad'
    ns = run_src(ip, GHOST, Base=ip.get('katcp.kattypes:KatcpType'), log=log, WIRE=wire, VALUE=value, refuse=refuse, bad=bad)
    return ip.call(ns['Typ'], [], kw), log, wire, value, refuse, bad


def missing(cx):
    """default/optional settings"""
    d = cx.pick('default', ['none', 'zero', 'int', 'empty'])
    default = {'none': None, 'zero': 0, 'empty': '', 'int': cx.int('default')}[d]
    kw = {}
    opt = cx.pick('optional', [False, True])
    if d != 'none':
        kw['default'] = default
    if opt:
        kw['optional'] = True
    return kw, default, opt


def same(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, Sym) and isinstance(b, Sym) and a.t.eq(b.t)
    return type(a) is type(b) and a == b


def logged(log, *want):
    return len(log) == len(want) and all(len(a) == len(b) and a[0] == b[0] and all(same(x, y) for x, y in zip(a[1:], b[1:]))
                                         for a, b in zip(log, want))


def c_base_pack(cx):
    ip = cx.interp
    kw, default, opt = missing(cx)
    T, log, wire, _, refuse, _ = typ(cx, **kw)
    m = anymajor(cx)
    v = None if cx.pick('value', ['missing', 'given']) == 'missing' else cx.int('v')
    via = cx.pick('via', ['positional', 'keywords', 'parameter', 'latest'])
    if via == 'parameter':
        P = ip.call(ip.get('katcp.kattypes:Parameter'), [1, 'p', T, m], {})
        st, x = attempt(ip, ip.getattr(P, 'pack'), v)
    elif via == 'latest':
        m = 5
        st, x = attempt(ip, ip.getattr(T, 'pack'), v)
    elif via == 'positional':
        st, x = attempt(ip, ip.getattr(T, 'pack'), v, False, m)
    else:
        st, x = attempt(ip, ip.getattr(T, 'pack'), v, major=m)
    eff = v if v is not None else default
    if eff is None:
        cx.prove('a missing value without default is refused when packing', st == 'raise')
        refusal(cx, x)
        cx.prove('nothing is encoded', not [e for e in log if e[0] == 'encode'])
    elif refuse:
        cx.prove('a value outside the constraint is refused', st == 'raise')
        refusal(cx, x)
        cx.prove('checked under the version', any(same(e[1], eff) and same(e[2], m) for e in log if e[0] == 'check'))
    else:
        cx.prove('a value inside the constraint is packed', st == 'ok', info=x)
        cx.prove('as the type encodes it', same(x, wire))
        cx.prove('the value itself (or the default) was checked and encoded under the version', logged(log, ('check', eff, m), ('encode', eff, m)))


def c_base_unpack(cx):
    ip = cx.interp
    kw, default, opt = missing(cx)
    T, log, wire, value, refuse, bad = typ(cx, **kw)
    m = anymajor(cx)
    b = None if cx.pick('value', ['missing', 'given']) == 'missing' else cx.bytes('b')
    via = cx.pick('via', ['positional', 'keywords', 'parameter', 'latest'])
    F = ValueError
    if via == 'parameter':
        P = ip.call(ip.get('katcp.kattypes:Parameter'), [3, 'pname', T, m], {})
        st, x = attempt(ip, ip.getattr(P, 'unpack'), b)
        F = ip.get('katcp.core:FailReply')
    elif via == 'latest':
        m = 5
        st, x = attempt(ip, ip.getattr(T, 'unpack'), b)
    elif via == 'positional':
        st, x = attempt(ip, ip.getattr(T, 'unpack'), b, m)
    else:
        st, x = attempt(ip, ip.getattr(T, 'unpack'), b, major=m)
    absent = b is None and default is None
    if b is not None and bad or absent and not opt or not absent and refuse:
        cx.prove('refused', st == 'raise')
        cx.prove('as a value error (a failure, for a parameter)', is_exc(ip, x, F), info=ename(x))
        if via == 'parameter':
            msg = str_of(ip, x)
            cx.prove('naming the parameter', '3' in msg and 'pname' in msg, info=msg)
        return
    cx.prove('not refused', st == 'ok', info=ename(x))
    if absent:
        cx.prove('an optional missing value is accepted as absent', x is None)
    elif b is None:
        cx.prove('a missing value yields the default', same(x, default))
        cx.prove('which is checked too', logged(log, ('check', default, m)))
    else:
        cx.prove('the decoded value', same(x, value))
        cx.prove('decoded and checked under the version', logged(log, ('decode', b, m), ('check', value, m)))


def str_of(ip, e):
    v = ip.getattr(e, 'args')
    s = v[0] if v else ''
    if isinstance(s, str):
        return s
    if isinstance(s, Sym):
        return str(z3.simplify(s.t))
    return str(s)


CONTRACTS = {'int-range': (c_int, {'expect': ['accepted', 'refused']}), 'float-range': (c_float, {'expect': ['accepted', 'refused']}),
             'discrete': (c_discrete, {'expect': ['accepted', 'refused']}), 'discrete-multi': (c_multi, {}),
             'regex': (c_regex, {'expect': ['accepted', 'refused']}),
             'strict-timestamp': (c_strict, {'expect': ['accepted', 'refused']}),
             'lru': (c_lru, {'expect': ['accepted', 'refused']}), 'bool': (c_bool, {'expect': ['accepted', 'refused']}),
             'pack': (c_base_pack, {}), 'unpack': (c_base_unpack, {})}
