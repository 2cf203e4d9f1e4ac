"""C04 executable contract: declared constraints and missing values, both directions."""
import re
from common import *   # noqa
from katcp import kattypes as K
from katcp.core import FailReply

RULE = 'every bound combination with values around the bounds; discrete, multi, regex, strict types with inside/outside values; all default/optional settings, through the types and through Parameter'
BOUNDS = 'integers and floats near the bounds and random ones; texts of up to 8 characters; lists of up to 4 items'
FUNCTIONS = ['kattypes.KatcpType.pack/unpack/get_default', 'kattypes.Parameter', 'kattypes.*.check']
CH = ['one', 'Two', u'f\u00fcnf']


def cases(h):
    r = h.rng
    for kind in ('Int', 'Float'):
        for lo in (None, 0, -3, 5, -10 ** 20):
            for hi in (None, 0, 5, 7, 10 ** 20):
                for v in (-4, -3, -2, -1, 0, 1, 4, 5, 6, 7, 8, 10 ** 20, 10 ** 20 + 1, -10 ** 20 - 1):
                    for m in (4, 5):
                        yield 'range', (kind, lo, hi, v, m)
        for i in range(h.n(200, 20000)):
            lo, hi, v = [r.choice([None, r.randrange(-9, 9), r.uniform(-2, 2) if kind == 'Float' else r.randrange(-99, 99)]) for _ in range(3)]
            if v is not None:
                yield 'range', (kind, lo, hi, v, r.choice([4, 5]))
    for v in CH + ['ONE', 'two', 'tw', 'Two ', '', 'one,Two', u'F\u00dcNF', 'TWO']:
        for ci in (False, True):
            yield 'discrete', (CH, ci, v)
    import itertools
    for n in range(0, 4):
        for it in itertools.product(['b', 'A', 'B', 'x', ''], repeat=n):
            yield 'multi', (['b', 'A', 'c'], list(it))
    for pat in (r'^[0-9]+\Z', r'ab?', r'(on|off)$', r'', r'^a.c', r'(?i)yes\Z', r'^[^_]*\Z'):
        for v in ['', '1', '12x', 'a', 'ab', 'ba', 'on', 'offx', 'off', 'abc', 'a\nc', 'YES', 'yes ', '_', 'x_', 'on\n']:
            yield 'regex', (pat, v)
    for v in (-1.0, -1e-9, 0.0, 1.5, -0.0, -3, 3, -5e-324):
        yield 'strict', v
    for v in (-1, 2, 'nominal', None):
        yield 'lru', v
    for dn in ('none', 0, 5, -7, 99):
        for opt in (False, True):
            for v in (None, 0, 5, -8, 100):
                for m in (4, 5):
                    yield 'missing', (dn, opt, v, m)


def outcome(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'raise', e


def both(h, T, v, wire, inside, m, p):
    """accepted both ways exactly when inside; through Parameter too"""
    P = K.Parameter(2, 'pn', T, m)
    for what, res, exc in (('pack', outcome(T.pack, v, major=m), ValueError), ('Parameter.pack', outcome(P.pack, v), ValueError),
                           ('unpack', outcome(T.unpack, wire, m), ValueError),
                           ('Parameter.unpack', outcome(P.unpack, wire), FailReply)):
        h.check('accepted exactly inside the constraint', (res[0] == 'ok') == inside, '%s of %r gave %r' % (what, p, res))
        h.check('refused with a value error', res[0] == 'ok' or isinstance(res[1], exc), '%s of %r gave %r' % (what, p, res))
        if res[0] != 'ok' and exc is FailReply:
            h.check('the parameter is named', 'pn' in str(res[1]) and '2' in str(res[1]), str(res[1]))
        if res[0] == 'ok' and 'unpack' in what and not isinstance(v, list):
            h.check('unpacks to the value', res[1] == v, '%r %r' % (p, res))
        if res[0] == 'ok' and what.endswith('pack') and 'un' not in what and not isinstance(v, list):
            h.check('packs to its bytes', res[1] == wire, '%r %r' % (p, res))


def case_range(h, p):
    kind, lo, hi, v, m = p
    if kind == 'Float':
        v = float(v)
    T = getattr(K, kind)(min=lo, max=hi)
    inside = (lo is None or v >= lo) and (hi is None or v <= hi)
    h.nontrivial(p)
    both(h, T, v, getattr(K, kind)().encode(v, m), inside, m, p)


def case_discrete(h, p):
    ch, ci, v = p
    inside = v.lower() in [c.lower() for c in ch] if ci else v in ch
    h.nontrivial((ci, v))
    both(h, K.Discrete(ch, case_insensitive=ci), v, v.encode('utf8'), inside, 5, p)


def case_multi(h, p):
    ch, items = p
    wire = ','.join(items)
    if wire:
        both(h, K.DiscreteMulti(ch), items, wire.encode(), all(i in ch for i in items), 5, p)
    h.nontrivial(tuple(items))


def case_regex(h, p):
    pat, v = p
    h.nontrivial(p)
    both(h, K.Regex(pat), v, v.encode('utf8'), re.match(pat, v) is not None, 5, p)
    both(h, K.Regex(re.compile(pat)), v, v.encode('utf8'), re.match(pat, v) is not None, 4, p)


def case_strict(h, v):
    T = K.StrictTimestamp()
    h.nontrivial(v)
    res = outcome(T.pack, v)
    h.check('negative times refused when packing', (res[0] == 'ok') == (v >= 0), '%r %r' % (v, res))
    res = outcome(T.unpack, T.encode(v, 5))
    h.check('negative times refused when unpacking', (res[0] == 'ok') == (v >= 0), '%r %r' % (v, res))


def case_lru(h, v):
    h.check('only LRU values are packed', outcome(K.Lru().pack, v)[0] == 'raise', v)
    h.check('only LRU names are read', outcome(K.Lru().unpack, str(v).encode())[0] == ('ok' if v == 'nominal' else 'raise'), v)


def case_missing(h, p):
    dn, opt, v, m = p
    kw = {} if dn == 'none' else {'default': dn}
    T = K.Int(min=-7, max=99, optional=opt, **kw)
    h.nontrivial(p)
    eff = v if v is not None else (None if dn == 'none' else dn)
    res = outcome(T.pack, v, major=m)
    ok = eff is not None and -7 <= eff <= 99
    h.check('pack: value, else default, else refused', res == ('ok', b'%d' % eff) if ok else (res[0] == 'raise' and isinstance(res[1], ValueError)), '%r %r' % (p, res))
    res = outcome(T.unpack, None if v is None else b'%d' % v, m)
    if v is None and dn == 'none':
        h.check('absent is accepted exactly when optional', res == ('ok', None) if opt else (res[0] == 'raise' and isinstance(res[1], ValueError)), '%r %r' % (p, res))
    else:
        h.check('unpack: value, else default', res == ('ok', eff) if ok else res[0] == 'raise', '%r %r' % (p, res))
