"""C09 executable contract: random histories of sets and observers on sensors of every type; formatted round trips."""
from common import *      # noqa
import math
from katcp import Sensor

RULE = 'random histories of set / set_value / set_formatted / attach / detach (also from within observers) on every sensor type; formatted round trips through another sensor'
BOUNDS = 'up to 40 operations, 5 observers'
FUNCTIONS = ['core.Sensor.set', '...set_value', '...set_formatted', '...read', '...read_formatted', '...format_reading', '...notify', '...attach', '...detach']
TYPES = ['integer', 'float', 'boolean', 'lru', 'discrete', 'string', 'timestamp', 'address']


BAD = [('integer', 'x'), ('integer', None), ('float', 'x'), ('lru', 5), ('discrete', 'nope'), ('discrete', 3), ('address', 7), ('boolean', None)]


def mk(typ):
    if typ == 'discrete':
        return Sensor.discrete('s', 'd', '', params=['on', 'off', 'e r', u'f\u00fcnf'])
    return getattr(Sensor, typ)('s', 'd', '')


def value(r, typ):
    if typ == 'integer':
        return r.choice([0, -1, 1, 10 ** 20, -2 ** 63, r.randrange(-1000, 1000)])
    if typ == 'float':
        return r.choice([0.0, -0.0, 1e300, 5e-324, 0.1, 1 / 3., -1e-7, 123456789.123456789, float('inf'), -float('inf'), r.uniform(-1e6, 1e6)])
    if typ == 'boolean':
        return r.random() < .5
    if typ == 'lru':
        return r.choice([Sensor.LRU_NOMINAL, Sensor.LRU_ERROR])
    if typ == 'discrete':
        return r.choice(['on', 'off', 'e r', u'f\u00fcnf'])
    if typ == 'string':
        return r.choice(['', 'x', 'a b\n\t', u'\u00e9\u4e2d', '\\@', '\0', 'x' * 300])
    if typ == 'timestamp':
        return stamp(r)
    return r.choice([('1.2.3.4', 5), ('::1', None), ('host', 65535), ('', None), ('1.2.3.4', None), ('fe80::1', 0)])


def stamp(r):
    return r.choice([0.0, 1.0, 1234567890.123456, 0.001, 1e9 + 1 / 3., float(r.randrange(1 << 31)) + r.random(), 1e11, 999999999.999999])


def cases(h):
    r = h.rng
    for typ in TYPES:
        for st in range(7):
            for major in (4, 5):
                for _ in range(h.n(6, 200)):
                    yield 'round', (typ, stamp(r), st, value(r, typ), major)
    for i in range(h.n(300, 10000)):
        yield 'history', (r.choice(TYPES), r.randrange(1 << 30))
    for i in range(h.n(100, 3000)):
        yield 'nested', (r.choice(TYPES), r.randrange(1 << 30))
    for typ, bad in BAD:
        for major in (4, 5):
            yield 'refused', (typ, bad, major)
    yield 'names', ()


def eq(a, b):
    return type(a) == type(b) and a == b and (not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, b))


def near(a, b, major):
    return abs(a - b) <= (0.00101 if major == 4 else 1e-6 + abs(a) * 1e-15)


def case_round(h, p):
    typ, ts, st, v, major = p
    a, b = mk(typ), mk(typ)
    a.set(ts, st, v)
    f = a.read_formatted(major)
    h.check('three byte strings', len(f) == 3 and all(isinstance(x, bytes) for x in f), (p, f))
    h.check('format_reading agrees', a.format_reading(a.read(), major) == f, p)
    b.set_formatted(*f, major=major)
    t2, s2, v2 = b.read()
    h.check('the same time, to the resolution', near(ts, t2, major), (p, t2))
    h.check('the same status', s2 == st, (p, s2))
    if typ == 'timestamp':
        h.check('the same value, to the resolution', near(v, v2, major), (p, v2))
    else:
        h.check('the same value', eq(v, v2), (p, v2))
    h.nontrivial((typ, st, major))


class Obs(object):
    def __init__(self, act=None):
        self.heard, self.act = [], act

    def update(self, sensor, reading):
        self.heard.append((sensor, tuple(reading), tuple(sensor.read())))
        if self.act:
            self.act(self)


def case_history(h, p):
    import random
    typ, seed = p
    r = random.Random(seed)
    s = mk(typ)
    ref = mk(typ)
    obs = [Obs() for _ in range(5)]
    want = [[] for _ in obs]
    on = set()
    kinds = ['nothing', 'nothing', 'self', 'new']
    new = []
    for i, o in enumerate(obs):
        k = r.choice(kinds)
        if k == 'self' and i < 2:
            o.act = lambda o: (s.detach(o), on.discard(obs.index(o)))
        elif k == 'new' and i < 2:
            def act(o):
                x = Obs()
                s.attach(x)
                new.append(x)
            o.act = act
    last = None
    for i in range(r.randrange(1, 41)):
        k = r.random()
        if k < .25:
            j = r.randrange(5)
            s.attach(obs[j])
            on.add(j)
        elif k < .4:
            j = r.randrange(5)
            s.detach(obs[j])
            on.discard(j)
        else:
            ts, st, v = stamp(r), r.randrange(7), value(r, typ)
            for j in on:
                want[j].append((ts, st, v))
            fresh = list(new)
            before = [len(x.heard) for x in fresh]
            how = r.choice(['set', 'set_value', 'set_formatted'])
            if how == 'set':
                s.set(ts, st, v)
            elif how == 'set_value':
                s.set_value(v, st, ts)
            else:
                ref.set(ts, st, v)
                f = ref.read_formatted()
                ref.set_formatted(*f)
                for j in on:
                    want[j][-1] = tuple(ref.read())
                ts, st, v = ref.read()
                s.set_formatted(*f)
            last = (ts, st, v)
            h.check('every later observer hears once', [len(x.heard) for x in fresh] == [b + 1 for b in before], p)
        if last is not None:
            got = tuple(s.read())
            h.check('the reading set is read back', len(got) == 3 and all(eq(a, b) for a, b in zip(got, last)), (p, got, last))
            h.check('value and status', eq(s.value(), last[2]) and s.status() == last[1], p)
    for o, w in zip(obs, want):
        h.check('each observer hears of each set once, in order, with its reading', [e[1] for e in o.heard] == w and all(e[0] is s and e[1] == e[2] for e in o.heard), (p, o.heard[:6], w[:6]))
    h.nontrivial((typ, len(on), last is None))


def case_names(h, p):
    want = {0: 'unknown', 1: 'nominal', 2: 'warn', 3: 'error', 4: 'failure', 5: 'unreachable', 6: 'inactive'}
    h.check('status names', Sensor.STATUSES == want and Sensor.STATUS_NAMES == {v: k for k, v in want.items()} and
            Sensor.STATUSES_RAW == {k: v.encode() for k, v in want.items()} and Sensor.STATUS_NAMES_RAW == {v.encode(): k for k, v in want.items()}, None)
    for i, n in enumerate(TYPES):
        s = mk(n)
        h.check('type names', s.type == n == s.stype and Sensor.parse_type(n) == s._sensor_type, n)
    for bad in ('', 'Integer', 'int', 'x'):
        try:
            Sensor.parse_type(bad)
            h.check('unknown type names are refused', False, bad)
        except Exception as e:
            h.check('unknown type names are refused', type(e).__name__ == 'KatcpSyntaxError', (bad, e))


def case_nested(h, p):
    """other sets (of another thread) in the middle of telling the observers"""
    import random
    typ, seed = p
    r = random.Random(seed)
    s = mk(typ)
    n = r.randrange(2, 90)
    obs = [Obs() for _ in range(n)]
    for o in obs:
        s.attach(o)
    second = (stamp(r), r.randrange(7), value(r, typ))

    def act(o):
        for x in obs:
            x.act = None
        s.set(*second)
    for o in obs:
        o.act = act if r.random() < .5 else None
    first = (stamp(r) + 1, r.randrange(7), value(r, typ))
    nested = any(o.act for o in obs)
    s.set(*first)
    for o in obs:
        got = [e[1] for e in o.heard]
        h.check('each observer hears of each set once, with its reading', got in ([first, second], [second, first]) if nested else got == [first], (p, got, first, second))
    h.check('the last reading is read back', tuple(s.read()) == (second if nested else first), p)


def case_refused(h, p):
    typ, bad, major = p
    s = mk(typ)
    o = Obs()
    s.attach(o)
    before = s.read()
    try:
        s._kattype.check(bad, major)
        passes = True
    except Exception:
        passes = False
    try:
        s.set_value(bad, major=major)
        done = True
    except Exception:
        done = False
    h.check('set_value sets what the type accepts and nothing else', done == passes, p)
    if not done:
        h.check('a refused value changes nothing', s.read() == before and not o.heard, p)
