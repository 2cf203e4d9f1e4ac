"""C09: contracts on Sensor: what is read back, who is told, and the formatted form."""
from .common import *          # noqa

MODULES = ['core', 'kattypes']
UNDER_CONTRACT = ['core.Sensor.' + m for m in ('__init__', 'attach', 'detach', 'notify', 'set', 'set_value', 'set_formatted', 'read', 'read_formatted',
                                               'format_reading', 'parse_value', 'parse_type', 'parse_params', 'value', 'status')]
ASSUMPTIONS = ['observers do not raise; sets made from within an observer are told to it first (order among nested sets is not specified)',
               'an observer detached by another one while a set is being told may or may not still hear about that set',
               'finite floats are real numbers, float(repr(x)) == x; NaN values are not considered',
               'values are values of the sensor type']
TYPES = ['INTEGER', 'FLOAT', 'BOOLEAN', 'LRU', 'DISCRETE', 'STRING', 'TIMESTAMP', 'ADDRESS']

SRC = '''
class Obs(object):
    def __init__(self, act=None):
        self.heard = []
        self.act = act
    def update(self, sensor, reading):
        self.heard.append((sensor, reading, sensor.read()))
        if self.act is not None:
            self.act(self)
class Kind(object):
    def __init__(self, ok):
        self.ok, self.asked = ok, []
    def check(self, value, major):
        self.asked.append((value, major))
        if not self.ok:
            raise ValueError('refused')
'''


def sensor_of(cx, typ, **k):
    ip = cx.interp
    S = ip.get('katcp.core:Sensor')
    if typ == 'DISCRETE':
        k.setdefault('params', ['on', 'off', 'e r'])
    return ip.call(S, [ip.getattr(S, typ), 'the.sensor'], k)


def value_of(cx, typ, name='value'):
    if typ == 'INTEGER':
        return cx.int(name)
    if typ in ('FLOAT', 'TIMESTAMP'):
        v = cx.real(name)
        if typ == 'TIMESTAMP':
            cx.assume(v.t >= 0)
        return v
    if typ == 'BOOLEAN':
        return cx.pick(name, [True, False])
    if typ == 'LRU':
        return cx.pick(name, [0, 1])
    if typ == 'DISCRETE':
        return cx.pick(name, ['on', 'off', 'e r'])
    if typ == 'STRING':
        s = cx.str(name)
        cx.assume(STR.UF['nosurr'](s.t))
        return s
    port = None if cx.pick('port', ['none', 'some']) == 'none' else cx.int('port')
    if port is not None:
        cx.assume(port.t >= 0)
    return (cx.pick('host', ['', '127.0.0.1', 'host.name', '::1', 'fe80::2']), port)


def triple(ip, r):
    return tuple(ip.items_of(r))


def same(ip, a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Tell(EachHook):
    def __init__(self, w, many):
        self.w, self.many = w, many

    def before(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)

    def begin(self, ip, env, x):
        w = self.w
        cx = w.cx
        w.others = None
        if cx.pick('meanwhile another thread', ['does nothing', 'sets the sensor']) == 'sets the sensor':
            # (it tells the observers itself)
            w.others = (cx.real('their_time'), cx.int('their_status'), value_of(cx, w.typ, 'their_value'))
            cx.stubs['katcp.core:Sensor.notify'] = lambda ip2, a, k: None
            w.call('set', *w.others)
            del cx.stubs['katcp.core:Sensor.notify']
        x.attrs['act'] = ip.lib.N(w.act, 'act')
        self.mark = [len(o.attrs['heard']) for o in w.known]

    def end(self, ip, env, x):
        w, cx = self.w, self.w.cx
        w.whole(self.many)
        h = x.attrs['heard']
        cx.prove('the observer is told exactly once', len(h) == 1)
        cx.prove('nobody else is told', [len(o.attrs['heard']) for o in w.known if o is not x] == [m for o, m in zip(w.known, self.mark) if o is not x])
        if len(h) == 1:
            cx.prove('about this sensor', h[0][0] is w.sensor)
            cx.prove('with the reading set', same(ip, triple(ip, h[0][1]), w.new))
            cx.prove('which the sensor has by then', same(ip, triple(ip, h[0][2]), w.others or w.new))

    def broken(self, ip, env, x):
        self.w.cx.prove('every observer is told', False, info='the loop is left early')
        raise PathEnd()

    def after(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)
        self.w.told += 1


class World(object):
    """a sensor of any type with any observers"""

    def __init__(self, cx):
        self.cx, ip = cx, cx.interp
        self.ip = ip
        self.typ = cx.pick('type', ['INTEGER', 'STRING', 'ADDRESS'])
        self.sensor = sensor_of(cx, self.typ)
        self.ns = run_src(ip, SRC)
        need(self.sensor, '_observers')
        self.set_ = self.sensor.attrs['_observers']
        if not isinstance(self.set_, ISet):
            raise Unsupported('observers are not kept in a set')
        self.known = []
        self.made = None
        self.rest = lambda ip2, x: None
        self.set_.rest = self.rest
        self.set_.many = lambda ip2: self.obs()
        self.told = 0
        cx.loops['for'] = self.hook

    def obs(self):
        o = self.ip.call(self.ns['Obs'], [])
        self.known.append(o)
        return o

    def hook(self, ip, n, env, many):
        if many.root().src is not self.set_:
            return None
        return Tell(self, many)

    def whole(self, many):
        """nobody is left out"""
        if self.cx.choose(2, None) == 1:
            taken, x = many.outcome(self.ip)
            self.cx.prove('every observer is told', taken)
            raise PathEnd()

    def act(self, o):
        """what an observer may do: nothing, or change who observes"""
        k = self.cx.pick('the observer', ['does nothing', 'attaches another', 'detaches itself', 'detaches another'])
        g = lambda n: self.ip.getattr(self.sensor, n)
        if k == 'attaches another':
            self.made = self.ip.call(self.ns['Obs'], [])
            self.ip.call(g('attach'), [self.made])
        elif k == 'detaches itself':
            self.ip.call(g('detach'), [o])
        elif k == 'detaches another':
            self.ip.call(g('detach'), [self.ip.call(self.ns['Obs'], [])])

    def call(self, name, *a):
        return attempt(self.ip, self.ip.getattr(self.sensor, name), *a)

    def read(self):
        st, r = self.call('read')
        self.cx.prove('reading never raises', st == 'ok')
        return triple(self.ip, r)


def c_set(cx):
    """set and set_value"""
    ip = cx.interp
    w = World(cx)
    before = w.read()
    v, s, ts = value_of(cx, w.typ), cx.int('status'), cx.real('time')
    cx.assume(z3.And(s.t >= 0, s.t <= 6))
    how = cx.pick('by', ['set', 'set_value', 'set_value now'])
    w.new = (ts, s, v)
    if how == 'set':
        st, x = w.call('set', ts, s, v)
    else:
        kind = ip.call(w.ns['Kind'], [cx.pick('the value', ['passes', 'is refused']) == 'passes'])
        w.sensor.attrs['_kattype'] = kind
        m = cx.int('major')
        if how == 'set_value':
            st, x = w.call('set_value', v, s, ts, m)
        else:
            # the time is then the current time: watch what is set
            setting = []
            cx.stubs['katcp.core:Sensor.set'] = lambda ip2, a, k: setting.append((a, k))
            st, x = w.call('set_value', v, s, None, m)
            if kind.attrs['ok']:
                cx.prove('set with the current time', st == 'ok' and len(setting) == 1 and same(ip, setting[0][0][2:], (s, v)) and is_type(setting[0][0][1], 'float'), info=setting)
            else:
                cx.prove('a refused value is not set', st == 'raise' and not setting)
            return
        cx.prove('checked by the type', len(kind.attrs['asked']) == 1 and same(ip, kind.attrs['asked'][0], (v, m)))
        if not kind.attrs['ok']:
            cx.prove('a refused value raises', st == 'raise' and is_exc(ip, x, ValueError))
            cx.prove('and changes nothing', same(ip, w.read(), before) and not w.told)
            return
    cx.prove('setting never raises', st == 'ok', info=ename(x))
    cx.prove('observers are told once', w.told == 1, info=w.told)
    cx.prove('the reading set is read back', same(ip, w.read(), w.new))
    cx.prove('value() and status()', w.call('value') == ('ok', v) and w.call('status')[1] is s)
    cx.cover('set')


def c_observers(cx):
    """attach and detach change exactly one observer"""
    ip = cx.interp
    w = World(cx)
    a, b = w.obs(), w.obs()
    S = w.set_
    was = {}
    for o in (a, b):
        was[o] = S.has(ip, o)
    op = cx.pick('operation', ['attach', 'detach'])
    st, x = w.call(op, a)
    cx.prove('never raises', st == 'ok')
    S = w.sensor.attrs['_observers']
    now = {o: S.has(ip, o) for o in (a, b)}
    cx.prove('attached, or not any more', now[a] is (op == 'attach'))
    cx.prove('no other observer is affected', now[b] is was[b] and S.rest is w.rest)
    cx.prove('nobody is told and the reading stays', not a.attrs['heard'] and not b.attrs['heard'])
    cx.prove('no double registration', sum(1 for e in S.elems if e is a) <= 1)


def c_history(cx):
    """A few sets with observers coming and going, as a caller sees it (any values)."""
    ip = cx.interp
    sensor = sensor_of(cx, 'INTEGER')
    ns = run_src(ip, SRC)
    obs = [ip.call(ns['Obs'], []) for _ in range(2)]
    want = [[], []]
    on = [False, False]
    for step in range(4):
        op = cx.pick('step %d' % step, ['set', 'attach', 'detach'])
        if op == 'set':
            r = (cx.real('time'), cx.pick('status %d' % step, [0, 3]), cx.int('value'))
            cx.prove('never raises', attempt(ip, ip.getattr(sensor, 'set'), *r)[0] == 'ok')
            cx.prove('read back', same(ip, triple(ip, ip.call(ip.getattr(sensor, 'read'), [])), r))
            for k in (0, 1):
                if on[k]:
                    want[k].append(r)
            continue
        k = cx.pick('observer %d' % step, [0, 1])
        on[k] = op == 'attach'
        cx.prove('never raises', attempt(ip, ip.getattr(sensor, op), obs[k])[0] == 'ok')
    for o, wnt in zip(obs, want):
        h = o.attrs['heard']
        cx.prove('each attached observer hears of each set once, in order', len(h) == len(wnt) and all(
            e[0] is sensor and same(ip, triple(ip, e[1]), x) for e, x in zip(h, wnt)))


def c_formatted(cx, typ=None):
    """a reading formatted and set from the formatted form, on another sensor of the type"""
    ip = cx.interp
    typ = typ or cx.pick('type', TYPES)
    cx.FEAS_MS = 700
    a, b = sensor_of(cx, typ), sensor_of(cx, typ)
    major = cx.pick('major', [4, 5])
    s = cx.pick('status', range(7))
    v, ts = value_of(cx, typ), cx.real('time')
    cx.assume(ts.t >= 0)
    st, x = attempt(ip, ip.getattr(a, 'set'), ts, s, v)
    cx.prove('setting never raises', st == 'ok')
    how = cx.pick('formatted by', ['read_formatted', 'format_reading'])
    st, f = attempt(ip, ip.getattr(a, 'read_formatted'), major) if how == 'read_formatted' else \
        attempt(ip, ip.getattr(a, 'format_reading'), ip.call(ip.getattr(a, 'read'), []), major)
    cx.prove('every reading can be formatted', st == 'ok', info=ename(f))
    f = triple(ip, f)
    cx.prove('three byte strings', len(f) == 3 and all(is_type(e, 'bytes') for e in f))
    st, x = attempt(ip, ip.getattr(b, 'set_formatted'), *(list(f) + [major]))
    cx.prove('and set from its formatted form', st == 'ok', info=ename(x))
    if st != 'ok':
        raise PathEnd('reported')
    t2, s2, v2 = triple(ip, ip.call(ip.getattr(b, 'read'), []))
    cx.prove('the same status', s2 == s and is_type(s2, 'int'))
    d = t(t2) - ts.t
    cx.prove('the same time, to the resolution', z3.And(d < z3.RealVal('1/500'), -d < z3.RealVal('1/500')) if major == 4 else z3.And(
        d <= z3.RealVal('1/1000000'), -d <= z3.RealVal('1/1000000')))
    if typ == 'TIMESTAMP':
        d = t(v2) - v.t
        cx.prove('the same value, to the resolution', z3.And(d < z3.RealVal('1/500'), -d < z3.RealVal('1/500')) if major == 4 else z3.And(
            d <= z3.RealVal('1/1000000'), -d <= z3.RealVal('1/1000000')))
    elif isinstance(v, tuple):
        h, p = v2
        cx.prove('the same value', (h == v[0] if not isinstance(h, Sym) else t(h) == zs(v[0])) and (
            (p is None) if v[1] is None else p is not None))
        if v[1] is not None and p is not None:
            cx.prove('the same port', t(p) == v[1].t)
    elif isinstance(v, Sym):
        cx.prove('the same value', is_type(v2, v.pyname) and t(v2) == t(v))
    else:
        e = ip.eq(v2, v)
        cx.prove('the same value', ip.zbool(e) if not isinstance(e, bool) else e)


def c_names(cx):
    """status and type names"""
    ip = cx.interp
    S = ip.get('katcp.core:Sensor')
    g = lambda n: ip.getattr(S, n)
    want = {0: 'unknown', 1: 'nominal', 2: 'warn', 3: 'error', 4: 'failure', 5: 'unreachable', 6: 'inactive'}
    cx.prove('the statuses', [g(n) for n in ('UNKNOWN', 'NOMINAL', 'WARN', 'ERROR', 'FAILURE', 'UNREACHABLE', 'INACTIVE')] == list(range(7)))
    D = lambda n: dict(ip.dict_items(g(n)))
    cx.prove('every status has its name', D('STATUSES') == want and D('STATUSES_RAW') == {k: v.encode() for k, v in want.items()})
    cx.prove('every name has its status', D('STATUS_NAMES') == {v: k for k, v in want.items()} and D('STATUS_NAMES_RAW') == {v.encode(): k for k, v in want.items()})
    types = ['integer', 'float', 'boolean', 'lru', 'discrete', 'string', 'timestamp', 'address']
    for i, (n, c) in enumerate(zip(types, TYPES)):
        s = sensor_of(cx, c)
        cx.prove('the type name', s.attrs['type'] == n == s.attrs['stype'])
        cx.prove('and back', ip.call(g('parse_type'), [n]) == g(c) == i)
    x = cx.str('other')
    st, r = attempt(ip, g('parse_type'), x)
    if st == 'raise':
        cx.prove('only unknown names are refused', z3.And(*[x.t != zs(n) for n in types]))
    else:
        cx.prove('every accepted name is the type', z3.Or(*[z3.And(x.t == zs(n), t(r) == i) for i, n in enumerate(types)]))


CONTRACTS = {'set': (c_set, {'expect': ['set', 'loop iteration']}), 'observers': (c_observers, {}), 'history': (c_history, {}),
             'formatted': (c_formatted, {'split': TYPES}), 'names': (c_names, {})}
