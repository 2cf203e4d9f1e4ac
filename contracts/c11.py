"""C11: contracts on the strategy factory and on the three sampling requests: validation, atomicity, truthful replies."""
from .common import *          # noqa
import ast

MODULES = ['core', 'kattypes', 'sampling', 'server']
UNDER_CONTRACT = ['sampling.SampleStrategy.get_strategy', 'sampling.Sample{None,Auto,Event,Period,Differential,EventRate,DifferentialRate}.__init__',
                  '...get_sampling', 'sampling.SampleStrategy.get_sampling_formatted', 'server.DeviceServer.request_sensor_sampling',
                  '..._is_bulk_sampling_required', '..._handle_sensor_sampling', '..._handle_bulk_set_sensor_sampling',
                  'core.ProtocolFlags.strategy_allowed', '...bulk_set_sensor_sampling']
ASSUMPTIONS = ['float() and int() of a byte string are functions of its contents; a float literal is finite (a real), nan, inf or -inf',
               'start() and cancel() of a strategy do not raise (proved under C10 and C12)',
               'a FailReply or other exception out of a request handler becomes one fail reply that carries its text and changes nothing else (proved under C06)']
NEEDS = {b'none': 0, b'auto': 0, b'event': 0, b'period': 1, b'differential': 1, b'event-rate': 2, b'differential-rate': 3}
TYPES = ['INTEGER', 'FLOAT', 'BOOLEAN', 'STRING', 'TIMESTAMP', 'DISCRETE', 'ADDRESS', 'LRU']
UF = STR.UF


class Ext(object):
    """extended real denoted by a float literal: (is a number literal, class, value)"""

    def __init__(self, p):
        if isinstance(p, float):
            self.ok, v = z3.BoolVal(True), p
            self.c = z3.IntVal(1 if v != v else 2 if v == float('inf') else 3 if v == -float('inf') else 0)
            self.v = z3.RealVal(repr(v)) if v == v and abs(v) != float('inf') else z3.RealVal(0)
        elif isinstance(p, SReal):
            self.ok, self.c, self.v = z3.BoolVal(True), z3.IntVal(0), p.t
        else:
            s = t(p)
            self.ok, self.c, self.v = UF['fok'](s), UF['fcls'](s), UF['fparse'](s)

    def positive(self):
        return z3.And(self.ok, z3.Or(self.c == 2, z3.And(self.c == 0, self.v > 0)))

    def nonneg(self):
        return z3.And(self.ok, z3.Or(self.c == 2, z3.And(self.c == 0, self.v >= 0)))

    def upto(self, b):
        """self <= b, both being >= 0"""
        return z3.Or(b.c == 2, z3.And(self.c == 0, b.c == 0, self.v <= b.v))


def int_lit(p, least):
    s = t(p)
    dig, neg = z3.InRe(s, R('digits')), z3.InRe(s, z3.Concat(z3.Re(zs('-')), R('digits')))
    val = z3.If(dig, z3.StrToInt(s), z3.If(neg, -z3.StrToInt(z3.SubString(s, 1, z3.Length(s) - 1)), UF['intval_other'](s)))
    return z3.And(z3.Or(dig, neg, UF['intlit_other'](s)), val >= least)


def valid(strat, typ, ps):
    """The strategy may be set on a sensor of this type with these parameters."""
    if len(ps) != NEEDS[strat]:
        return z3.BoolVal(False)
    if strat == b'period':
        return Ext(ps[0]).positive()
    conds = []
    if strat == b'differential':
        if typ not in ('INTEGER', 'FLOAT', 'TIMESTAMP'):
            return z3.BoolVal(False)
        return int_lit(ps[0], 1) if typ == 'INTEGER' else Ext(ps[0]).positive()
    if strat == b'differential-rate':
        if typ not in ('INTEGER', 'FLOAT'):
            return z3.BoolVal(False)
        conds.append(int_lit(ps[0], 0) if typ == 'INTEGER' else Ext(ps[0]).nonneg())
        ps = ps[1:]
    if ps:
        a, b = Ext(ps[0]), Ext(ps[1])
        conds += [a.nonneg(), b.nonneg(), a.upto(b)]
    return z3.And(*conds) if conds else z3.BoolVal(True)


def c_factory(cx):
    """get_strategy accepts exactly the valid parameters and the strategy reports exactly what was asked for."""
    ip = cx.interp
    strat = cx.pick('strategy', list(NEEDS) + ['other'])
    if strat == 'other':
        name = cx.bytes('name')
        for s in NEEDS:
            cx.assume(name.t != zs(s))
        typ, n = 'FLOAT', cx.pick('parameters', [0, 1])
    else:
        name = strat if cx.pick('as', ['bytes', 'text']) == 'bytes' else strat.decode()
        n = cx.pick('parameters', range(5))
        typ = cx.pick('type', TYPES if b'diff' in strat and n == NEEDS[strat] else ['FLOAT'])
    S = ip.get('katcp.core:Sensor')
    extra = {'DISCRETE': [None, ['a', 'b']]}.get(typ, [])
    sensor = ip.call(S, [ip.getattr(S, typ), 'the.name'] + ([None, '', ['a', 'b']] if typ == 'DISCRETE' else []))
    ps = []
    for i in range(n):
        ps.append(cx.bytes('p%d' % i))
    if strat == b'period' and n == 1:
        k = cx.pick('given as', ['bytes', 'number', 'inf', 'nan', '-inf'])       # version 4 hands over seconds as a float
        ps = {'bytes': ps, 'number': [cx.real('f')]}.get(k) or [float(k)]
    got = []
    loop = L.NIOLoop()
    st, x = attempt(ip, ip.getattr(ip.get('katcp.sampling:SampleStrategy'), 'get_strategy'), name, ip.lib.N(lambda *a: got.append(a), 'inform'), sensor, *ps, ioloop=loop)
    cx.prove('nothing is scheduled or sent by making a strategy', not got and not loop.callbacks and not loop.timers)
    cx.prove('the sensor is not observed yet', len(sensor.attrs['_observers'].elems) == 0)
    if strat == 'other':
        cx.prove('an unknown strategy is refused', st == 'raise')
        return
    ok = valid(strat, typ, ps)
    if st == 'raise':
        cx.cover('refused ' + strat.decode())
        cx.prove('valid parameters are accepted', z3.Not(ok), info=ename(x))
        return
    cx.cover('accepted ' + strat.decode())
    cx.prove('invalid parameters are refused', ok)
    st, y = attempt(ip, ip.getattr(x, 'get_sampling_formatted'))
    cx.prove('it can be reported', st == 'ok')
    rn, rp = y
    cx.prove('it reports its name', rn == strat)
    cx.prove('it reports as many parameters as given', len(rp) == n)
    for a, b in zip(rp, ps):
        if is_type(b, 'bytes'):
            cx.prove('it reports the parameters as given', t(a) == t(b))
        else:
            cx.prove('a number is reported as a literal of it', (a.info == ('float', b.t) if isinstance(a, Sym) else float(a) == b), info=(a, b))
    NoneCls = ip.get('katcp.sampling:SampleNone')
    cx.prove('only "none" makes a strategy that does nothing', ip.isinstance_(x, NoneCls) == (strat == b'none'))


SRC = '''
class Client(object):
    def __init__(self):
        self.sent = []
    def inform(self, msg):
        self.sent.append(msg)
class Req(object):
    def __init__(self, client):
        self.client_connection = client
    def make_reply(self, *args):
        return ('reply',) + args
class G(Auto):
    """a strategy by its contract"""
    def __init__(self, name, cb, sensor, params):
        self.name, self.cb, self.sensor, self.params = name, cb, sensor, params
        self.started = self.cancelled = 0
    def start(self):
        self.started += 1
    def cancel(self):
        self.cancelled += 1
    def get_sampling_formatted(self):
        return self.name, [p if isinstance(p, bytes) else str(p).encode('ascii') for p in self.params]
class GN(Nothing):
    def __init__(self, name, cb, sensor, params):
        self.name, self.cb, self.sensor, self.params = name, cb, sensor, params
        self.started = self.cancelled = 0
    def start(self):
        pass
    def cancel(self):
        self.cancelled += 1
    def get_sampling_formatted(self):
        return b'none', []
class Sensor(object):
    def __init__(self, name):
        self.name = name
class D(Base):
    """device"""
    def __init__(self):
        pass
class Msg(object):
    def __init__(self, args):
        self.arguments = list(args)
'''


class H(object):
    """A device with any sensors and, for the client of the request, any strategies."""

    def __init__(self, cx, flags):
        self.cx, ip = cx, cx.interp
        self.ip = ip
        cx.ghost['coroutines'] = True
        self.loop = cx.ghost['ioloop'] = L.NIOLoop()
        self.ns = run_src(ip, SRC, Auto=ip.get('katcp.sampling:SampleAuto'), Nothing=ip.get('katcp.sampling:SampleNone'), Base=ip.get('katcp.server:DeviceServer'))
        self.made, self.old, self.tried = [], [], []
        self.dev = ip.call(self.ns['D'], [])
        self.client, self.other = ip.call(self.ns['Client'], []), ip.call(self.ns['Client'], [])
        mk = lambda ip2, name: ip2.call(self.ns['Sensor'], [name])
        self.sensors = IDict([])
        self.sensors.rest = mk
        self.rest = lambda ip2, sensor: self.an_old(sensor)
        self.map = IDict([])
        self.map.rest = self.rest
        self.bystander = mk(ip, 'bystander')
        self.by_strategy = self.an_old(self.bystander)
        self.map.items.append([self.bystander, self.by_strategy])
        self.sensors.items.append(['bystander', self.bystander])
        self.others = IDict([(self.bystander, self.an_old(self.bystander))])
        self.present = cx.pick('client', ['connected', 'gone']) == 'connected'
        self.strategies = IDict([(self.other, self.others)] + ([(self.client, self.map)] if self.present else []))
        self.dev.attrs.update(_sensors=self.sensors, _strategies=self.strategies, ioloop=self.loop,
                              PROTOCOL_INFO=ip.call(ip.get('katcp.core:ProtocolFlags'), list(flags)))
        self.req = ip.call(self.ns['Req'], [self.client])
        cx.stubs['katcp.sampling:SampleStrategy.get_strategy'] = self.factory

    def an_old(self, sensor):
        x = self.ip.call(self.ns['G'], [b'event', None, sensor, [b'old']])
        self.old.append(x)
        return x

    def factory(self, ip, a, k):
        """get_strategy by its contract (`factory`): refuses, or makes what was asked for and touches nothing."""
        a = list(a[1:] if isinstance(a[0], IClass) else a)
        name, cb, sensor, ps = a[0], a[1], a[2], a[3:]
        if isinstance(name, str):
            name = name.encode()
        names = [s for s in NEEDS if ip.truth(ip.eq(name, s))]
        if not names:
            raise PyExc(ValueError('unknown strategy'))
        must = len(ps) != NEEDS[names[0]]
        refused = must or NEEDS[names[0]] > 0 and self.cx.pick('the factory', ['accepts', 'refuses']) == 'refuses'
        if not refused and names[0] == b'period':
            self.cx.assume(Ext(ps[0]).positive())
        self.tried.append((sensor, names[0], ps, refused, self.untouched()))
        if refused:
            raise PyExc(ValueError('refused'))
        x = ip.call(self.ns['GN' if names[0] == b'none' else 'G'], [names[0], cb, sensor, list(ps)])
        self.made.append(x)
        return x

    def call(self, args):
        ip = self.ip
        msg = ip.call(self.ns['Msg'], [args])
        st, f = attempt(ip, ip.getattr(self.dev, 'request_sensor_sampling'), self.req, msg)
        if st == 'raise':
            return 'raise', f
        self.loop.drain(ip)
        if f.state == 'result':
            return 'ok', f.value
        if f.state == 'exc':
            return 'raise', f.value
        raise Unsupported('the request is not finished: %s' % f.state)

    def untouched(self):
        m = self.map
        return (all(x.attrs['started'] == 0 for x in self.made) and all(x.attrs['cancelled'] == 0 and x.attrs['started'] == 0 for x in self.old)
                and m.version == 0 and m.rest is self.rest and all(v in self.old for _, v in m.items) and self.elsewhere())

    def elsewhere(self):
        """nothing changed for other clients, and no other sensor of this client"""
        s, o = self.strategies, self.others
        return ([k for k, _ in s.items] == [self.other] + [self.client] * self.present and s.items[0][1] is o and (not self.present or s.items[1][1] is self.map)
                and len(o.items) == 1 and o.items[0][1] is self.old[1] and o.version == 0 and self.old[1].attrs['cancelled'] == 0
                and self.map.rest is self.rest and self.map.items[0][1] is self.by_strategy and self.by_strategy.attrs['cancelled'] == 0 and self.sensors.version == 0)

    def entry(self, sensor):
        for k, v in self.map.items:
            if k is sensor:
                return v
        return None


def refused(h, x, what=''):
    cx = h.cx
    cx.cover('refused')
    cx.prove('a refused request leaves every strategy as it was', h.untouched(), info=what)


def c_single(cx):
    """?sensor-sampling of one sensor: any name, strategy and parameters, any strategies before."""
    ip = cx.interp
    flags = cx.pick('protocol', [(4, 0, [b'M']), (5, 0, [b'I', b'M']), (5, 1, [b'I', b'M'])])
    h = H(cx, flags)
    v4 = flags[0] == 4
    n = cx.pick('arguments', range(6))
    args = [cx.bytes('arg%d' % i) for i in range(n)]
    if n:
        cx.assume(args[0].t != zs('bystander'))
    r, x = h.call(args)
    if n == 0:
        cx.prove('a request for no sensor is refused', r == 'raise')
        return refused(h, x)
    known = [s for k, s in h.sensors.items if s is not h.bystander]
    if r == 'raise':
        refused(h, x, ename(x))
        fine = len(known) == 1 and h.present
        if n == 1:
            cx.prove('a query of a known sensor is answered', not fine)
        elif h.tried:
            finite = z3.And(UF['fok'](args[2].t), UF['fcls'](args[2].t) == 0) if v4 and h.tried[0][1] == b'period' else True
            cx.prove('a request with a known sensor, strategy and valid parameters is not refused', not fine or h.tried[-1][3] or z3.Not(finite) if finite is not True else not fine or h.tried[-1][3])
        elif fine:
            bad = z3.And(*[args[1].t != zs(s) for s in NEEDS])
            if v4:
                bad = z3.Or(bad, args[1].t == zs('event-rate'), args[1].t == zs('differential-rate'),
                            z3.And(args[1].t == zs('period'), z3.Not(z3.And(UF['fok'](args[2].t), UF['fcls'](args[2].t) == 0)) if n > 2 else z3.BoolVal(True)))
            cx.prove('a known strategy that the version allows is not refused', bad)
        return
    cx.prove('only a known sensor of a connected client', len(known) == 1 and h.present)
    s = known[0]
    cx.prove('other sensors and clients are untouched', h.elsewhere())
    cx.prove('the reply names the sensor', len(x) >= 3 and x[0] == 'reply' and x[1] in ('ok', b'ok') and ip.truth(ip.eq(x[2], s.attrs['name'])))
    old = [o for o in h.old if o.attrs['sensor'] is s]
    if n == 1:
        cx.cover('queried')
        cx.prove('a query changes nothing', h.untouched() and not any(o.attrs['cancelled'] for o in old))
        want = (b'event', [b'old']) if h.entry(s) is not None else (b'none', [])
        cx.prove('a query reports the current strategy', x[3] == want[0] and list(x[4:]) == want[1])
        return
    cx.cover('set')
    cx.prove('the strategy was validated for this sensor', len(h.tried) >= 1 and h.tried[0][0] is s and not h.tried[0][3])
    cx.prove('it was validated before anything changed', h.tried[0][4])
    _, strat, ps, _, _ = h.tried[0]
    cx.prove('the strategy asked for', args[1].t == zs(strat))
    cx.prove('all its parameters', len(ps) == n - 2)
    for i, (a, b) in enumerate(zip(ps, args[2:])):
        if v4 and strat == b'period' and i == 0:
            cx.prove('the period in seconds', isinstance(a, (SReal, float)) and real_of(a) == UF['fparse'](b.t) / 1000)
        else:
            cx.prove('each parameter', isinstance(a, Sym) and t(a) == b.t)
    if v4:
        cx.prove('only strategies version 4 allows', strat not in (b'event-rate', b'differential-rate'))
    now = h.entry(s)
    if strat == b'none':
        cx.prove('the sensor is not sampled any more', now is None and s in h.map.excluded)
    else:
        cx.prove("the client's strategy for the sensor is the one asked for", now is h.made[0])
        cx.prove('it is started once', now.attrs['started'] == 1 and now.attrs['cancelled'] == 0)
    cx.prove('the strategy before is cancelled once', all(o.attrs['cancelled'] == 1 for o in old))
    cx.prove('nothing else is started', all(m.attrs['started'] == 0 for m in h.made[1:]))
    cx.prove('the reply reports the strategy', x[3] == strat and len(x) == 4 + n - 2)
    for i, (a, b) in enumerate(zip(x[4:], args[2:])):
        if v4 and strat == b'period' and i == 0:
            q = UF['fparse'](b.t)
            d = real_of(a) - q
            cx.prove('the reply reports the period, to the millisecond', z3.And(2 * d <= 1, 2 * d >= -1))
        else:
            cx.prove('the reply reports each parameter', isinstance(a, Sym) and t(a) == b.t)


def real_of(a):
    x = t(a)
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


# ---------------------------------------------------------------- bulk: any number of names, repeated or not
class Wanted(IDict):
    """what the validation loop has collected: for every name of the request, a strategy as asked for (all made for the same request)"""

    def __init__(self, b):
        IDict.__init__(self)
        self.b = b
        self.rest = lambda ip, key: self.make(ip, key)
        self.many = None

    def make(self, ip, name):
        b = self.b
        if b.strat == b'none':
            x = ip.call(b.h.ns['GN'], [b'none', b.cb, b.h.sensors.find(ip, name)[1], []])
        else:
            x = ip.call(b.h.ns['G'], [b.strat, b.cb, b.h.sensors.find(ip, name)[1], list(b.ps)])
        b.h.made.append(x)
        return x

    def find(self, ip, key):
        for it in self.items:
            if it[0] is key:
                return it
        for it in self.items:
            if ip.truth(ip.eq(it[0], key)):
                return it
        it = [key, self.make(ip, key)]
        self.items.append(it)
        return it


class Bulk(object):
    def __init__(self, h, names, ps):
        self.h, self.names, self.ps, self.cb = h, names, ps, None
        self.strat = None
        self.validated = False
        self.applied = False

    def hook(self, ip, n, env, many):
        if many.src is not self.names and many is not self.names:
            return None
        src = ast.dump(ast.Module(body=n.body, type_ignores=[]))
        k = Apply if "attr='start'" in src else Validate if 'get_strategy' in src else Check if "attr='append'" in src else None
        if not k:
            return None
        k = k(self)
        k.node = n
        return k


class Check(EachHook):
    """collects the names that are unknown"""

    def __init__(self, b):
        self.b = b

    def entry(self, ip, env, names):
        ks = {x.func.value.id for x in ast.walk(self.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
              and x.func.attr == 'append' and isinstance(x.func.value, ast.Name)}
        if len(ks) != 1 or env.vars.get(list(ks)[0]) != []:
            raise Unsupported('no single list of unknown names')
        self.list = env.vars[ks.pop()]

    def before(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)

    def begin(self, ip, env, x):
        del self.list[:]
        self.x = x

    def end(self, ip, env, x):
        h = self.b.h
        known = h.sensors.find(ip, x) is not None
        h.cx.prove('a name is listed exactly if it is unknown', (self.list == []) == known and all(y is x for y in self.list))
        h.cx.prove('checking names changes nothing', h.untouched())

    def after(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)
        if self.b.h.cx.pick('names', ['all known', 'one unknown']) == 'one unknown':
            self.list.append(self.b.h.cx.str('unknown_name'))
            self.b.unknown = True
        else:
            self.b.all_known = True


class Validate(EachHook):
    def __init__(self, b):
        self.b = b

    def entry(self, ip, env, names):
        ds = [(k, v) for k, v in env.vars.items() if isinstance(v, IDict) and not v.items and v.rest is None]
        if len(ds) != 1:
            raise Unsupported('no single empty dict to collect strategies')
        self.key, self.dict = ds[0]
        self.n = len(self.b.h.made)

    def before(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)

    def begin(self, ip, env, x):
        self.dict.items = []
        del self.b.h.tried[:], self.b.h.made[:]
        if getattr(self.b, 'all_known', False):
            h = self.b.h
            if h.sensors.find(ip, x) is None:
                raise PathEnd('all names are known')

    def end(self, ip, env, x):
        b, h, cx = self.b, self.b.h, self.b.h.cx
        cx.cover('validated one name')
        cx.prove('validating changes nothing', h.untouched())
        s = h.sensors.find(ip, x)
        cx.prove('only known names get this far', s is not None)
        if not h.tried:
            cx.prove('a name is passed over only when the strategy is unknown', z3.And(*[b.args[1].t != zs(k) for k in NEEDS]))
            cx.prove('and nothing is collected for it', not self.dict.items)
            return
        cx.prove('one strategy is made for each name', len(h.tried) == 1 and not h.tried[0][3] and h.tried[0][0] is s[1])
        cx.prove('with all parameters', len(h.tried[0][2]) == len(b.ps))
        cx.prove('the strategy asked for', b.args[1].t == zs(h.tried[0][1]))
        for p, q in zip(h.tried[0][2], b.ps):
            cx.prove('the parameters asked for', isinstance(p, Sym) and p.t.eq(q.t))
        it = self.dict.find(ip, x)
        cx.prove('and kept under its name', it is not None and it[1] is h.made[0] and len(self.dict.items) == 1)

    def after(self, ip, env, names):
        """every name has been validated (there is at least one)"""
        b, h, cx = self.b, self.b.h, self.b.h.cx
        for nm in names:
            env.vars.pop(nm, None)
        del h.made[:], h.tried[:]
        strats = [s for s in NEEDS if ip.truth(ip.eq(b.args[1], s))]
        if not strats:
            self.dict.items = []
            return
        b.strat = strats[0]
        if len(b.ps) != NEEDS[b.strat]:
            raise PathEnd('the factory refuses that number of parameters for the first name')
        b.validated = True
        w = Wanted(b)
        env.vars[self.key] = w
        last = b.names.pick(ip)
        if h.sensors.find(ip, last) is None:
            raise PathEnd('all names are known')
        b.wanted = w
        b.size = fresh = z3.Int(cx.name('size'))
        w.size = fresh
        cx.assume(fresh >= 1)
        w.many = lambda ip2: w.find(ip2, b.names.pick(ip2))
        for nm in names:
            if nm not in ('name', 'sensor'):
                env.vars[nm] = w.find(ip, last)[1]
        b.last = last


class Apply(EachHook):
    def __init__(self, b):
        self.b = b

    def entry(self, ip, env, names):
        self.b.h.cx.prove('nothing changes before every name is validated', self.b.validated and self.b.h.untouched())

    def before(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)

    def begin(self, ip, env, x):
        b, h = self.b, self.b.h
        if h.sensors.find(ip, x) is None:
            raise PathEnd('all names are known')
        self.s = h.sensors.find(ip, x)[1]
        self.new = b.wanted.find(ip, x)[1]
        self.repeated = h.cx.pick('name', ['first time', 'repeated']) == 'repeated'
        if self.repeated:
            if not h.present:
                raise PathEnd('the first name failed')
            if b.strat == b'none':
                h.map.excluded.append(self.s)
            else:
                h.map.items.append([self.s, self.new])
                self.new.attrs['started'] = 1
        self.v0 = h.map.version

    def end(self, ip, env, x):
        b, h, cx = self.b, self.b.h, self.b.h.cx
        cx.cover('applied one name')
        now = h.entry(self.s)
        cx.prove('a strategy is only set for a connected client', h.present)
        if b.strat == b'none':
            cx.prove('the sensor is not sampled any more', now is None and self.s in h.map.excluded)
        else:
            cx.prove("the client's strategy for the sensor is the one asked for", now is self.new)
            cx.prove('it is started once, also when named twice', now.attrs['started'] == 1 and now.attrs['cancelled'] == 0)
        old = [o for o in h.old if o.attrs['sensor'] is self.s]
        cx.prove('the strategy before is cancelled once', all(o.attrs['cancelled'] == 1 for o in old))
        cx.prove('other sensors and clients are untouched', h.elsewhere())
        cx.prove('nothing else is started', all(m.attrs['started'] == 0 for m in h.made if m is not self.new))

    def after(self, ip, env, names):
        self.before(ip, env, names)
        if not self.b.h.present:
            raise PathEnd('there is a first name, and it failed')
        self.b.applied = True


def c_bulk(cx):
    """?sensor-sampling of any number of sensors with bulk setting enabled."""
    ip = cx.interp
    h = H(cx, (5, 1, [b'I', b'M', b'B']))
    n = cx.pick('arguments', range(1, 6))
    args = [cx.bytes('arg%d' % i) for i in range(n)]
    if n == 1:
        cx.assume(z3.Contains(args[0].t, zs(',')))
    size = z3.Int(cx.name('size'))
    cx.assume(size >= 1)
    text = []

    def pick(ip2):
        x = cx.str('name')
        cx.assume(x.t != zs('bystander'))
        return x
    names = I.Many('names', pick, size, 'names of the request')
    names.src = names
    b = Bulk(h, names, args[2:])
    b.args = args

    def split(ip2, s, sep):
        text.append(s)
        return names

    def join(ip2, sep, seq):
        if seq is names and text:
            return text[0]
        raise Unsupported('join')
    cx.ghost['split'], cx.ghost['join'] = split, join
    cx.loops['for'] = b.hook
    r, x = h.call(args)
    if r == 'raise':
        refused(h, x, ename(x))
        if not h.present:
            return
        cx.prove('nothing is refused once every name is validated', not b.validated)
        if h.tried:
            cx.prove('a name whose strategy is acceptable is not refused', h.tried[-1][3])
        return
    cx.cover('answered')
    cx.prove('every name was validated and then applied', b.validated and b.applied and h.present)
    cx.prove('the reply repeats the names', len(x) == 2 + n and x[0] == 'reply' and x[1] in ('ok', b'ok') and ip.truth(ip.eq(x[2], text[0])))
    cx.prove('and reports the strategy', x[3] == b.strat)
    if b.strat != b'none':
        for p, q in zip(x[4:], args[2:]):
            cx.prove('and the parameters', isinstance(p, Sym) and p.t.eq(q.t))


CONTRACTS = {
    'factory': (c_factory, {}),
    'single': (c_single, {}),
    'bulk': (c_bulk, {}),
}
