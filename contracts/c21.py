"""C21: contracts on every place where a time or period crosses the wire."""
from .common import *          # noqa

MODULES = ['core', 'kattypes', 'sampling', 'server', 'client', 'inspecting_client']
UNDER_CONTRACT = ['kattypes.Timestamp.encode', '...decode', 'kattypes.TimestampOrNow.encode', '...decode',
                  'core.Sensor.format_reading', '...read_formatted', '...set_formatted',
                  'sampling.format_inform_v4', '...format_inform_v5',
                  'server.DeviceServerBase.create_log_inform', 'server.DeviceServer._handle_sensor_sampling',
                  '..._handle_bulk_set_sensor_sampling', '...request_sensor_value', '...request_request_timeout_hint',
                  'client.DeviceClient.convert_seconds', 'inspecting_client.InspectingClientAsync.update_sensor',
                  '..._cb_inform_sensor_status']
ASSUMPTIONS = ['times are finite and treated as real numbers (the rounding of double arithmetic is not modelled; it is '
               'below the wire resolution for times before the year 2200)',
               "'%.Nf' and float() denote the decimal literal they write and read"]
OBJ = '''
class O(object):
    pass
'''


def obj(cx, **attrs):
    ip = cx.interp
    c = cx.ghost.get('O')
    if c is None:
        c = cx.ghost['O'] = run_src(ip, OBJ)['O']
    o = ip.call(c, [])
    o.attrs.update(attrs)
    return o


def anymajor(cx):
    v = cx.int('major')
    cx.assume(v.t >= 1)
    return v


def num(cx, lit):
    """(is a number, the number) denoted by bytes; None for a literal that is not finite."""
    if isinstance(lit, (bytes, str)):
        try:
            v = float(lit)
        except ValueError:
            return z3.BoolVal(False), z3.RealVal(0)
        if v != v or v in (float('inf'), -float('inf')):
            return z3.BoolVal(True), None
        return z3.BoolVal(True), z3.RealVal(repr(v))
    if lit.info and lit.info[0] in ('int', 'float'):
        x = lit.info[1]
        return z3.BoolVal(True), z3.ToReal(x) if x.sort() == z3.IntSort() else x
    return STR.UF['fok'](lit.t), STR.UF['fparse'](lit.t)


def real(v):
    """z3 real of a value; None if it is not finite."""
    if isinstance(v, float) and (v != v or v in (float('inf'), -float('inf'))):
        return None
    x = t(v)
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def wire(cx, what, lit, v, major):
    """The bytes `lit` denote time v in the unit of `major`."""
    ok, q = num(cx, lit)
    cx.prove(what + ': is a number', ok)
    d, m = q - t(v), t(major)
    cx.prove(what + ': seconds from version 5, to the microsecond',
             z3.Implies(m >= 5, z3.And(d <= z3.RealVal('0.000001'), d >= -z3.RealVal('0.000001'))))
    d = q - 1000 * t(v)
    cx.prove(what + ': milliseconds before version 5, to the millisecond', z3.Implies(m < 5, z3.And(d < 1, d > -1)))


def unwire(what, cx, lit, got, major):
    q = STR.UF['fparse'](t(lit))
    got = real(got)
    if got is None:
        cx.cover('not finite')
        return
    cx.prove(what, got == z3.If(t(major) >= 5, q, q / 1000))


def c_ts(cx):
    """Timestamp and TimestampOrNow encode any time, for every major."""
    ip = cx.interp
    T = ip.call(ip.get('katcp.kattypes:' + cx.pick('type', ['Timestamp', 'TimestampOrNow'])), [])
    v, m = cx.real('v'), anymajor(cx)
    cx.assume(z3.Not(STR.UF['fok'](zs(b'now'))))
    if cx.pick('via', ['encode', 'pack']) == 'encode':
        st, x = attempt(ip, ip.getattr(T, 'encode'), v, m)
    else:
        st, x = attempt(ip, ip.getattr(T, 'pack'), v, major=m)
    cx.prove('a time is encoded', st == 'ok', info=ename(x))
    wire(cx, 'encoded', x, v, m)
    st, y = attempt(ip, ip.getattr(T, 'unpack'), x, m)
    cx.prove('it decodes', st == 'ok')
    if not isinstance(y, Sym):
        cx.prove('to a time', z3.BoolVal(False))
    d = t(y) - t(v)
    cx.prove('to the same time within the wire resolution', z3.And(
        z3.Implies(m.t >= 5, z3.And(d <= z3.RealVal('0.000001'), d >= -z3.RealVal('0.000001'))),
        z3.Implies(m.t < 5, z3.And(d < z3.RealVal('0.001'), d > -z3.RealVal('0.001')))))


def c_ts_dec(cx):
    """Timestamp decodes any byte string, for every major."""
    ip = cx.interp
    which = cx.pick('type', ['Timestamp', 'TimestampOrNow'])
    T = ip.call(ip.get('katcp.kattypes:' + which), [])
    b, m = cx.bytes('b'), anymajor(cx)
    st, y = attempt(ip, ip.getattr(T, 'decode'), b, m)
    if st == 'ok':
        if which == 'TimestampOrNow' and y is ip.getattr(T, 'NOW'):
            cx.cover('now')
            cx.prove('only "now" is now', b.t == zs(b'now'))
            st, z = attempt(ip, ip.getattr(T, 'encode'), y, m)
            cx.prove('now is written as now', st == 'ok' and z == b'now')
            return
        cx.cover('time')
        cx.prove('only numbers are times', STR.UF['fok'](b.t))
        unwire('decoded in the unit of the version', cx, b, y, m)
    else:
        cx.cover('refused')
        cx.prove('refused with a value error', is_exc(ip, y, ValueError))
        cx.prove('numbers are times', z3.Not(STR.UF['fok'](b.t)))


def c_convert(cx):
    """convert_seconds for every detected version."""
    ip = cx.interp
    v, m = cx.real('v'), anymajor(cx)
    self_ = obj(cx, protocol_flags=obj(cx, major=m))
    st, x = attempt(ip, ip.get('katcp.client:DeviceClient.convert_seconds'), self_, v)
    cx.prove('converted', st == 'ok')
    q = t(x)
    q = z3.ToReal(q) if q.sort() == z3.IntSort() else q
    d = q - 1000 * v.t
    cx.prove('seconds from version 5', z3.Implies(m.t >= 5, q == v.t))
    cx.prove('milliseconds under version 4', z3.Implies(m.t == 4, d == 0))
    cx.prove('milliseconds before version 4, to the millisecond', z3.Implies(m.t < 4, z3.And(d < 1, d > -1)))


def c_log(cx):
    """time and argument order of log informs, given time or none."""
    ip = cx.interp
    m = anymajor(cx)
    self_ = obj(cx, PROTOCOL_INFO=obj(cx, major=m))
    ts = cx.real('timestamp')
    now = None
    kw = {}
    if cx.pick('time', ['given', 'now']) == 'given':
        kw['timestamp'] = ts
        want = ts
    else:
        want = None
    st, x = attempt(ip, ip.get('katcp.server:DeviceServerBase.create_log_inform'), self_, 'warn', 'the text', 'the.name', **kw)
    cx.prove('a log inform is made', st == 'ok', info=ename(x))
    a = ip.getattr(x, 'arguments')
    cx.prove('level, time, name, text', len(a) == 4 and a[0] == b'warn' and a[2] == b'the.name' and a[3] == b'the text')
    if want is None:
        now = cx.ghost.get('time.time')
        if not now:
            raise Unsupported('no clock reading recorded')
        want = now[-1]
    wire(cx, 'log time', a[1], want, m)


def mksensor(cx, typ='INTEGER'):
    ip = cx.interp
    S = ip.get('katcp.core:Sensor')
    return ip.call(S, [ip.getattr(S, typ), 'the.name'])


def c_sensor(cx):
    """format_reading / read_formatted / set_formatted of an integer sensor and of a timestamp sensor."""
    ip = cx.interp
    typ = cx.pick('type', ['INTEGER', 'TIMESTAMP'])
    s = mksensor(cx, typ)
    ts, m = cx.real('ts'), anymajor(cx)
    val = cx.int('val') if typ == 'INTEGER' else cx.real('val')
    status = cx.pick('status', range(6))
    how = cx.pick('how', ['format_reading', 'read_formatted', 'default'])
    if how == 'format_reading':
        st, x = attempt(ip, ip.getattr(s, how), (ts, status, val), m)
    else:
        st, _ = attempt(ip, ip.getattr(s, 'set'), ts, status, val)
        if how == 'default':
            cx.assume(m.t == 5)
            st, x = attempt(ip, ip.getattr(s, 'read_formatted'))
        else:
            st, x = attempt(ip, ip.getattr(s, 'read_formatted'), m)
    cx.prove('a reading can be formatted', st == 'ok', info=ename(x))
    wire(cx, 'reading time', x[0], ts, m)
    if typ == 'TIMESTAMP':
        wire(cx, 'timestamp value', x[2], val, m)


def c_set(cx):
    """set_formatted reads the time in the unit of the version it is told."""
    ip = cx.interp
    typ = cx.pick('type', ['STRING', 'TIMESTAMP'])
    s = mksensor(cx, typ)
    rt, rv, m = cx.bytes('rt'), cx.bytes('rv'), anymajor(cx)
    st, x = attempt(ip, ip.getattr(s, 'set_formatted'), rt, b'warn', rv, m)
    ok = z3.And(STR.UF['fok'](rt.t), STR.UF['fok'](rv.t) if typ == 'TIMESTAMP' else z3.BoolVal(True))
    if st == 'ok':
        cx.cover('set')
        r = ip.call(ip.getattr(s, 'read'), [])
        unwire('reading time read in the unit of the version', cx, rt, ip.getattr(r, 'timestamp'), m)
        if typ == 'TIMESTAMP':
            unwire('timestamp value read in the unit of the version', cx, rv, ip.getattr(r, 'value'), m)
    else:
        cx.cover('refused')
        cx.prove('numbers are not refused as times', z3.Or(z3.Not(ok), z3.BoolVal(typ == 'STRING')))


def c_inform(cx):
    """format_inform_v4 / v5."""
    ip = cx.interp
    v = cx.pick('version', [4, 5])
    s = mksensor(cx)
    ts, val = cx.real('ts'), cx.int('val')
    st, x = attempt(ip, ip.get('katcp.sampling:format_inform_v%d' % v), s, ts, 1, val)
    cx.prove('an inform is made', st == 'ok')
    a = ip.getattr(x, 'arguments')
    cx.prove('time, count, name, status, value', len(a) == 5 and a[1] == b'1' and a[2] == b'the.name' and a[3] == b'nominal')
    wire(cx, 'sensor-status time', a[0], ts, v)


def run_co(cx, loop, f):
    for _ in range(20):
        if getattr(f, 'state', None) in ('result', 'exc'):
            break
        if not loop.callbacks:
            break
        loop.run_next(cx.interp)
    return f


def server(cx, major, flags=()):
    ip = cx.interp
    PF = ip.get('katcp.core:ProtocolFlags')
    pf = ip.call(PF, [major, 1, ip.call(ip.getattr(ip.get('builtins'), 'set'), [])]) if False else obj(cx, major=major)
    s = mksensor(cx)
    d = IDict()
    d.set(ip, 'the.name', s)
    srv = obj(cx, PROTOCOL_INFO=pf, _sensors=d, ioloop=L.NIOLoop())
    return srv, s


STRAT = '''
class Strat(object):
    """records what the server asked for; reports what get_sampling_formatted promises"""
    def __init__(self, name, cb, sensor, params):
        self.name, self.cb, self.sensor, self.params = name, cb, sensor, params
        self.started = 0
    def start(self):
        self.started += 1
    def cancel(self):
        pass
    def get_sampling_formatted(self):
        return self.name, [p if isinstance(p, bytes) else str(p).encode('ascii') for p in self.params]
class PF(object):
    bulk_set_sensor_sampling = False
    def __init__(self, major):
        self.major = major
    def strategy_allowed(self, s):
        return True
class Client(object):
    def __init__(self):
        self.sent = []
    def inform(self, msg):
        self.sent.append(msg)
class Req(object):
    def __init__(self, client):
        self.client_connection = client
    def make_reply(self, *args):
        return ('reply',) + args
class Srv(object):
    def __init__(self, pf, sensor, client):
        self.PROTOCOL_INFO = pf
        self._sensors = {'the.name': sensor}
        self._strategies = {client: {}}
        self.ioloop = None
class Msg(object):
    def __init__(self, *args):
        self.arguments = list(args)
'''


def c_period(cx):
    """Sampling periods: what ?sensor-sampling hands to the strategy, what it reports back, and the unit of its informs."""
    ip = cx.interp
    ns = run_src(ip, STRAT)
    v = cx.pick('version', [4, 5])
    bulk = cx.pick('handler', ['_handle_sensor_sampling', '_handle_bulk_set_sensor_sampling'] if v == 5 else ['_handle_sensor_sampling'])
    s = mksensor(cx)
    made = []

    def get(ip2, a, k):
        name = a[0] if isinstance(a[0], bytes) else a[0].encode() if isinstance(a[0], str) else a[0]
        x = ip2.call(ns['Strat'], [name, a[1], a[2], list(a[3:])])
        made.append(x)
        return x
    cx.stubs['katcp.sampling:SampleStrategy.get_strategy'] = lambda ip2, a, k: get(ip2, a[1:] if isinstance(a[0], IClass) else a, k)
    client = ip.call(ns['Client'], [])
    srv = ip.call(ns['Srv'], [ip.call(ns['PF'], [v]), s, client])
    req = ip.call(ns['Req'], [client])
    strat = cx.pick('strategy', [b'period', b'event-rate', b'auto'] if v == 5 else [b'period', b'auto'])
    p = cx.bytes('period')
    cx.assume(STR.UF['fok'](p.t))
    args = [p] if strat == b'period' else [p, p] if strat == b'event-rate' else []
    msg = ip.call(ns['Msg'], [b'the.name', strat] + args)
    st, f = attempt(ip, ip.get('katcp.server:DeviceServer.' + bulk), srv, req, msg)
    if st == 'ok' and f.state == 'exc':
        raise PathEnd('not finite')
    if st != 'ok' or f.state != 'result':
        raise Unsupported('sampling handler did not finish: %r %r' % (st, f))
    cx.prove('one strategy is made', len(made) == 1)
    got = made[0].attrs['params']
    q = STR.UF['fparse'](p.t)
    cx.prove('it is started once', made[0].attrs['started'] == 1)
    for x in got:
        if isinstance(x, float):
            raise PathEnd('not finite')
        xv = x.t if isinstance(x, Sym) and x.t.sort() == z3.RealSort() else STR.UF['fparse'](t(x))
        cx.prove('the strategy is given seconds', xv == (q / 1000 if v == 4 else q))
    rep = f.value
    cx.prove('the reply names the strategy', len(rep) == 4 + len(got) and rep[3] == strat)
    k = z3.Int('ms')
    for x in rep[4:]:
        if x is p:
            xv = q
        else:
            xv = num(cx, x)[1] if is_type(x, 'bytes', 'str') else real(x)
        cx.prove('the reply reports the period in the wire unit', z3.And(xv - q <= 1, q - xv <= 1) if v == 4 else xv == q)
        cx.prove('a whole number of milliseconds is reported unchanged',
                 z3.Implies(q == z3.ToReal(k), xv == z3.ToReal(k)))
    ts, val = cx.real('ts'), cx.int('val')
    st, _ = attempt(ip, made[0].attrs['cb'], s, (ts, 1, val))
    sent = client.attrs['sent']
    cx.prove('an update reaches the client once', st == 'ok' and len(sent) == 1)
    wire(cx, 'update time', ip.getattr(sent[0], 'arguments')[0], ts, v)


def c_value(cx):
    """?sensor-value reports readings in the unit of the server's protocol."""
    ip = cx.interp
    ns = run_src(ip, STRAT + '''
class R2(Req):
    def __init__(self):
        self.informs = []
    def inform(self, *args):
        self.informs.append(args)
''')
    m = anymajor(cx)
    s = mksensor(cx)
    ts, val = cx.real('ts'), cx.int('val')
    ip.call(ip.getattr(s, 'set'), [ts, 1, val])
    srv = ip.call(ns['Srv'], [ip.call(ns['PF'], [m]), s, None])
    req = ip.call(ns['R2'], [])
    msg = ip.call(ns['Msg'], cx.pick('args', [[], [b'the.name'], [b'/name/']]))
    st, x = attempt(ip, ip.get('katcp.server:DeviceServer.request_sensor_value'), srv, req, msg)
    cx.prove('answered', st == 'ok', info=ename(x))
    inf = req.attrs['informs']
    cx.prove('one inform', len(inf) == 1)
    wire(cx, 'sensor-value time', inf[0][0], ts, m)


def c_hint(cx):
    """?request-timeout-hint: informs are (name, seconds) whatever the version."""
    ip = cx.interp
    ns = run_src(ip, STRAT + '''
class R2(Req):
    def __init__(self):
        self.informs = []
    def inform(self, *args):
        self.informs.append(args)
    def make_reply(self, *args):
        return args
class H(object):
    pass
h = H()
k = H()
''')
    hint = cx.real('hint')
    cx.assume(hint.t > 0)
    ns['h'].attrs['request_timeout_hint'] = hint
    srv = ip.call(ns['Srv'], [None, None, None])
    srv.attrs['_request_handlers'] = d = ip.call(run_src(ip, 'def f(h, k):\n    return {"slow": h, "fast": k}\n')['f'], [ns['h'], ns['k']])
    req = ip.call(ns['R2'], [])
    msg = ip.call(ip.getattr(ip.get('katcp.core:Message'), 'request'),
                  ['request-timeout-hint'] + cx.pick('args', [[], [b'slow']]))
    st, x = attempt(ip, ip.get('katcp.server:DeviceServer.request_request_timeout_hint'), srv, req, msg)
    cx.prove('answered', st == 'ok', info=ename(x))
    inf = req.attrs['informs']
    cx.prove('one inform', len(inf) == 1 and inf[0][0] in ('slow', b'slow'))
    h_ = inf[0][1]
    ht = t(h_)
    ht = ht if ht.sort() == z3.RealSort() else STR.UF['fparse'](ht)
    cx.prove('the hint is in seconds', ht == hint.t)


def c_client(cx):
    """The inspecting client reads #sensor-status in the unit of the server's protocol."""
    ip = cx.interp
    ns = run_src(ip, '''
class Sensor(object):
    def __init__(self):
        self.sets = []
    def set_formatted(self, *a):
        self.sets.append(a)
class Self(object):
    pass
''')
    m = anymajor(cx)
    s = ip.call(ns['Sensor'], [])
    self_ = ip.call(ns['Self'], [])
    cached = IDict()
    cached.set(ip, 'the.name', s) if hasattr(cached, 'set') else None
    self_.attrs['_sensor_object_cache'] = ip.call(run_src(ip, 'def f(s):\n    return {"the.name": s}\n')['f'], [s])
    self_.attrs['katcp_client'] = obj(cx, protocol_flags=obj(cx, major=m))
    a, b, c = cx.bytes('ts'), cx.bytes('status'), cx.bytes('value')
    st, f = attempt(ip, ip.get('katcp.inspecting_client:InspectingClientAsync.update_sensor'), self_, 'the.name', a, b, c)
    if st != 'ok' or f.state != 'result':
        raise Unsupported('update_sensor did not finish')
    sets = s.attrs['sets']
    cx.prove('the sensor is set once', len(sets) == 1)
    x = sets[0]
    cx.prove("with the update's bytes and the detected version", len(x) == 4 and x[0] is a and x[1] is b and x[2] is c)
    cx.prove('in the unit of the detected version', t(x[3]) == m.t)


def c_status(cx):
    """_cb_inform_sensor_status: every sensor of the inform gets the inform's time."""
    ip = cx.interp
    ns = run_src(ip, '''
class Self(object):
    def __init__(self):
        self.got = []
    def update_sensor(self, *a):
        self.got.append(a)
class Msg(object):
    def __init__(self, *args):
        self.arguments = list(args)
''')
    n = cx.pick('sensors', [1, 2, 3])
    ts = cx.bytes('ts')
    vals = [(cx.bytes('status'), cx.bytes('value')) for _ in range(n)]
    names = ['a', 'b.c', 'd']
    args = [ts, b'%d' % n]
    for i in range(n):
        args += [names[i].encode(), vals[i][0], vals[i][1]]
    self_ = ip.call(ns['Self'], [])
    st, x = attempt(ip, ip.get('katcp.inspecting_client:InspectingClientAsync._cb_inform_sensor_status'), self_,
                    ip.call(ns['Msg'], args))
    cx.prove('processed', st == 'ok', info=ename(x))
    got = self_.attrs['got']
    cx.prove('each sensor is updated once, with the time of the inform and its own status and value',
             len(got) == n and all(g[0] == names[i] and g[1] is ts and g[2] is vals[i][0] and g[3] is vals[i][1]
                                   for i, g in enumerate(got)))


CONTRACTS = {'timestamp': (c_ts, {}), 'timestamp-decode': (c_ts_dec, {'expect': ['time', 'refused', 'now']}),
             'convert': (c_convert, {}), 'log': (c_log, {}), 'sensor': (c_sensor, {}),
             'set': (c_set, {'expect': ['set', 'refused']}), 'inform': (c_inform, {}), 'period': (c_period, {}),
             'value': (c_value, {}), 'hint': (c_hint, {}), 'client': (c_client, {}), 'status': (c_status, {})}
