"""C19 executable contract: query requests on devices with random, changing populations against an independent selection."""
from net import *      # noqa
import re
from katcp import DeviceServer, ProtocolFlags, Message, Sensor
from katcp.kattypes import request_timeout_hint

RULE = 'random populations of sensors / requests / clients / versions, changed in between; names, prefixes, patterns, bad patterns, non-text'
BOUNDS = 'up to 12 sensors, 6 extra requests, 4 clients, 3 extra versions, 30 queries per device'
FUNCTIONS = ['server.DeviceServer.request_help', '...request_sensor_list', '...request_sensor_value', '...request_client_list',
             '...request_version_list', '...request_request_timeout_hint', 'server.construct_name_filter']
NAMES = ['a', 'ab', 'abc', 'a.b', 'a-b', 'b.a', 'Abc', 'x.volt', 'y.volt', 'volt', 'volt.x.y', 'a.b.c', 'a/b', '/a', 'a/', '1', '\u00e9t\u00e9', '.', 'a b', '[a]']
PATTERNS = ['//', '/a/', '/^a/', '/b$/', '/volt/', '/^volt$/', '/a.b/', '/a\\.b/', '/[ab]/', '/(?i)abc/', '/x|y/', '/(/', '/[/', '/*a/', '/a*/', '/zzz/', '/^$/',
            '/a(?!b)/', '/\u00e9/', '/a/b/', '/^.{1}$/', '/(?P<n>a)(?P=n)/', '/\\/', '/ /', '/-/', '/.\\../']
REQS = ['go', 'go-up', 'go-down', 'get', 'g', 'zap']
HINTS = [None, 0, 5, 2.5, 500, 0.25, 1, 17]


def cases(h):
    r = h.rng
    for i in range(h.n(160, 4000)):
        yield 'queries', (r.choice([(4, 0, 'M'), (5, 0, 'MI'), (5, 1, 'MIT'), (5, 1, 'MITB'), (5, 2, 'MIT')]), r.randrange(1 << 30), r.randrange(0, 13))
    for i in range(h.n(40, 500)):
        yield 'race', (r.randrange(1, 6), r.randrange(6), r.choice(['connect', 'disconnect']))


def rand_sensor(r, name):
    k = r.choice(['integer', 'float', 'boolean', 'string', 'discrete', 'lru', 'timestamp', 'address'])
    d, u = r.choice(['', 'A sensor.', 'd']), r.choice(['', 'V', 'm s'])
    if k == 'integer':
        s, v = Sensor.integer(name, d, u, params=[-10, 10], default=3), r.randrange(-10, 11)
    elif k == 'float':
        s, v = Sensor.float(name, d, u), r.random() * 100
    elif k == 'boolean':
        s, v = Sensor.boolean(name, d, u), r.random() < .5
    elif k == 'string':
        s, v = Sensor.string(name, d, u), r.choice(['', 'x y', 'zz'])
    elif k == 'discrete':
        s, v = Sensor.discrete(name, d, u, params=['on', 'off', 'e r']), r.choice(['on', 'off', 'e r'])
    elif k == 'lru':
        s, v = Sensor.lru(name, d, u), r.choice([Sensor.LRU_NOMINAL, Sensor.LRU_ERROR])
    elif k == 'timestamp':
        s, v = Sensor.timestamp(name, d, ''), r.randrange(2000000000)
    else:
        s, v = Sensor.address(name, d, u), ('1.2.3.4', 5)
    if r.random() < .7:
        s.set(float(r.randrange(1 << 30)), r.choice(sorted(Sensor.STATUSES)), v)
    return s


def case_queries(h, p):
    import random
    proto, seed, n = p
    r = random.Random(seed)
    d = {'PROTOCOL_INFO': ProtocolFlags(proto[0], proto[1], [x.encode() for x in proto[2]]), 'setup_sensors': lambda self: None,
         'VERSION_INFO': ('dev', 1, 2), 'BUILD_INFO': ('dev', 3, 4, 'rc1')}
    own = {}
    for name in REQS:
        if r.random() < .5:
            def f(self, req, msg):
                pass
            f.__doc__ = 'Doc of %s.' % name
            hint = r.choice(HINTS)
            if hint is not None:
                f = request_timeout_hint(hint)(f)
            own[name] = (f.__doc__, hint)
            d['request_' + name.replace('-', '_')] = f
            if r.random() < .2:
                own['alias-' + name] = own[name]
                d['request_alias_' + name.replace('-', '_')] = f
    Dev = type('Dev', (DeviceServer,), d)
    Dev.__doc__ = 'x'
    with World() as w:
        dev = w.serve(Dev('127.0.0.1', 0))
        cl = [w.connect(dev)]
        sensors, extra = {}, {}
        for name in r.sample(NAMES, min(n, len(NAMES))):
            sensors[name] = rand_sensor(r, name)
            dev.add_sensor(sensors[name])
        builtin = {k: v for k, v in dev._request_handlers.items() if k not in own}
        docs = {k: v.__doc__ for k, v in builtin.items()}
        docs.update({k: v[0] for k, v in own.items()})
        hints = {k: getattr(v, 'request_timeout_hint', None) or 0 for k, v in builtin.items()}
        hints.update({k: v[1] or 0 for k, v in own.items()})
        if 'M' not in proto[2]:
            mid = ''
        for i in range(30):
            k = r.random()
            if k < .08 and sensors:
                name = r.choice(sorted(sensors))
                dev.remove_sensor(name)
                del sensors[name]
            elif k < .16:
                name = r.choice(NAMES)
                if name not in sensors:
                    sensors[name] = rand_sensor(r, name)
                    dev.add_sensor(sensors[name])
            elif k < .2 and len(cl) < 4:
                cl.append(w.connect(dev))
            elif k < .24 and len(cl) > 1:
                cl.pop().close(settle=True)
                w.run(3)
            elif k < .28:
                extra[r.choice(['lib', 'aa', 'zz', 'katcp-aa'])] = ('v%d' % i, r.choice([None, 'b%d' % i, '']))
                dev.extra_versions.clear()
                dev.extra_versions.update(extra)
            what = r.choice(['sensor-list', 'sensor-value', 'sensor-list', 'sensor-value', 'help', 'client-list', 'version-list', 'request-timeout-hint'])
            arg = None
            if what in ('sensor-list', 'sensor-value'):
                arg = r.choice([None, r.choice(NAMES), r.choice(PATTERNS), r.choice(PATTERNS), r.choice(sorted(sensors) or ['q']), 'nope', '', '\udc80'])
            elif what in ('help', 'request-timeout-hint'):
                arg = r.choice([None, None, None, r.choice(REQS), r.choice(sorted(docs)), 'nope', '', 'go_up', '/go/', 'GO', '\udc80'])
            raw = None if arg is None else arg.encode('utf-8', 'surrogateescape')
            q = cl[r.randrange(len(cl))]
            q.lines()
            m = Message.request(what, *([raw] if raw is not None else []))
            q.send(bytes(m) + b'\n')
            got = q.msgs()
            ok = check(h, what, arg, got, sensors, docs, hints, extra, len(cl), proto, dev, [c.s.getsockname() for c in cl])
            h.nontrivial((what, ok, len(got) > 2))


def select(arg, names):
    """(matching names sorted, or None when the query fails)"""
    if arg is None:
        return sorted(names)
    if '\udc80' in arg:
        return None
    if arg == '/':
        return 'either'
    if arg[:1] == '/' and arg[-1:] == '/':
        try:
            rx = re.compile(arg[1:-1])
        except re.error:
            return None
        return sorted(x for x in names if rx.search(x))
    return [arg] if arg in names else None


def check(h, what, arg, got, sensors, docs, hints, extra, nclients, proto, dev, peers):
    ctx = (what, arg, [str(m)[:200] for m in got])
    h.check('there is one reply, last', len(got) >= 1 and [m.mtype == Message.REPLY for m in got] == [False] * (len(got) - 1) + [True], ctx)
    if not got:
        return False
    rep, inf = got[-1], got[:-1]
    h.check('informs of the request only', all(m.name == what for m in inf) and rep.name == what, ctx)
    text = lambda m: [a.decode() for a in m.arguments]
    ok = rep.arguments[0] == b'ok'
    if what == 'version-list' and proto[0] < 5 or what == 'request-timeout-hint' and 'T' not in proto[2]:
        h.check('not offered', rep.arguments[0] == b'invalid', ctx)
        return False
    if what in ('sensor-list', 'sensor-value'):
        want = select(arg, sensors)
        if want == 'either':
            return False
    elif what == 'help':
        want = select(arg, docs) if arg is None or not arg.startswith('/') else None
    elif what == 'request-timeout-hint':
        want = [k for k in sorted(hints) if hints[k]] if arg is None else [arg] if arg in hints else None
    elif what == 'version-list':
        want = ['katcp-protocol', 'katcp-library', 'katcp-device'] + sorted(extra)
    else:
        want = nclients
    if want is None:
        h.check('an unknown name or bad pattern fails without informs', rep.arguments[0] == b'fail' and not inf, ctx)
        return False
    h.check('answered', ok, ctx)
    if not ok:
        return False
    h.check('the count is the number of informs', len(rep.arguments) == 2 and rep.arguments[1] == b'%d' % len(inf), ctx)
    if what == 'client-list':
        h.check('every connected client once', sorted(text(m) for m in inf) == sorted(['%s:%d' % a] for a in peers), ctx)
        return True
    col = 2 if what == 'sensor-value' else 0
    h.check('exactly the matching items, once each, in order', [text(m)[col] for m in inf] == want, (ctx, want))
    for m in inf:
        a = text(m)
        name = a[col]
        if what == 'sensor-list' and name in sensors:
            s = sensors[name]
            h.check('the sensor is described', a == [name, s.description, s.units, s.type] + [x.decode() for x in s.formatted_params], ctx)
        elif what == 'sensor-value' and name in sensors:
            s = sensors[name]
            ts, st, v = s.read()
            f = s.read_formatted(proto[0])
            h.check('the reading is reported', m.arguments[1] == b'1' and a[3] == Sensor.STATUSES[st] and m.arguments[0] == f[0] and m.arguments[4] == f[2] and
                    abs(float(a[0]) / (1000 if proto[0] < 5 else 1) - ts) < .01, (ctx, ts, st, v))
        elif what == 'help':
            h.check('the request is described', ' '.join(a[1].split()) == ' '.join((docs.get(name) or '').split()) and len(a) == 2, ctx)
        elif what == 'request-timeout-hint':
            h.check('the hint', len(a) == 2 and float(a[1]) == float(hints.get(name, -1)), ctx)
        elif what == 'version-list' and name in extra:
            v, b = extra[name]
            h.check('the version', a[1:] == ([v] if b is None else [v, b]), ctx)
        elif name == 'katcp-protocol':
            h.check('the protocol', a[1:] == [str(dev.PROTOCOL_INFO)], ctx)
        elif name == 'katcp-device':
            h.check('the device', a[1:] == [dev.version(), dev.build_state()], ctx)
    return True


class Srv(DeviceServer):
    """x"""
    VERSION_INFO = ('a', 1, 0)
    BUILD_INFO = ('a', 1, 0, '')

    def setup_sensors(self):
        pass


class FakeConn(object):
    def __init__(self, addr, act=None):
        self.addr, self.act = addr, act

    @property
    def address(self):
        if self.act:
            a, self.act = self.act, None
            a()
        return self.addr


class FakeReq(object):
    def __init__(self):
        self.informs = []

    def inform(self, *a):
        self.informs.append(a)

    def make_reply(self, *a):
        return a


def case_race(h, p):
    """a client comes or goes (another thread) while the clients are listed"""
    n, at, what = p
    dev = Srv('127.0.0.1', 0)
    conns = [FakeConn('c%d' % i) for i in range(n)]
    new = FakeConn('new')

    def act():
        if what == 'connect':
            dev._client_conns.add(new)
        else:
            dev._client_conns.discard(conns[-1])
    dev._client_conns.update(conns)
    order = list(dev._client_conns)
    order[at % n].act = act
    req = FakeReq()
    try:
        rep = dev.request_client_list(req, Message.request('client-list'))
    except Exception as e:
        h.check('listing clients while one comes or goes', False, (p, repr(e), req.informs))
        return
    h.check('the count is the number of informs', rep[0] == 'ok' and int(rep[1]) == len(req.informs) == len(set(req.informs)), (p, rep, req.informs))
    names = {a[0] for a in req.informs}
    h.check('every client that stays is listed', {c.addr for c in (conns if what == 'connect' else conns[:-1])} <= names <= {c.addr for c in conns} | {'new'}, (p, names))
