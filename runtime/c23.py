"""C23 executable contract: real resource clients and containers against scripted servers whose interface changes and whose connections come and go."""
from net import *      # noqa
import katcp
from katcp import Message
from katcp.resource_client import KATCPClientResource, KATCPClientResourceContainer
from katcp.resource import KATCPRequest

RULE = 'random rule sets in both spellings, random interface changes, reconnects, strategies and listeners set at any time (known and unknown sensors, connected or not, while a synchronisation is under way)'
BOUNDS = 'up to 6 requests and 6 sensors per server, up to 3 children in a container, 12 steps per history'
FUNCTIONS = ['resource_client.KATCPClientResource', 'resource_client.KATCPClientResourceSensorsManager', 'resource_client.KATCPClientResourceContainer', 'resource_client.ClientGroup.req', 'resource.KATCPSensor']
REQS = ['help', 'rd', 'set-it', 'set_off', 'do.x', 'go-a-b', 'halt']
SENS = ['s', 'x.y', 'x-z', 'ay', 'a.y', 'temp_1', 'agg_v', 'aggr']
STRATS = ['event', 'period 2', 'period 10.5', ('differential', 3), ('event-rate', 1.5, 4), 'none', 'auto']


def esc(n):
    return n.replace('.', '_').replace('-', '_')


def norm(s):
    out = []
    for x in (s.split(' ') if isinstance(s, str) else s):
        try:
            out.append(str(float(x)))
        except ValueError:
            out.append(str(x))
    return tuple(out)


def cases(h):
    r = h.rng
    for i in range(h.n(120, 4000)):
        yield 'history', (r.randrange(1 << 30), r.randrange(2, 13))
    for i in range(h.n(70, 2500)):
        yield 'container', (r.randrange(1 << 30), r.randrange(2, 10))
    for i in range(h.n(60, 600)):
        yield 'listeners', (r.randrange(1 << 30),)


class Server(object):
    def __init__(self, w, r):
        self.w, self.r = w, r
        self.lis = w.listen()
        self.reqs, self.sens = {}, {}
        self.peer = None
        self.down = False
        self.fault = None
        self.set = {}              # of this connection: sensor -> strategy last set
        self.everset = set()
        self.t = 1000
        for i in range(r.randrange(2, 8)):
            self.change()

    def change(self):
        r = self.r
        d, names = (self.reqs, REQS) if r.random() < .5 else (self.sens, SENS)
        n = r.choice(names)
        if n in d and r.random() < .5:
            del d[n]
            if d is self.sens:
                self.set.pop(n, None)
        else:
            if any(esc(m) == esc(n) and m != n for m in d):
                return
            d[n] = r.choice(['One.', 'Two.', 'Three words now.'])
            # (a sensor that is set up anew samples nothing)
            if d is self.sens:
                self.set.pop(n, None)

    def changed(self):
        if self.peer is not None and not self.down:
            self.peer.send(b'#interface-changed\n', settle=False)

    def serve(self):
        """one round: True if there was something to do"""
        if self.down:
            return False
        p = self.lis.accept()
        if p is not None:
            self.peer = p
            self.set = {}
            p.send(b'#version-connect katcp-protocol 5.0-MI\n', settle=False)
            return True
        if self.peer is None:
            return False
        ms = self.peer.msgs(settle=False)
        for m in ms:
            self.one(m)
        return bool(ms)

    def one(self, m):
        peer = self.peer
        which = m.arguments[0].decode() if m.arguments else None

        def say(kind, *a):
            peer.send(bytes(getattr(Message, kind)(m.name, *a, mid=m.mid)) + b'\n', settle=False)
        if self.fault == m.name and which is None:
            self.fault = None
            say('reply', 'fail', 'Broken.')
            return
        if m.name == 'help':
            out = [(n, d) for n, d in self.reqs.items() if which in (None, n)]
            bad = 'Unknown request method.'
        elif m.name == 'sensor-list':
            out = [(n, d, '', 'integer') for n, d in self.sens.items() if which in (None, n)]
            bad = 'Unknown sensor name.'
        elif m.name == 'sensor-sampling' and which in self.sens:
            self.set[which] = tuple(a.decode() for a in m.arguments[1:])
            self.everset.add(which)
            say('reply', 'ok', *m.arguments)
            self.status(which)
            return
        else:
            say('reply', *(('fail', 'Unknown') if m.name.startswith('sensor-') else ('ok',)))
            return
        if which and not out:
            say('reply', 'fail', bad)
            return
        for o in out:
            say('inform', *o)
        say('reply', 'ok', len(out))

    def status(self, n, v=None):
        self.t += 1
        v = self.t if v is None else v
        self.peer.send(b'#sensor-status %d 1 %s nominal %d\n' % (self.t, n.encode(), v), settle=False)
        return v

    def drop(self, down=False):
        if self.peer is not None:
            self.peer.close()
            self.peer = None
        self.down = down


def pump(w, servers, dt=.3):
    end = w.now() + dt
    while True:
        w.settle()
        while any([s.serve() for s in servers]):
            w.settle()
        if w.now() >= end - 1e-9:
            return
        w.run(min(.15, end - w.now()))


def rules(r):
    spell = lambda n: r.choice([n, esc(n), n.replace('_', '-')])     # noqa
    return dict(controlled=r.random() < .5, always_allowed_requests=[spell(n) for n in REQS if r.random() < .4],
                always_excluded_requests=[spell(n) for n in REQS if r.random() < .25])


def offered(spec, n):
    if esc(n) in [esc(x) for x in spec['always_excluded_requests']]:
        return False
    return spec['controlled'] or esc(n) in [esc(x) for x in spec['always_allowed_requests']]


class Model(object):
    """what one resource client must be like"""

    def __init__(self, h, w, srv, spec, res):
        self.h, self.w, self.srv, self.spec, self.res = h, w, srv, spec, res
        self.strat = {}
        self.got = {}           # (sensor, listener number) -> readings
        self.want = {}
        self.n = 0
        self.log = []

    def check(self):
        h, res, srv = self.h, self.res, self.srv
        want = {esc(n): n for n in srv.reqs if offered(self.spec, n)}
        h.check('the requests offered are those the rules allow', sorted(dict.keys(res.req)) == sorted(want), lambda: (self.spec, sorted(srv.reqs), sorted(res.req), self.log))
        for e, n in want.items():
            q = dict.get(res.req, e)
            h.check('a request offered is the one of that name', isinstance(q, KATCPRequest) and (q.name, q.description) == (n, srv.reqs[n]), lambda: (e, n, srv.reqs[n], q, self.log))
        h.check('the sensors are those of the server', sorted(dict.keys(res.sensor)) == sorted(esc(n) for n in srv.sens), lambda: (sorted(srv.sens), sorted(res.sensor), self.log))
        for n in srv.sens:
            s = dict.get(res.sensor, esc(n))
            h.check('a sensor is the one of that name', s is not None and (s.name, s.description) == (n, srv.sens[n]), lambda: (n, srv.sens[n], s, self.log))
            if n in self.strat:
                h.check('the strategy set last is the one the server samples with', srv.set.get(n) == self.strat[n], lambda: (n, srv.set, self.strat, self.log))
                h.check('the strategy of a sensor is the one set', s.sampling_strategy == self.strat[n], lambda: (n, s.sampling_strategy, self.strat, self.log))
            else:
                h.check('no strategy is set on another sensor', n not in srv.everset, lambda: (n, srv.set, self.strat, self.log))

    def set(self, n, st):
        self.strat[n] = norm(st)
        self.log.append(('set', n, st))
        return self.res.set_sampling_strategy(n, st)

    def listen(self, n):
        k = (n, self.n)
        self.n += 1
        self.got[k] = []
        self.want[k] = []
        self.log.append(('listen', k))
        r = self.srv.r.random()

        def listener(sensor, reading):
            self.got[k].append((sensor.name, reading.value))
            if r < .2:
                raise ValueError('listener')
        self.res.set_sensor_listener(n, listener)

    def readings(self):
        """every listener hears every reading, in order"""
        h, srv = self.h, self.srv
        for n in list(srv.sens):
            ks = [k for k in self.got if k[0] == n]
            for k in ks:
                self.got[k] = []
            vs = [srv.status(n) for _ in range(srv.r.randrange(1, 4))]
            pump(self.w, [srv], 0)
            for k in ks:
                h.check('readings reach every listener in order', self.got[k] == [(n, v) for v in vs], lambda: (k, self.got[k], vs, self.log))
            s = dict.get(self.res.sensor, esc(n))
            h.check('a sensor has the reading received last', s.reading.value == vs[-1], lambda: (n, s.reading, vs, self.log))


def until_synced(h, w, servers, res, log):
    for _ in range(120):
        pump(w, servers, .25)
        if all(r.synced for r in res) and not any(s.fault or s.down for s in servers):
            break
    pump(w, servers, 0)
    h.check('the resource gets synchronised', all(r.synced for r in res), lambda: log)


def case_history(h, p):
    import random
    seed, steps = p
    r = random.Random(seed)
    with World() as w:
        srv = Server(w, r)
        spec = dict(rules(r), name='res', address=('127.0.0.1', srv.lis.addr[1]), auto_reconnect_delay=.1)
        res = KATCPClientResource(dict(spec))
        m = Model(h, w, srv, spec, res)
        res.set_ioloop(w.loop)
        if r.random() < .5:
            m.set(r.choice(SENS), r.choice(STRATS))
            m.listen(r.choice(SENS))
        res.start()
        w.closers.append(res.stop)
        ic = res._inspecting_client
        ic.initial_resync_timeout, ic.max_resync_timeout = .3, 1
        if r.random() < .5:
            pump(w, [srv], 0)
            m.set(r.choice(SENS), r.choice(STRATS))
        until_synced(h, w, [srv], [res], m.log)
        m.check()
        for i in range(steps):
            k = r.random()
            if k < .3:
                for _ in range(r.choice([1, 2, 4])):
                    srv.change()
                m.log.append(('change', sorted(srv.reqs), sorted(srv.sens)))
                if r.random() < .3:
                    srv.fault = r.choice(['help', 'sensor-list'])
                srv.changed()
            elif k < .45:
                m.log.append('drop')
                if r.random() < .6:
                    srv.change()
                srv.drop(r.random() < .4)
                pump(w, [srv], r.choice([0, .3]))
            if r.random() < .6:
                for _ in range(r.randrange(4)):     # part of the way through what follows
                    w.settle()
                    srv.serve()
                m.set(r.choice(SENS), r.choice(STRATS))
                if r.random() < .3:
                    w.settle()
                    srv.serve()
                    m.set(r.choice(SENS), r.choice(STRATS))
            if r.random() < .4:
                m.listen(r.choice(SENS))
            if srv.down:
                pump(w, [srv], r.choice([0, 1]))
                srv.down = False
            until_synced(h, w, [srv], [res], m.log)
            m.check()
            if r.random() < .5:
                m.readings()
        res.stop()
        w.run(.5)
    h.nontrivial((spec['controlled'], len(srv.reqs), len(srv.sens), len(m.strat)))


def case_container(h, p):
    import random
    seed, steps = p
    r = random.Random(seed)
    with World() as w:
        names = r.sample(['one', 'two-b', 'c.d', 'x_y', 'b'], r.randrange(1, 4))
        ss = {n: Server(w, r) for n in names}
        for s in ss.values():
            s.sens.pop('agg_v', None)
        specs = {n: dict(rules(r), address=('127.0.0.1', ss[n].lis.addr[1]), auto_reconnect_delay=.1) for n in names}
        groups = {'g-1': names[:2], 'all': names}
        c = KATCPClientResourceContainer({'name': 'top', 'clients': specs, 'groups': groups})
        c.set_ioloop(w.loop)
        c.start()
        w.closers.append(c.stop)
        kids = {n: dict.get(c.children, esc(n)) for n in names}
        log = [names]
        ms = {n: Model(h, w, ss[n], dict(specs[n], name=n), kids[n]) for n in names}
        for m in ms.values():
            m.log = log
        for k in kids.values():
            k._inspecting_client.initial_resync_timeout, k._inspecting_client.max_resync_timeout = .3, 1
        servers = list(ss.values())

        def check():
            until_synced(h, w, servers, list(kids.values()), log)
            for n in names:
                ms[n].check()
            for attr in r.sample(['req', 'sensor'], 2):
                want = {esc(n) + '_' + k: v for n in names for k, v in dict.items(getattr(kids[n], attr))}
                got = dict(dict.items(getattr(c, attr)))
                h.check('a container offers what its children offer, under their names', got == want, lambda: (attr, sorted(got), sorted(want), log))
            for g, members in groups.items():
                want = sorted(set(k for n in members for k in dict.keys(kids[n].req)))
                h.check('a group offers what its members offer', sorted(dict.keys(dict.get(c.groups, esc(g)).req)) == want, lambda: (g, want, log))
        check()
        for i in range(steps):
            k = r.random()
            n = r.choice(names)
            s = ss[n]
            if k < .45:
                for _ in range(r.choice([1, 2])):
                    s.change()
                s.sens.pop('agg_v', None)
                log.append(('change', n, sorted(s.reqs), sorted(s.sens)))
                s.changed()
                for _ in range(r.randrange(5)):     # looked at part of the way
                    w.settle()
                    s.serve()
                    c.req, c.sensor, [g.req for g in dict.values(c.groups)]
            elif k < .6:
                log.append(('drop', n))
                s.drop()
                pump(w, servers, .2)
            elif s.sens:
                x, st = r.choice(sorted(s.sens)), r.choice(STRATS)
                log.append(('set', n, x, st))
                ms[n].strat[x] = norm(st)
                full = esc(n) + '_' + x
                c.set_sampling_strategy(r.choice([full, esc(full)]), st)
            check()
        c.stop()
        w.run(.5)
    h.nontrivial((len(names), steps))


def case_listeners(h, p):
    import random
    seed, = p
    r = random.Random(seed)
    from katcp.resource import KATCPSensor, KATCPSensorsManager

    class Manager(object):
        resource_name = 'm'

        def time(self):
            return 5.
    KATCPSensorsManager.register(Manager)
    s = KATCPSensor(dict(name='a.b', description='d', units='', sensor_type=katcp.Sensor.INTEGER), Manager())
    calls, regs, fs = [], [], []
    for i in range(r.randrange(1, 5)):
        def f(*a, **k):
            calls.append(k.get('i', a))
        mk = lambda i, bad: (lambda *a: (calls.append((i, a)), 1 // (0 if bad else 1)))     # noqa
        fs.append((mk(i, r.random() < .3), r.random() < .5))
    for i in range(r.randrange(3, 10)):
        j = r.randrange(len(fs))
        f, reading = fs[j]
        k = r.random()
        if k < .4:
            s.register_listener(f, reading=reading)
            if j not in regs:
                regs.append(j)
        elif k < .55:
            s.unregister_listener(f)
            if j in regs:
                regs.remove(j)
        elif k < .6:
            s.clear_listeners()
            regs = []
        else:
            del calls[:]
            v = r.randrange(100)
            if r.random() < .5:
                s.set(float(i), katcp.Sensor.WARN, v)
            else:
                s.set_formatted(str(i).encode(), b'warn', str(v).encode(), 5)
            h.check('a reading reaches every listener once', sorted(c[0] for c in calls) == sorted(regs), lambda: (calls, regs))
            for j, a in calls:
                ok = (len(a) == 2 and a[0] is s and (a[1].value, a[1].timestamp, a[1].status, a[1].received_timestamp) == (v, float(i), 'warn', 5.)
                      if fs[j][1] else a == (5., float(i), 'warn', v))
                h.check('a listener is given the reading', ok, lambda: (j, a, v))
            h.check('the reading received last is kept', (s.value, s.reading.timestamp) == (v, float(i)), lambda: s.reading)
        for j in range(len(fs)):
            h.check('what listens is known', s.is_listener(fs[j][0]) == (j in regs), lambda: (j, regs))
    h.nontrivial(seed % 50)
