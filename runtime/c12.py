"""C12 executable contract: sampling that was replaced, set to none, cleared or ended sends nothing more and leaves no observer or timer."""
from net import *      # noqa
from msgspec import spec_parse
from katcp import DeviceServer, Sensor, Message

RULE = 'random histories of two or three clients that set, replace, clear sampling, disconnect or break off, while sensors are updated and removed (also several of these in one callback of the ioloop) and time passes; informs, observers and timers are compared with a model of who samples what'
BOUNDS = 'up to 3 clients, 3 sensors, up to 25 steps'
FUNCTIONS = ['sampling.SampleStrategy.cancel', 'sampling.SampleStrategy.start', 'sampling.*.cancel_timeouts', 'server.DeviceServer.clear_strategies',
             'server.DeviceServer.remove_sensor', 'server.DeviceServer.on_client_disconnect', 'server.DeviceServer._handle_sensor_sampling']
ST = [b'none', b'auto', b'event', b'period 0.5', b'period 3', b'differential 1', b'event-rate 1 5', b'event-rate 2 1e18', b'differential-rate 1 1 5']


def cases(h):
    r = h.rng
    for st in ST:
        for end in ('none', 'auto', 'clear', 'close', 'disc', 'remove', 'remove-set', 'remove-thread'):
            for when in (0, .3, 1):
                yield 'one', (st, end, when)
    for st in ST[1:]:
        for before in ('nothing', 'same callback', 'settled', 'pending', 'due'):
            for what in ('nothing', 'set', 'thread'):
                yield 'direct', (st, before, what)
    for _ in range(h.n(90, 6000)):
        ops = []
        n = r.choice([2, 3])
        for _ in range(r.randrange(5, 26)):
            k = r.random()
            c, s = r.randrange(n), r.randrange(3)
            if k < .35:
                ops.append(('sample', c, s, r.choice(ST)))
            elif k < .55:
                ops.append(('set', s, r.randrange(9)))
            elif k < .75:
                ops.append(('run', r.choice([.1, .4, .5, 1, 2, 6])))
            elif k < .81:
                ops.append(('clear', c))
            elif k < .85:
                ops.append(('quick', c, s, r.choice(ST), r.choice(ST)))
            elif k < .88:
                ops.append(('close', c))
            elif k < .91:
                ops.append(('disc', c))
            elif k < .94:
                ops.append(('remove', s, r.random() < .5, r.randrange(9)))
            else:
                ops.append(('both', s, r.randrange(9), c))
        yield 'history', (n, ops)


class Dev(DeviceServer):
    VERSION_INFO = ('a', 1, 0)
    BUILD_INFO = ('b', 1, 0, '')

    def setup_sensors(self):
        self.all = [Sensor.integer('s%d' % i) for i in range(3)]
        for s in self.all:
            self.add_sensor(s)


class Model(object):
    def __init__(self, h, w, n):
        self.h, self.w = h, w
        self.dev = w.serve(Dev('127.0.0.1', 0))
        self.cs = [w.connect(self.dev) for _ in range(n)]
        for c in self.cs:
            c.lines()
        self.alive = [True] * n
        self.there = [True] * 3
        self.by = {}                    # (client, sensor) -> strategy
        self.ended = {}

    def conn(self, c):
        me = self.cs[c].s.getsockname()
        return [x for x in self.dev._client_conns if x._conn_key.KATCPServer_address == me][0]

    def informs(self, c):
        out = []
        for l in self.cs[c].lines():
            m = spec_parse(l)
            if m[0] == 2 and m[1] == 'sensor-status':
                out.append(m[3][2])
        return out

    def sample(self, c, s, st):
        self.cs[c].send(b'?sensor-sampling s%d %s\n' % (s, st))
        self.by[c, s] = st

    def check(self, what):
        h = self.h
        for c in range(len(self.cs)):
            if not self.alive[c]:
                continue
            for nm in self.informs(c):
                s = int(nm[1:])
                h.check('only sampled sensors send updates', self.by.get((c, s), b'none') != b'none' or self.recent == (c, s), lambda: '%s: client %d got an update of %r' % (what, c, nm))
        self.recent = None
        self.w.settle()
        want_t = 0
        for s in range(3):
            obs = [st for (c, s2), st in self.by.items() if s2 == s and st != b'none' and not st.startswith(b'period')]
            h.check('the sensor has one observer for each strategy that needs it', len(self.dev.all[s]._observers) == len(obs), lambda: '%s: s%d %r %r' % (what, s, self.dev.all[s]._observers, obs))
        most = 0
        for st in self.by.values():
            most += 1 if st.startswith(b'period') else 2 if b'-rate' in st else 0
        h.check('no timers but those of current strategies', self.w.loop.timers() <= most, lambda: '%s: %d timers, %r' % (what, self.w.loop.timers(), self.by))
        least = len([1 for st in self.by.values() if st.startswith(b'period') or b'-rate' in st and b'1e18' not in st])
        h.check('current strategies keep their timers', self.w.loop.timers() >= least, lambda: '%s: %d timers, %r' % (what, self.w.loop.timers(), self.by))
    recent = None

    def end_client(self, c):
        self.alive[c] = False
        for k in list(self.by):
            if k[0] == c:
                del self.by[k]

    def end_sensor(self, s):
        self.there[s] = False
        for k in list(self.by):
            if k[1] == s:
                del self.by[k]

    def step(self, op):
        w, k = self.w, op[0]
        if k == 'run':
            w.run(op[1])
        elif k == 'set':
            self.dev.all[op[1]].set_value(op[2])
            w.settle()
        elif k in ('sample', 'quick'):
            if not self.alive[op[1]] or not self.there[op[2]]:
                return
            if k == 'quick':            # replaced before the first could run
                self.cs[op[1]].send(b'?sensor-sampling s%d %s\n?sensor-sampling s%d %s\n' % (op[2], op[3], op[2], op[4]))
                self.by[op[1], op[2]] = op[4]
                self.recent = op[1:3]
            else:
                if self.by.get((op[1], op[2])) not in (None, b'none'):
                    self.recent = None
                self.sample(*op[1:])
        elif k == 'clear':
            if self.alive[op[1]]:
                self.cs[op[1]].send(b'?sensor-sampling-clear\n')
                for key in list(self.by):
                    if key[0] == op[1]:
                        del self.by[key]
        elif k == 'close':
            if self.alive[op[1]]:
                self.cs[op[1]].close()
                w.settle()
                self.end_client(op[1])
        elif k == 'disc':
            if self.alive[op[1]]:
                self.conn(op[1]).disconnect('go')
                w.settle()
                w.run(.01)
                after = False
                for l in self.cs[op[1]].lines():
                    self.h.check('nothing follows the disconnection', not after, l)
                    after = l.startswith(b'#disconnect')
                self.end_client(op[1])
        elif k == 'remove':
            if self.there[op[1]]:
                def cb():
                    self.dev.remove_sensor('s%d' % op[1])
                    if op[2]:
                        self.dev.all[op[1]].set_value(op[3])
                w.loop.add_callback(cb)
                self.end_sensor(op[1])
                w.settle()
        elif k == 'both':               # a set, then everything cleared, then a set, in one callback
            s = self.dev.all[op[1]]
            if self.alive[op[3]]:
                def cb():
                    self.dev.clear_strategies(self.conn(op[3]))
                    s.set_value(op[2])
                    s.set_value(op[2] + 1)
                w.loop.add_callback(cb)
                for key in list(self.by):
                    if key[0] == op[3]:
                        del self.by[key]
                w.settle()


def case_history(h, pr):
    n, ops = pr
    with World() as w:
        m = Model(h, w, n)
        for i, op in enumerate(ops):
            m.step(op)
            m.check('after step %d %r of %r' % (i, op, ops))
            h.nontrivial((op[0], len(m.by), w.loop.timers(), sum(m.alive)))


def case_one(h, pr):
    st, end, when = pr
    with World() as w:
        m = Model(h, w, 2)
        m.sample(1, 0, b'auto')
        m.sample(0, 1, b'period 2')
        m.check(str(pr))
        m.sample(0, 0, st)
        m.check(str(pr))
        m.step(('set', 0, 3))
        w.run(when)
        m.step(('set', 0, 7))
        m.check(str(pr))
        op = {'none': ('sample', 0, 0, b'none'), 'auto': ('sample', 0, 0, b'auto'), 'clear': ('clear', 0), 'close': ('close', 0), 'disc': ('disc', 0),
              'remove': ('remove', 0, False, 0), 'remove-set': ('remove', 0, True, 5)}.get(end)
        if op is not None:
            m.step(op)
        else:
            import threading

            def go():
                m.dev.remove_sensor('s0')
                m.dev.all[0].set_value(8)
            t = threading.Thread(target=go)
            t.start()
            t.join()
            m.end_sensor(0)
            w.settle()
        m.check(str(pr))
        n = len(m.dev.all[0]._observers)
        m.step(('set', 0, 1))
        w.run(9)
        m.step(('set', 0, 2))
        m.check(str(pr))
        h.nontrivial(pr)


def case_direct(h, pr):
    """a strategy cancelled at any moment of its life: before its first callback, with an update queued, with its timer due in the same turn of the ioloop"""
    import threading
    from katcp.sampling import SampleStrategy
    st, before, what = pr
    name, _, ps = st.partition(b' ')
    with World() as w:
        s = Sensor.integer('s', '', '')
        s.set_value(1)
        out = []
        x = SampleStrategy.get_strategy(name, lambda sensor, reading: out.append((w.now(), reading.value)), s, *ps.split(), ioloop=w.loop)

        def change():
            if what == 'set':
                s.set_value(50)
            elif what == 'thread':
                t = threading.Thread(target=s.set_value, args=(50,))
                t.start()
                t.join()

        def end():
            change()
            x.cancel()
            out.append('cancelled')
            change()
        if before == 'nothing':
            x.start()
            end()
        elif before == 'same callback':
            w.loop.add_callback(lambda: (x.start(), end()))
        else:
            x.start()
            w.settle()
            if before == 'pending':
                s.set_value(30)
                w.run(.1)
            if before == 'due':
                s.set_value(30)

                def late():
                    CLOCK.now += 10         # everything is due after this callback
                    end()
                w.loop.add_callback(late)
            else:
                w.loop.add_callback(end)
        w.settle()
        w.run(20)
        s.set_value(70)
        w.run(20)
        h.check('it was cancelled', 'cancelled' in out, pr)
        h.check('nothing is sent after the end of the sampling', out[-1] == 'cancelled', '%r: %r' % (pr, out))
        h.check('no timer stays scheduled', w.loop.timers() == 0, pr)
        h.check('the sensor keeps no observer', not s._observers, pr)
        h.nontrivial(pr)
