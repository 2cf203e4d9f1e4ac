"""C16 executable contract: a real inspecting client against a scripted server whose interface changes and which fails part way."""
from net import *      # noqa
import katcp
from katcp import Message
from katcp.inspecting_client import InspectingClientAsync

RULE = 'random interface changes (sensors and requests added, removed, changed), inspections that fail in every way part way, reconnects, lookups in between; the notifications are replayed into a second model'
BOUNDS = 'up to 5 sensors, 5 requests and 14 steps per history'
FUNCTIONS = ['inspecting_client.InspectingClientAsync', 'inspecting_client._InformHookDeviceClient']
TYPES = [('integer', ['0', '10']), ('integer', []), ('float', ['-1.5', '2.0']), ('boolean', []), ('discrete', ['on', 'off']), ('string', []), ('discrete', ['on', 'off', 'idle'])]


def cases(h):
    r = h.rng
    for i in range(h.n(220, 6000)):
        yield 'history', (r.randrange(1 << 30), r.choice(['5.1-MIT', '5.0-MI', '5.0-M']), r.randrange(2, 15))


class Server(object):
    """a scripted server: its tables, and what goes wrong"""

    def __init__(self, t):
        self.t, self.r = t, t.r
        self.sensors, self.requests = {}, {}
        self.fault = None
        self.asked = []
        for i in range(self.r.randrange(1, 6)):
            self.change()

    def change(self):
        r = self.r
        if r.random() < .5:
            n = 's%d' % r.randrange(5)
            if n in self.sensors and r.random() < .4:
                del self.sensors[n]
            else:
                ty, ps = r.choice(TYPES)
                self.sensors[n] = (r.choice(['One.', 'Two words.', '']), r.choice(['', 'm', 'km/h']), ty, tuple(ps))
        else:
            n = 'r%d' % r.randrange(5)
            if n in self.requests and r.random() < .4:
                del self.requests[n]
            else:
                self.requests[n] = (r.choice(['Does it.', 'Does that.', '']), r.choice([None, None, 2.5, 10.0]))

    def answer(self, peer):
        """everything asked"""
        n = 0
        while True:
            ms = peer.msgs()
            if not ms or n > 60:
                return
            for m in ms:
                n += 1
                self.one(peer, m)

    def one(self, peer, m):
        self.asked.append(m.name)
        mid = m.mid
        which = m.arguments[0].decode() if m.arguments else None

        def say(kind, *a):
            peer.send(bytes(getattr(Message, kind)(m.name, *a, **({} if mid is None else {'mid': mid}))) + b'\n', settle=False)
        f = self.fault if self.fault and self.fault[0] == m.name and not which else None
        if m.name == 'help':
            out = [[n, d] for n, (d, _) in self.requests.items() if which in (None, n)]
            bad = 'Unknown request method.'
        elif m.name == 'sensor-list':
            out = [[n, d, u, ty] + list(ps) for n, (d, u, ty, ps) in self.sensors.items() if which in (None, n)]
            bad = 'Unknown sensor name.'
        elif m.name == 'request-timeout-hint':
            out = [[n, str(t or 0.)] for n, (_, t) in self.requests.items() if (t and which is None) or which == n]
            bad = 'Unknown request.'
        else:
            say('reply', 'ok')
            return
        self.r.shuffle(out)
        if f:
            self.fault = None
            self.t.faults += 1
            k = self.r.randrange(len(out) + 1)
            if f[1] == 'fail':
                for o in out[:k]:
                    say('inform', *o)
                say('reply', 'fail', 'Broken.')
            elif f[1] == 'malformed':
                for o in out[:k]:
                    say('inform', *o)
                say('inform', *([] if m.name != 'request-timeout-hint' else ['r0', 'soon']))
                for o in out[k:]:
                    say('inform', *o)
                say('reply', 'ok', len(out) + 1)
            elif f[1] == 'close':
                for o in out[:k]:
                    say('inform', *o)
                self.t.w.settle()
                peer.close()
                peer.eof = True
            return
        if which and not out:
            say('reply', 'fail', bad)
        else:
            for o in out:
                say('inform', *o)
            say('reply', 'ok', len(out))


class T(object):
    def __init__(self, h, w, seed, version):
        import random
        self.h, self.w, self.r, self.version = h, w, random.Random(seed), version
        self.log, self.faults, self.bad = [], 0, []
        self.told = {'sensors': set(), 'requests': set()}
        self.changed = {'sensors': set(), 'requests': set()}     # changed on the server since the last notification
        self.lis = w.listen()
        self.server = Server(self)
        self.last = {'sensors': {}, 'requests': {}}
        self.peer = None
        self.c = InspectingClientAsync('127.0.0.1', self.lis.addr[1], ioloop=w.loop)
        self.c.sync_timeout = 3
        self.c.initial_resync_timeout = .4
        self.c.max_resync_timeout = 2
        w.closers.append(self.c.stop)
        self.c.set_state_callback(self.state)
        self.c.connect()
        self.objs = {'sensors': {}, 'requests': {}}

    def check(self, what, ok, info):
        """in the client's callback, where raising would be one more fault"""
        if not ok:
            self.bad.append((what, info() if callable(info) else list(info)))

    def state(self, state, changes):
        self.log.append((tuple(int(x) for x in state), None if changes is None else {k: (sorted(v.added), sorted(v.removed)) for k, v in changes.items()}))
        if not state.data_synced or state.synced:
            self.check('changes are told with the model they belong to', changes is None, self.log)
            return
        now = {'sensors': dict(self.server.sensors), 'requests': dict(self.server.requests)}
        for k in ('sensors', 'requests'):
            ch = (changes or {}).get(k)
            added, removed = (set(ch.added), set(ch.removed)) if ch else (set(), set())
            new, old = self.model(k), self.last[k]
            moved = set(n for n in new if n in old and new[n] != old[n])
            want = (set(new) - set(old)) | moved, (set(old) - set(new)) | moved
            self.check('the notification names exactly what was added, removed or changed', (added, removed) == want, lambda: (self.log, k, (added, removed), want))
            self.last[k] = new
        self.check('a change is flagged', state.model_changed == bool(changes), self.log)

    def model(self, k):
        """what the server reports"""
        if k == 'sensors':
            return dict(self.server.sensors)
        hints = 'T' in self.version
        return {n: (d, (t if hints and t else None)) for n, (d, t) in self.server.requests.items()}

    def run(self, dt=.05):
        """time passes, the server answers"""
        end = self.w.now() + dt
        while True:
            if self.peer is None or self.peer.eof:
                p = self.lis.accept()
                if p is not None:
                    self.peer = p
                    p.send(b'#version-connect katcp-protocol %s\n' % self.version.encode())
            if self.peer is not None:
                self.server.answer(self.peer)
            for what, info in self.bad:
                self.h.check(what, False, info)
            if self.w.now() >= end - 1e-9:
                break
            self.w.run(min(.1, end - self.w.now()))

    def get(self, f):
        for _ in range(60):
            if f.done():
                break
            self.run(.05)
        self.h.check('a lookup ends', f.done(), self.log)
        return f.result()

    def synced(self):
        h, c = self.h, self.c
        for _ in range(150):
            if c.synced and not self.server.fault:
                break
            self.run(.1)
        h.check('a failed synchronisation is retried', c.synced, (self.log[-12:], self.server.asked[-10:]))
        h.check('the sensors are those of the server', sorted(c.sensors) == sorted(self.server.sensors), lambda: (self.log, c.sensors, self.server.sensors))
        h.check('the requests are those of the server', sorted(c.requests) == sorted(self.server.requests), lambda: (self.log, c.requests, self.server.requests))
        for n in self.r.sample(sorted(self.server.sensors), min(3, len(self.server.sensors))):
            d, u, ty, ps = self.server.sensors[n]
            o = self.get(c.future_get_sensor(n))
            h.check('a sensor handed out reflects the current description', o is not None and (o.name, o.description, o.units, o.stype) == (n, d, u, ty) and
                    [str(x) for x in o.params] == [str(x) for x in [float(y) if ty == 'float' else y for y in ps]], lambda: (self.log, n, self.server.sensors[n], (o.description, o.units, o.stype, o.params)))
            k = (n, self.server.sensors[n])
            old = self.objs['sensors'].get(n)
            if old and old[0] == k and old[1] is not o and not old[2]:
                h.check('an unchanged sensor stays the same object', False, (self.log, n))
            self.objs['sensors'][n] = (k, o, False)
        for n in self.r.sample(sorted(self.server.requests), min(3, len(self.server.requests))):
            o = self.get(c.future_get_request(n))
            h.check('a request handed out reflects the current description', o is not None and (o.name, o.description, o.timeout_hint) == (n,) + self.model('requests')[n], lambda: (self.log, n, self.server.requests[n], o))

    def lookup(self, k, n):
        """between changes: something the model may not have yet"""
        f = self.c.future_get_sensor(n) if k == 'sensors' else self.c.future_get_request(n)
        had = n in (self.c.sensors if k == 'sensors' else self.c.requests)
        o = self.get(f)
        there = n in (self.server.sensors if k == 'sensors' else self.server.requests)
        self.log.append(('lookup', n, o is not None))
        if not had:
            self.h.check('a lookup finds what the server has', (o is not None) == there, (self.log, n))


def case_history(h, p):
    seed, version, steps = p
    with World() as w:
        t = T(h, w, seed, version)
        r = t.r
        t.run(.2)
        t.synced()
        for i in range(steps):
            k = r.random()
            if k < .5:
                for _ in range(r.choice([1, 1, 2, 4])):
                    t.server.change()
                for d in t.objs.values():
                    for n in d:
                        d[n] = d[n][:2] + (True,)
                if r.random() < .3:
                    t.lookup(*r.choice([('sensors', 's%d' % r.randrange(5)), ('requests', 'r%d' % r.randrange(5))]))
                if r.random() < .6:
                    t.server.fault = (r.choice(['help', 'sensor-list', 'sensor-list'] + (['request-timeout-hint'] if 'T' in version else [])), r.choice(['fail', 'malformed', 'close']))
                t.log.append(('change', t.server.fault))
                t.peer.send(b'#interface-changed\n')
                if r.random() < .3:
                    t.run(.05)
                    t.server.change()
                    t.log.append('changed again')
                    if not t.peer.eof:
                        t.peer.send(b'#interface-changed\n')
                t.run(.1)
                t.run(r.choice([.1, .8]))
            elif k < .65:
                t.log.append('reconnect')
                if r.random() < .7:
                    t.server.change()
                t.peer.close()
                t.peer.eof = True
                t.run(2)
            elif k < .75:
                t.lookup(*r.choice([('sensors', 's%d' % r.randrange(5)), ('requests', 'r%d' % r.randrange(5))]))
                continue
            elif k < .85 and t.server.sensors:
                n = r.choice(sorted(t.server.sensors))
                t.peer.send(('#sensor-status 1000.0 1 %s unknown 0\n' % n).encode())
                t.run(.1)
                continue
            else:
                t.run(r.choice([.3, 1]))
                continue
            t.synced()
        t.c.stop()
        w.run(1)
    h.nontrivial((version, len(t.server.sensors), len(t.server.requests), t.faults))
