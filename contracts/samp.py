"""Shared by C10 and C12: a real strategy on a real sensor over a ghost event loop, in any state its invariant allows."""
from .common import *          # noqa

AGE = z3.RealVal('432329886000000000')
TYPES = {'auto': ['INTEGER', 'FLOAT', 'BOOLEAN', 'STRING', 'TIMESTAMP'], 'event': ['INTEGER', 'FLOAT', 'BOOLEAN', 'STRING', 'TIMESTAMP'],
         'event-rate': ['INTEGER', 'FLOAT', 'BOOLEAN', 'STRING', 'TIMESTAMP'], 'differential': ['INTEGER', 'FLOAT', 'TIMESTAMP'],
         'differential-rate': ['INTEGER', 'FLOAT'], 'period': ['INTEGER', 'STRING'], 'none': ['INTEGER']}
RATED = ('event', 'event-rate', 'differential-rate')


def R_(x):
    x = t(x)
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


class Samp(object):
    def __init__(self, cx, kind, typ=None):
        self.cx, ip, self.kind = cx, cx.interp, kind
        self.ip = ip
        self.typ = typ or cx.pick('sensor type', TYPES[kind])
        cx.ghost['thread_ident'] = 1
        self.loop = L.NIOLoop()
        self.now = self.loop.now = cx.real('now')
        cx.assume(self.now.t >= 0)
        S = ip.get('katcp.core:Sensor')
        self.sensor = ip.call(S, [ip.getattr(S, self.typ), 'the.sensor'])
        self.set(self.reading('first'))
        self.sent = []
        self.fails = cx.pick('the client callback', ['works', 'raises'])
        z = lambda *a: z3.And(*a) if len(a) > 1 else a[0]
        ps = []
        if kind == 'period':
            self.period = cx.real('period')
            cx.assume(self.period.t > 0)
            ps = [self.period]
        if kind.startswith('differential'):
            self.diff = cx.int('difference') if self.typ == 'INTEGER' else cx.real('difference')
            cx.assume(self.diff.t > 0 if kind == 'differential' else self.diff.t >= 0)
            ps = [self.diff]
        self.short, self.long = z3.RealVal(0), z3.RealVal('1' + 99 * '0')
        if kind.endswith('-rate'):
            a, b = cx.real('shortest'), cx.real('longest')
            cx.assume(z3.And(a.t >= 0, a.t <= b.t, b.t > 0))       # longest = 0 asks for updates without pause: not considered
            self.short, self.long = a.t, b.t
            ps += [a, b]
        self.st = ip.call(ip.getattr(ip.get('katcp.sampling:SampleStrategy'), 'get_strategy'),
                          [kind, ip.lib.N(self.client, 'inform_callback'), self.sensor] + ps, {'ioloop': self.loop})

    # -- the world
    def reading(self, name):
        cx = self.cx
        v = {'INTEGER': cx.int, 'FLOAT': cx.real, 'BOOLEAN': cx.bool, 'STRING': cx.bytes, 'TIMESTAMP': cx.real}[self.typ](name + '_value')
        s = cx.int(name + '_status')
        cx.assume(z3.And(s.t >= 0, s.t <= 5))
        return (cx.real(name + '_time'), s, v)

    def client(self, sensor, reading):
        self.sent.append((self.loop.now, reading, self.current()))
        if self.fails == 'raises':
            raise PyExc(ValueError('client'))

    def set(self, r):
        st, x = attempt(self.ip, self.ip.getattr(self.sensor, 'set'), *r)
        self.cx.prove('setting the sensor never raises', st == 'ok', info=ename(x))

    def current(self):
        return tuple(self.ip.items_of(self.ip.call(self.ip.getattr(self.sensor, 'read'), [])))

    def later(self, name='later'):
        """time passes"""
        n = self.cx.real(name)
        self.cx.assume(z3.And(n.t >= self.loop.now.t, n.t < AGE))
        self.loop.now = n
        return n

    def call(self, name, *a):
        return attempt(self.ip, self.ip.getattr(self.st, name), *a)

    def start(self):
        r = self.call('start')
        self.cx.prove('starting never raises', r[0] == 'ok', info=ename(r[1]))

    def drain(self):
        self.loop.drain(self.ip)
        self.cx.prove('nothing raises on the ioloop', not self.cx.ghost.get('ioloop_exc'))

    def observed(self):
        return any(x is self.st for x in self.sensor.attrs['_observers'].elems)

    # -- the specification
    def same(self, a, b):
        """term: two readings are the same (object, or equal in all parts)"""
        a, b = [self.ip.items_of(x) for x in (a, b)]
        return z3.And(*[R_(x) == R_(y) if not isinstance(x, (SBytes, SBool)) else t(x) == t(y) for x, y in zip(a, b)])

    def changed(self, r, last):
        r, last = [self.ip.items_of(x) for x in (r, last)]
        st = R_(r[1]) != R_(last[1])
        if self.kind.startswith('differential'):
            d = R_(r[2]) - R_(last[2])
            return z3.Or(st, d > R_(self.diff), -d > R_(self.diff))
        return z3.Or(st, (R_(r[2]) != R_(last[2])) if isinstance(r[2], (SInt, SReal)) or not isinstance(r[2], Sym) and not isinstance(r[2], (bytes, bool)) else t(r[2]) != t(last[2]))

    # -- any state in the middle of operation
    def arbitrary(self):
        """Started, its first run done; any history since."""
        cx, ip, st = self.cx, self.ip, self.st
        fails, self.fails = self.fails, 'works'
        self.start()
        self.drain()
        self.fails = fails
        del self.sent[:]
        self.E = cx.real('last_emission')
        self.last = self.reading('last')
        self.set_quietly(self.reading('now_reading'))
        n = cx.real('now')
        cx.assume(n.t >= self.E.t)
        cx.assume(self.E.t >= 0)
        self.loop.now = n
        if self.kind == 'period':
            need(st, 'next_time', 'next_timeout_handle', '_period')
            for h in self.loop.active():
                h.active = False
            N = cx.real('next')
            st.attrs['next_time'] = N
            st.attrs['next_timeout_handle'] = self.timer(N, '_run_once')
            cx.assume(N.t >= self.E.t)
            self.N = N
        elif self.kind == 'differential':
            need(st, '_lastStatus', '_lastValue', '_threshold')
            st.attrs['_lastStatus'], st.attrs['_lastValue'] = self.last[1], self.last[2]
        elif self.kind in RATED:
            need(st, '_not_before', '_not_after', '_last_reading_sent', '_short_timeout_handle', '_periodic_timeout_handle')
            for h in self.loop.active():
                h.active = False
            st.attrs.update(_not_before=SReal(self.E.t + self.short), _not_after=SReal(self.E.t + self.long), _last_reading_sent=self.last)
            st.attrs['_short_timeout_handle'] = st.attrs['_periodic_timeout_handle'] = None
            self.h_short = self.h_long = None
            if self.kind != 'event':
                if cx.pick('timer of the minimum period', ['none', 'set']) == 'set':
                    d = cx.real('short_deadline')
                    cx.assume(d.t <= self.E.t + self.short)
                    self.h_short = st.attrs['_short_timeout_handle'] = self.timer(d, '_short_timeout_handler')
                if cx.pick('timer of the maximum period', ['none', 'set']) == 'set':
                    d = cx.real('long_deadline')
                    cx.assume(d.t <= self.E.t + self.long)
                    self.h_long = st.attrs['_periodic_timeout_handle'] = self.timer(d, '_periodic_sampling')
                else:
                    cx.assume(self.E.t + self.long >= AGE)
            if self.h_short is None:
                cx.assume(z3.Not(self.changed(self.current(), self.last)))
        cx.prove('a started strategy observes the sensor, unless it polls', self.observed() == (self.kind not in ('period', 'none')))

    def timer(self, when, method):
        return self.loop._timer(self.ip, when, self.ip.getattr(self.st, method), (), {})

    def set_quietly(self, r):
        """the sensor has that reading (set some time before)"""
        obs = self.sensor.attrs['_observers']
        old, obs.elems = obs.elems, []
        self.set(r)
        obs.elems = old

    def invariant(self, pending=True):
        """after a transition: the invariant holds again (ghost E and last updated from what was sent)"""
        cx, st, a = self.cx, self.st, self.st.attrs
        if self.sent:
            self.E, self.last = self.sent[-1][0], self.sent[-1][1]
        act = self.loop.active()
        if self.kind == 'period':
            cx.prove('one timer, for the next period', len(act) == 1 and a['next_timeout_handle'] is act[0] and act[0].fn.func is self.ip.getattr(st, '_run_once').func)
            cx.prove('next time is when the timer is due', t(act[0].when) == t(a['next_time']))
            return
        if self.kind == 'differential':
            cx.prove('the last status and value sent are remembered', z3.And(R_(a['_lastStatus']) == R_(self.ip.items_of(self.last)[1]), R_(a['_lastValue']) == R_(self.ip.items_of(self.last)[2])))
            cx.prove('no timers', not act)
            return
        if self.kind not in RATED:
            cx.prove('no timers', not act)
            return
        cx.prove('the last reading sent is remembered', self.same_sv(a['_last_reading_sent'], self.last))
        cx.prove('the next update may come when the minimum period is over', R_(a['_not_before']) == self.E.t + self.short)
        cx.prove('the next update must come when the maximum period is over', R_(a['_not_after']) == self.E.t + self.long)
        s, p = a['_short_timeout_handle'], a['_periodic_timeout_handle']
        cx.prove('only the strategy\'s own timers are scheduled', all(h is s or h is p for h in act) and (s is None or s in act), info=(len(act), s, p))
        cx.prove('the maximum period has a timer, unless it is beyond all time', z3.And(R_(p.when) <= self.E.t + self.long) if p is not None and p in act else self.E.t + self.long >= AGE)
        if s is not None:
            cx.prove('the timer of the minimum period is not too late', R_(s.when) <= self.E.t + self.short)
        elif pending:
            cx.prove('a pending change has a timer', z3.Not(self.changed(self.current(), self.last)))
        if self.kind == 'event':
            cx.prove('an event strategy needs no timer', not act)

    def same_sv(self, a, b):
        a, b = [self.ip.items_of(x)[1:] for x in (a, b)]
        return z3.And(*[R_(x) == R_(y) if isinstance(x, (SInt, SReal)) else t(x) == t(y) for x, y in zip(a, b)])

    def emitted(self, i=0):
        """the checks on any emission of a rated strategy"""
        cx = self.cx
        for now, r, cur in self.sent:
            cx.prove('never two updates closer than the minimum period', now.t >= self.E.t + self.short)
        cx.prove('at most one update', len(self.sent) <= 1)
