"""C10: contracts on every transition of every sampling strategy, from any state of its invariant, at any time and with any readings."""
from .samp import *          # noqa

MODULES = ['core', 'kattypes', 'sampling']
UNDER_CONTRACT = ['sampling.SampleStrategy.start', '...attach', '...inform', '...get_strategy', 'sampling.update_in_ioloop', 'sampling.SampleAuto.update', 'sampling.SampleDifferential.update',
                  'sampling.SamplePeriod.start', '..._run_once', 'sampling.SampleEventRate.start', '...inform', '...update', '..._periodic_sampling',
                  '..._short_timeout_handler', '..._sensor_changed', 'sampling.SampleEvent', 'sampling.SampleDifferentialRate._sensor_changed',
                  'core.Sensor.set', '...notify', '...attach', '...read']
ASSUMPTIONS = ['times and float values are finite reals (no rounding, no NaN); the clock does not go backwards and stays below the age of the universe',
               'the ioloop (tornado) runs callbacks in order and a timer at or after its time, once, unless it was removed',
               'the maximum period is not 0 (which asks for updates without pause)',
               'an update set by another thread counts from when its callback runs on the ioloop']
UPDATED = ['auto', 'event', 'differential', 'event-rate', 'differential-rate']
NAMES = ['auto', 'event', 'differential', 'period', 'event-rate', 'differential-rate']


def c_first(cx):
    """start: the first update is the current reading, once; then the invariant holds."""
    s = Samp(cx, cx.pick('strategy', NAMES + ['none']))
    s.start()
    cx.prove('nothing is sent before the ioloop runs', not s.sent)
    # the sensor may be set before the first run: nothing is sent for it
    if cx.pick('set before the first run', ['no', 'yes']) == 'yes':
        s.set(s.reading('early'))
        cx.prove('nothing is sent before the first run', not s.sent)
    n = s.later()
    s.drain()
    if s.kind == 'none':
        cx.prove('"none" sends nothing', not s.sent and not s.loop.active() and not s.observed())
        return
    cx.prove('the first update is sent once', len(s.sent) == 1)
    cx.prove('the first update is the current reading', s.same(s.sent[0][1], s.current()))
    s.E, s.last = n, s.current()
    if s.kind == 'period':
        cx.prove('the next period follows', R_(s.loop.active()[0].when) == n.t + s.period.t if len(s.loop.active()) == 1 else False)
    s.invariant()


def c_update(cx, kind=None):
    """the sensor is set: on the ioloop thread at once, from another thread when its callback runs."""
    s = Samp(cx, kind or cx.pick('strategy', UPDATED))
    s.arbitrary()
    r = s.reading('new')
    n = s.later()
    how = cx.pick('set', ['on the ioloop', 'by another thread', 'by another thread, and since again'])
    pending0 = True
    if how == 'on the ioloop':
        s.set(r)
    else:
        # whatever the sensor was before, its last reading has been seen by the strategy, or its update is still queued
        cx.ghost['thread_ident'] = 2
        s.set(r)
        cx.prove('another thread sends nothing itself', not s.sent)
        cx.prove('the update is queued once', len(s.loop.callbacks) == 1)
        cx.ghost['thread_ident'] = 1
        n = s.later('when_run')
        if how != 'by another thread':
            s.set_quietly(s.reading('newer'))
            pending0 = False                        # the newer reading's own update is queued behind this one
        s.loop.drain(s.ip)
        cx.prove('nothing raises on the ioloop', not cx.ghost.get('ioloop_exc'))
    for now, x, cur in s.sent:
        cx.prove('what is sent is that update', s.same(x, r))
    if s.kind == 'auto':
        cx.prove('auto sends every update once', len(s.sent) == 1)
        s.E, s.last = n, r
        return s.invariant()
    ch = s.changed(r, s.last)
    if s.kind in ('event', 'differential'):
        cx.prove('exactly the changed readings are sent, once', z3.If(ch, z3.BoolVal(len(s.sent) == 1), z3.BoolVal(len(s.sent) == 0)))
    else:
        s.emitted()
        cx.prove('a change is sent at once if the minimum period is over', z3.Implies(z3.And(ch, n.t >= s.E.t + s.short), z3.BoolVal(len(s.sent) == 1)))
        cx.prove('only changes are sent', z3.Implies(z3.BoolVal(len(s.sent) > 0), ch))
    s.invariant(pending0)


def c_timer(cx, kind=None):
    """a timer of a rate limited strategy fires."""
    s = Samp(cx, kind or cx.pick('strategy', ['event-rate', 'differential-rate']))
    s.arbitrary()
    which = cx.pick('timer', ['minimum', 'maximum'])
    h = s.h_short if which == 'minimum' else s.h_long
    if h is None:
        raise PathEnd('no such timer')
    n = s.later()
    cx.assume(n.t >= t(h.when))
    st, x = fire(s, h)
    cx.prove('a timer never raises', st == 'ok', info=ename(x))
    s.emitted()
    for now, r, cur in s.sent:
        cx.prove("what is sent is the sensor's reading", s.same(r, s.current()))
    ch = s.changed(s.current(), s.last)
    if which == 'minimum':
        cx.prove('a pending change is sent once the minimum period is over', z3.Implies(z3.And(ch, n.t >= s.E.t + s.short), z3.BoolVal(len(s.sent) == 1)))
    else:
        cx.prove('an update is sent once the maximum period is over', z3.Implies(n.t >= s.E.t + s.long, z3.BoolVal(len(s.sent) == 1)))
    cx.cover('sent' if s.sent else 'not yet')
    s.invariant()


def fire(s, h):
    try:
        return 'ok', s.loop.fire(s.ip, h)
    except PyExc as e:
        return 'raise', e.value


def c_period(cx):
    """each period one update, with the current reading."""
    s = Samp(cx, 'period')
    s.arbitrary()
    n = s.later()
    cx.assume(n.t >= s.N.t)
    st, x = fire(s, s.loop.active()[0])
    cx.prove('the timer never raises', st == 'ok', info=ename(x))
    cx.prove('one update per period', len(s.sent) == 1)
    cx.prove("it is the sensor's reading", s.same(s.sent[0][1], s.current()))
    s.invariant()
    w = R_(s.loop.active()[0].when)
    cx.prove('the next is one period later, unless that is over already', z3.Implies(s.N.t + s.period.t >= n.t, w == s.N.t + s.period.t))
    cx.prove('no period is sent twice', z3.And(w >= n.t, w >= s.N.t + s.period.t, w <= n.t + s.period.t))
    # setting the sensor sends nothing
    k = len(s.sent)
    s.set(s.reading('other'))
    cx.prove('setting the sensor sends nothing', len(s.sent) == k and len(s.loop.callbacks) == 0)


class NotifyHook(EachHook):
    def __init__(self, c):
        self.c, self.ran = c, False

    def begin(self, ip, env, x):
        del self.c.got[:]

    def end(self, ip, env, x):
        ip.cx.prove('each observer gets the update once', len(self.c.got) == 1 and self.c.got[0][0] is x and self.c.got[0][1] is self.c.sensor)
        ip.cx.prove('with the new reading', self.c.same(self.c.got[0][2]))

    def after(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)
        self.ran = True


def c_notify(cx):
    """Sensor.set: any number of observers get the new reading, which read() returns from then on."""
    ip = cx.interp
    cx.ghost['thread_ident'] = 1

    class C(object):
        pass
    c = C()
    c.got = []
    O = run_src(ip, 'class O(object):\n    def update(self, sensor, reading):\n        got(self, sensor, reading)\n', got=ip.lib.N(lambda o, s, r: c.got.append((o, s, r)), 'got'))['O']
    S = ip.get('katcp.core:Sensor')
    c.sensor = s = ip.call(S, [ip.getattr(S, 'INTEGER'), 'the.sensor'])
    need(s, '_observers')
    obs = s.attrs['_observers'] = unknown_set([], lambda ip2: ip2.call(O, []))
    r = (cx.real('ts'), cx.int('status'), cx.int('value'))

    def same(x):
        x = ip.items_of(x)
        return z3.And(*[t(a) == t(b) for a, b in zip(x, r)])
    c.same = same
    h = NotifyHook(c)
    for_each(cx, {'katcp.core:Sensor.notify': h})
    st, x = attempt(ip, ip.getattr(s, 'set'), *r)
    cx.prove('every observer is told', h.ran and st == 'ok')
    cx.prove('the sensor has the new reading', same(ip.call(ip.getattr(s, 'read'), [])))
    a = ip.call(O, [])
    ip.call(ip.getattr(s, 'attach'), [a])
    cx.prove('an attached observer is one of them', any(e is a for e in obs.elems) and obs.rest is not None)
    ip.call(ip.getattr(s, 'detach'), [a])
    cx.prove('a detached one is not', not any(e is a for e in obs.elems) and obs.rest is not None)
    st, x = attempt(ip, ip.getattr(s, 'detach'), a)
    cx.prove('detaching twice does no harm', st == 'ok')


CONTRACTS = {'first': (c_first, {}), 'update': (c_update, {'split': UPDATED}), 'timer': (c_timer, {'split': ['event-rate', 'differential-rate']}), 'period': (c_period, {}), 'notify': (c_notify, {})}
