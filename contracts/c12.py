"""C12: contracts on cancelling: every strategy in every state, and every way the server ends sampling."""
from .samp import *          # noqa

MODULES = ['core', 'kattypes', 'sampling', 'server']
UNDER_CONTRACT = ['sampling.SampleStrategy.cancel', '...detach', '...start', '...inform', '...cancel_timeouts (all overrides)', 'sampling.update_in_ioloop',
                  'sampling.SamplePeriod._run_once', 'sampling.SampleEventRate._periodic_sampling', '..._short_timeout_handler',
                  'server.DeviceServer.clear_strategies', '...remove_sensor', '...on_client_disconnect', '...request_sensor_sampling_clear', 'core.Sensor.detach']
ASSUMPTIONS = ['the ioloop (tornado) runs callbacks in the order they were added; remove_timeout prevents a timer from firing',
               'replacing a strategy and setting it to none cancel the old one once (proved under C11)']
NAMES = ['auto', 'event', 'differential', 'period', 'event-rate', 'differential-rate']


def quiet(s, how):
    """from now on nothing is sent and nothing stays behind"""
    cx = s.cx
    cx.prove('the sensor keeps no observer', not s.observed())
    # what may still come before the ioloop has run the queue: updates, timers
    for what in cx.pick('then', [[], ['update'], ['timers'], ['timers', 'update']]):
        s.later('then')
        if what == 'update':
            s.set(s.reading('after'))
        else:
            for h in list(s.loop.active()):
                cx.assume(R_(h.when) <= s.loop.now.t)
                st, x = fire(s, h)
                cx.prove('a timer never raises', st == 'ok', info=ename(x))
    s.drain()
    cx.prove('nothing is sent once cancelled', not s.sent, info=how)
    cx.prove('no timer stays scheduled', not s.loop.active(), info=how)
    cx.prove('nothing stays queued', not s.loop.callbacks)
    cx.prove('the sensor keeps no observer afterwards', not s.observed())
    s.later('much_later')
    s.set(s.reading('later'))
    cx.prove('later updates are not sent', not s.sent and not s.loop.callbacks and not s.loop.active())


def fire(s, h):
    try:
        return 'ok', s.loop.fire(s.ip, h)
    except PyExc as e:
        return 'raise', e.value


def c_running(cx, kind=None):
    """cancel in the middle of operation, with an update of another thread queued or not."""
    s = Samp(cx, kind or cx.pick('strategy', NAMES))
    s.arbitrary()
    if s.kind == 'auto' or s.kind in ('event', 'differential', 'period') or cx.pick('queued update', ['yes', 'no']) == 'yes':
        cx.ghost['thread_ident'] = 2
        s.set(s.reading('queued'))
        cx.ghost['thread_ident'] = 1
    s.later('cancel_time')
    r = s.call('cancel')
    cx.prove('cancelling never raises', r[0] == 'ok', info=ename(r[1]))
    quiet(s, 'running')


def c_starting(cx):
    """cancel right after start, or after any part of the start has run."""
    s = Samp(cx, cx.pick('strategy', NAMES + ['none']))
    if cx.pick('started', ['yes', 'no']) == 'yes':
        s.start()
        n = len(s.loop.callbacks)
        for _ in range(cx.pick('callbacks run', range(n + 1)) if n else 0):
            s.loop.run_next(s.ip)
    s.sent[:] = []
    r = s.call('cancel')
    cx.prove('cancelling never raises', r[0] == 'ok', info=ename(r[1]))
    quiet(s, 'starting')
    if cx.pick('again', ['no', 'yes']) == 'yes':
        r = s.call('cancel')
        s.drain()
        cx.prove('cancelling twice does no harm', r[0] == 'ok' and not s.sent and not s.loop.active())


# ---------------------------------------------------------------- the server: any number of clients and sensors
SRC = '''
class Strategy(object):
    def __init__(self):
        self.cancelled = 0
    def cancel(self):
        self.cancelled += 1
class Sensor(object):
    name = 'the.sensor'
class Client(object):
    def __init__(self, log):
        self.log = log
    def inform(self, msg):
        self.log.append(('inform', msg))
    def flush_on_close(self):
        self.log.append(('flush',))
        return flushed()
class Inner(object):
    ioloop_thread_id = 1
    def in_ioloop_thread(self):
        return ident() == 1
class D(Base):
    """device"""
    def __init__(self):
        pass
class Req(object):
    def __init__(self, client):
        self.client_connection = client
    def make_reply(self, *a):
        return a
'''


class Dev(object):
    def __init__(self, cx):
        self.cx, self.ip = cx, cx.interp
        ip = cx.interp
        cx.ghost['coroutines'] = True
        cx.ghost['thread_ident'] = 1
        self.loop = cx.ghost['ioloop'] = L.NIOLoop()
        self.ns = run_src(ip, SRC, Base=ip.get('katcp.server:DeviceServer'), ident=ip.lib.N(lambda: cx.ghost['thread_ident'], 'ident'),
                          flushed=ip.lib.N(self.flushed, 'flushed'))
        self.dev = ip.call(self.ns['D'], [])
        self.log = []
        self.client, self.other = [ip.call(self.ns['Client'], [self.log]) for _ in range(2)]
        self.sensor, self.sensor2 = [ip.call(self.ns['Sensor'], []) for _ in range(2)]
        self.sensor2.attrs['name'] = 'another'
        self.dev.attrs.update(ioloop=self.loop, _server=ip.call(self.ns['Inner'], []))
        self.strategies = {}

    def flushed(self):
        f = IFuture()
        f.m_set_result(self.ip, None)
        return f

    def strategy(self):
        return self.ip.call(self.ns['Strategy'], [])

    def state(self, *ss):
        return [s.attrs['cancelled'] for s in ss]


class ClearHook(EachHook):
    """each strategy of the client is cancelled once and leaves the table; no other is touched"""

    def __init__(self, d, mine):
        self.d, self.mine, self.ran = d, mine, False

    def before(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)

    def begin(self, ip, env, x):
        self.x = x
        self.v = self.mine.version
        self.n = len(self.mine.items)

    def end(self, ip, env, x):
        k, v = x
        cx = self.d.cx
        cx.prove('each strategy is cancelled once', v.attrs['cancelled'] == 1)
        cx.prove('and leaves the table', not any(i[0] is k for i in self.mine.items))
        cx.prove('alone', len(self.mine.items) == self.n - 1)

    def after(self, ip, env, names):
        self.ran = True
        self.mine.items, self.mine.rest = [], None


def c_clear(cx):
    """clear_strategies / sensor-sampling-clear / disconnection: any number of sampled sensors of the client, other clients untouched."""
    d = Dev(cx)
    ip = d.ip
    mine = unknown_dict([], lambda ip2: (ip2.call(d.ns['Sensor'], []), d.strategy()))
    theirs_s = d.strategy()
    theirs = IDict([(d.sensor, theirs_s)])
    table = IDict([(d.client, mine), (d.other, theirs)])
    conns = ISet([d.client, d.other])
    d.dev.attrs.update(_strategies=table, _client_conns=conns)
    h = ClearHook(d, mine)
    for_each(cx, {'katcp.server:DeviceServer.clear_strategies': h})
    via = cx.pick('through', ['clear', 'clear and remove', 'request', 'disconnect', 'connection lost'])
    if via == 'clear':
        r = attempt(ip, ip.getattr(d.dev, 'clear_strategies'), d.client)
    elif via == 'clear and remove':
        r = attempt(ip, ip.getattr(d.dev, 'clear_strategies'), d.client, remove_client=True)
    elif via == 'request':
        r = attempt(ip, ip.getattr(d.dev, 'request_sensor_sampling_clear'), ip.call(d.ns['Req'], [d.client]),
                    ip.call(ip.getattr(ip.get('katcp.core:Message'), 'request'), ['sensor-sampling-clear']))
    else:
        r = attempt(ip, ip.getattr(d.dev, 'on_client_disconnect'), d.client, 'bye', via == 'disconnect')
    cx.prove('it never raises', r[0] == 'ok', info=ename(r[1]))
    d.loop.drain(ip)
    cx.prove('all strategies of the client are ended', h.ran)
    cx.prove("the other client's are kept", theirs_s.attrs['cancelled'] == 0 and theirs.items[0][1] is theirs_s and any(v is theirs for _, v in table.items))
    gone = via in ('clear and remove', 'disconnect', 'connection lost')
    cx.prove('a client that left has no table any more, others do', any(k is d.client for k, _ in table.items) == (not gone))
    if via in ('disconnect', 'connection lost'):
        cx.prove('it is no client any more', [x for x in conns.elems] == [d.other])
        cx.prove('the disconnection is complete', r[1].state == 'result')
        cx.prove('the reason is sent after sampling ended, to a connection that still works', [x[0] for x in d.log] == (['inform', 'flush'] if via == 'disconnect' else []))
    if via == 'request':
        cx.prove('the request is answered', r[1].state == 'result')


class RemoveHook(EachHook):
    def __init__(self, d):
        self.d, self.ran = d, False

    def before(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)

    def begin(self, ip, env, x):
        self.x = x[1] if isinstance(x, tuple) else x
        self.had = [i for i in self.x.items if i[0] is self.d.sensor]

    def end(self, ip, env, x):
        cx, d = self.d.cx, self.d
        cx.prove('no client samples the removed sensor any more', self.x.find(ip, d.sensor) is None)
        cx.prove('its strategy is cancelled once', all(i[1].attrs['cancelled'] == 1 for i in self.had))
        cx.prove('other sensors are sampled as before', self.x.items[0][0] is d.sensor2 and self.x.items[0][1].attrs['cancelled'] == 0)

    def after(self, ip, env, names):
        self.before(ip, env, names)
        self.ran = True


def c_remove(cx):
    """remove_sensor: any number of clients, sampling the sensor or not; at once when called on the ioloop."""
    d = Dev(cx)
    ip = d.ip

    def some_client(ip2):
        m = IDict([(d.sensor2, d.strategy())])
        if cx.pick('the client', ['samples it', 'does not']) == 'samples it':
            m.items.append([d.sensor, d.strategy()])
        return (ip2.call(d.ns['Client'], [[]]), m)
    table = unknown_dict([], some_client)
    sensors = IDict([('the.sensor', d.sensor), ('another', d.sensor2)])
    d.dev.attrs.update(_strategies=table, _sensors=sensors)
    h = RemoveHook(d)
    for_each(cx, {'katcp.server:DeviceServer.remove_sensor': h})
    where = cx.pick('called', ['on the ioloop', 'by another thread'])
    cx.ghost['thread_ident'] = 1 if where == 'on the ioloop' else 2
    r = attempt(ip, ip.getattr(d.dev, 'remove_sensor'), cx.pick('by', ['the.sensor', d.sensor]))
    cx.prove('removing a known sensor never raises', r[0] == 'ok', info=ename(r[1]))
    if where == 'on the ioloop':
        cx.prove('on the ioloop it has ended before anything else can run', h.ran and not d.loop.callbacks)
    else:
        cx.prove('another thread changes no table itself', not h.ran and len(d.loop.callbacks) == 1)
        cx.ghost['thread_ident'] = 1
        d.loop.drain(ip)
        cx.prove('it is ended by the ioloop', h.ran)
    cx.prove('the sensor is gone, others are not', [k for k, _ in sensors.items] == ['another'])


CONTRACTS = {'running': (c_running, {'split': NAMES}), 'starting': (c_starting, {}), 'clear': (c_clear, {}), 'remove': (c_remove, {'expect': []})}
