"""C23: contracts on the resource client and its container: rules for requests, strategies and listeners over a ghost inspecting client whose server comes, goes and changes."""
from .common import *          # noqa
from .c16 import Sync, S, R

MODULES = ['core', 'kattypes', 'resource', 'client', 'inspecting_client', 'resource_client']
UNDER_CONTRACT = ['resource_client.KATCPClientResource.__init__/start/_request_factory/_inspecting_client_state_callback/_update_model/_add_requests/_remove_requests/_add_sensors/_remove_sensors',
                  '...set_sampling_strategy/set_sampling_strategies/drop_sampling_strategy/set_sensor_listener/list_sensors', 'resource_client.KATCPClientResourceSensorsManager (all but poll_sensor)',
                  'resource_client.KATCPClientResourceContainer.__init__/_init_resources/_init_groups/req/sensor/_create_attrdict_from_children/_child_*/_dirty_groups/set_sampling_strategy/set_sampling_strategies/set_sensor_listener/start/set_ioloop',
                  'resource_client.ClientGroup.req/client_updated', 'resource.KATCPSensor.__init__/register_listener/unregister_listener/clear_listeners/is_listener/call_listeners/set/set_sampling_strategy/sampling_strategy/reading/value',
                  'inspecting_client.InspectingClientAsync._cb_inform_sensor_status/update_sensor/handle_sensor_value', 'resource.KATCPRequest', 'resource.escape_name', 'resource.normalize_strategy_parameters']
ASSUMPTIONS = ['the inspecting client tells of every change of the interface, one notification at a time, and hands out current objects (C16)',
               'requests are answered once, in the order they were sent (C13)',
               'no two names of one server are spelled alike as Python identifiers, no two aggregate sensors have the same name, and no request is simulated (dummy_unknown_requests off)',
               'strategies are set through the resource or its container']
NAMES = ['x.y', 'a-b_c', 's']
STRATS = ['event', 'period 2', ('event-rate', 1, 2.5)]
NORM = {'event': ('event',), 'period 2': ('period', '2.0'), ('event-rate', 1, 2.5): ('event-rate', '1.0', '2.5')}

SRC = '''
class Log(object):
    def isEnabledFor(self, level):
        return False
    def debug(self, *a, **k):
        pass
    info = warn = warning = error = exception = critical = log = debug
class Wire(object):
    auto_reconnect_delay = None
class State(object):
    def __init__(self, connected, synced, model_changed, data_synced):
        self.connected, self.synced, self.model_changed, self.data_synced = connected, synced, model_changed, data_synced
class Added(object):
    def __init__(self, added, removed):
        self.added, self.removed = set(added), set(removed)
class Reply(object):
    def __init__(self, succeeded):
        self.succeeded = succeeded
class Client(object):
    """the inspecting client as a resource client sees it"""
    def __init__(self, host, loop, future):
        self.host, self.ioloop, self.future = host, loop, future
        self.katcp_client = Wire()
        self.callback = None
        self.request_factory = self.sensor_factory = None
    def set_state_callback(self, callback):
        self.callback = callback
    def preset_protocol_flags(self, flags):
        pass
    def handle_sensor_value(self):
        pass
    def done(self, v=None):
        f = self.future()
        f.set_result(v)
        return f
    def connect(self):
        return self.done()
    def stop(self, timeout=None):
        pass
    def make_request(self, name, description):
        return self.request_factory(name=name, description=description, timeout_hint=None)
    def make_sensor(self, name, description):
        return self.sensor_factory(name=name, description=description, units='', sensor_type=0, params=[])
    def future_get_request(self, name):
        return self.host('get request', name)
    def future_get_sensor(self, name):
        return self.host('get sensor', name)
    def future_check_sensor(self, name):
        return self.host('check sensor', name)
    def wrapped_request(self, request, *args, **kw):
        return self.host('request', (request,) + args)
    def tell(self, state, changes):
        return self.callback(state, changes)
def changes(attrdict, requests, sensors):
    d = attrdict()
    if requests is not None:
        d['requests'] = Added(*requests)
    if sensors is not None:
        d['sensors'] = Added(*sensors)
    return d or None
def items(d):
    return list(dict.items(d))
def spec(name, controlled, allowed, excluded):
    return dict(name=name, address=('h', 1), controlled=controlled, always_allowed_requests=allowed, always_excluded_requests=excluded)
'''


def host(x):
    """an interpreted tuple of strings, as it is"""
    return tuple(x) if isinstance(x, (list, tuple)) else x


class Rig(object):
    """one resource client on a ghost inspecting client; the ghost server has requests and sensors: name -> description"""

    def __init__(self, cx, spec=None, res=None, ns=None, loop=None):
        self.cx, self.ip = cx, cx.interp
        ip = self.ip
        cx.ghost['coroutines'] = True
        cx.ghost['thread_ident'] = 1
        if loop is None:
            loop = cx.ghost['ioloop'] = L.NIOLoop()
            loop.now = cx.real('now')
        self.loop = loop
        self.ns = ns or run_src(ip, SRC)
        cx.stubs['katcp.core:LatencyTimer.time_to_yield'] = lambda ip2, a, k: False
        self.reqs, self.sens = {}, {}
        self.known = {'req': {}, 'sensor': {}}      # what the resource was told
        self.objs = {}
        self.up = False
        self.pending = []       # (future, what, argument): not answered yet
        self.hold = ()
        self.sampling = {}      # what the server samples each sensor with, on this connection
        self.touched = set()
        self.want = {}
        self.n = 0
        self.telling = None
        self.log = []
        self.names = {}         # label -> symbolic name
        self.res = res or ip.call(ip.get('katcp.resource_client:KATCPClientResource'), [spec], {'logger': ip.call(self.ns['Log'], [])})
        self.ic = ip.call(self.ns['Client'], [ip.lib.N(self.asked, 'host'), self.loop, Native(lambda ip2, a, k: IFuture(), 'Future')])

    def start(self):
        ip = self.ip
        ip.setattr(self.res, 'inspecting_client_factory', Native(lambda ip2, a, k: self.ic, 'factory'))
        ip.call(ip.getattr(self.res, 'start'), [])
        self.drain()

    def drain(self):
        self.loop.drain(self.ip, 300)

    # -- the inspecting client

    def asked(self, what, arg):
        f = IFuture()
        if what == 'request':
            arg = host(arg)
            # the server gets requests in the order they were made
            ok = self.up and arg[0] == 'sensor-sampling' and arg[1] in self.sens
            if ok:
                self.sampling[arg[1]] = arg[2:]
                self.touched.add(arg[1])
            arg = ok
        if what in self.hold:
            self.pending.append((f, what, arg))
        else:
            f.state, f.value = 'result', self.answer(what, arg)
        return f

    def answer(self, what, arg):
        ip = self.ip
        if what == 'request':
            return ip.call(self.ns['Reply'], [arg])
        if what == 'check sensor':
            return arg in self.sens
        kind = what.split()[1]
        arg = next((l for l, v in self.names.items() if isinstance(arg, Sym) and arg.t.eq(v.t)), arg)
        table = self.reqs if kind == 'request' else self.sens
        k = (kind, arg)
        if table.get(arg) is None:
            return None
        if self.objs.get(k, (None, None))[1] is not table[arg]:
            self.objs[k] = (ip.call(ip.getattr(self.ic, 'make_' + kind), [self.names.get(arg, arg), table[arg].text]), table[arg])
        return self.objs[k][0]

    def answer_one(self, i=0):
        f, what, arg = self.pending.pop(i)
        self.ip.call(self.ip.getattr(f, 'set_result'), [self.answer(what, arg)])
        self.drain()

    def settle(self):
        self.hold = ()
        for _ in range(60):
            self.drain()
            if not self.pending:
                return
            self.answer_one()

    def tell(self, connected, synced, data, changes=None):
        ip = self.ip
        st = ip.call(self.ns['State'], [connected, synced, changes is not None, data])
        f = ip.call(ip.getattr(self.ic, 'tell'), [st, changes])
        self.drain()
        self.telling = f
        return f

    def told(self):
        f = self.telling
        if f is None or isinstance(f, IFuture) and f.state == 'pending':
            return f is None
        self.cx.prove('the resource takes in what it is told', f.state == 'result', info=(ename(f.value) if f.state == 'exc' else f, self.log))
        return True

    def changes(self):
        out = []
        for kind, now in (('req', self.reqs), ('sensor', self.sens)):
            old = self.known[kind]
            moved = [n for n in now if n in old and old[n] is not now[n]]
            a, r = [n for n in now if n not in old] + moved, [n for n in old if n not in now] + moved
            out.append([a, r] if a or r else None)
            self.known[kind] = dict(now)
            if out[-1]:
                out[-1] = [[self.names.get(n, n) for n in x] for x in out[-1]]
        d = self.ip.call(self.ns['changes'], [self.ip.get('katcp.core:AttrDict')] + out)
        return d

    def sync(self, finish=True):
        """the changes are told; then that all is in step"""
        self.tell(True, False, True, self.changes())
        if finish:
            self.finish()

    def finish(self):
        self.settle()
        self.cx.prove('a notification is dealt with once everything was answered', self.told(), info=self.log)
        self.tell(True, True, True)
        self.settle()
        self.told()

    def connect(self):
        self.up = True
        self.sampling = {}
        self.tell(True, False, False)
        self.told()

    def lose(self):
        self.up = False
        self.sampling = {}
        self.tell(False, False, False)
        self.settle()
        self.told()

    def item(self, name, kind='sensor', present=True):
        """the server offers a new one of that name, or none"""
        d = self.sens if kind == 'sensor' else self.reqs
        if present:
            self.n += 1
            d[name] = Desc('d%d' % self.n)
        else:
            d.pop(name, None)
        if kind == 'sensor':
            self.sampling.pop(name, None)

    # -- what holds

    def set(self, name, strategy, spelled=None):
        self.want[name] = NORM[strategy]
        self.log.append(('set', name, strategy))
        st, f = attempt(self.ip, self.ip.getattr(self.res, 'set_sampling_strategy'), spelled or name, strategy)
        self.cx.prove('a strategy can be set at any time', st == 'ok', info=(ename(f), self.log))
        self.drain()
        return f

    def table(self, attr, of=None):
        ip = self.ip
        d = ip.getattr(of or self.res, attr)
        return dict(host(x) for x in ip.items_of(ip.call(self.ns['items'], [d])))

    def strategies(self):
        cx, ip = self.cx, self.ip
        tab = self.table('sensor')
        cx.prove('the sensors are those of the server', sorted(tab) == sorted(esc(n) for n in self.sens), info=(sorted(tab), sorted(self.sens), self.log))
        for n in self.sens:
            s = tab[esc(n)]
            cx.prove('a sensor is the one of that name', s is self.objs['sensor', n][0] and ip.getattr(s, 'name') == n and ip.getattr(s, 'description') == self.sens[n].text, info=(n, self.log))
            got = host(ip.getattr(s, 'sampling_strategy'))
            if n in self.want:
                cx.prove('the strategy set last is the one the server samples with', self.sampling.get(n) == self.want[n], info=(n, self.sampling.get(n), self.want[n], self.log))
                cx.prove('the strategy of a sensor is the one set', got == self.want[n], info=(n, got, self.want[n], self.log))
            else:
                cx.prove('no strategy is set on another sensor', n not in self.touched and got == ('none',), info=(n, self.sampling, self.log))


class Desc(object):
    def __init__(self, text):
        self.text = text


def esc(n):
    return n.replace('.', '_').replace('-', '_')


def one_spec(rig_ns, ip, name='res', controlled=False, allowed=(), excluded=()):
    return ip.call(rig_ns['spec'], [name, controlled, list(allowed), list(excluded)])


def sampling(cx, part):
    """strategies set before, during and after whatever happens to the sensor and the link"""
    first, event, when = part
    ip = cx.interp
    ns = run_src(ip, SRC)
    w = Rig(cx, one_spec(ns, ip), ns=ns)
    w.start()
    A, B = 'x.y', 'a-b_c'
    spelled = cx.pick('spelling', [A, esc(A)])
    w.item(B)
    if first in ('known', 'known unset'):
        w.item(A)
    if first == 'before connecting':
        w.item(A)
        w.set(A, 'event', spelled)
    w.connect()
    w.sync()
    w.strategies()
    if first in ('known', 'unknown'):
        w.hold = cx.pick('slow', [(), ('request',)])
        w.set(A, 'event', spelled)
        if cx.pick('answered', [True, False]):
            w.settle()
    if cx.pick('another too', [False, True]):
        w.set(B, 'period 2')
    w.log.append(event)

    def again():
        w.set(A, STRATS[2], spelled)

    slow = ('check sensor', 'request', 'get sensor')
    if event == 'reconnected':
        w.lose()
        if when == 'while away':
            again()
        what = cx.pick('meanwhile', ['same', 'new', 'gone'])
        if what == 'same':
            w.sampling = {}
        else:
            w.item(A, 'sensor', what == 'new')
        w.connect()
        w.hold = slow
        w.sync(False)
    else:
        if event == 'new description' or event == 'appears':
            w.item(A)
        else:
            w.item(A, 'sensor', False)
        w.hold = slow
        w.sync(False)
    if when == 'on the way':
        w.hold = slow
        for i in range(cx.pick('answered first', range(5))):
            if not w.pending:
                raise PathEnd('all answered')
            w.answer_one(cx.pick('which', range(len(w.pending))))
        again()
    w.finish()
    if when == 'after':
        again()
        w.settle()
    w.strategies()
    more = cx.pick('once more', ['no', 'link', 'sensor']) if when == 'after' else 'no'
    if more != 'no':
        w.log.append(more)
        if more == 'link':
            w.lose()
            w.connect()
        else:
            w.item(A, 'sensor', False)
            w.sync()
            w.item(A)
        w.sync()
        w.strategies()
    cx.cover('done')


ESC = z3.Function('escaped', z3.StringSort(), z3.StringSort())


def rules(cx, part):
    """any two requests, any rules: what is offered, whatever the server had before and has now"""
    before, after = part
    ip = cx.interp
    cx.stubs['katcp.resource:escape_name'] = lambda ip2, a, k: SStr(ESC(t(a[0])))
    ns = run_src(ip, SRC)
    n, m = cx.str('n'), cx.str('m')
    e, em = ESC(n.t), ESC(m.t)
    cx.assume(e != em)
    controlled = cx.pick('controlled', [False, True])
    lists = {'n': [], 'm': []}
    for who in lists:
        rules = []
        for rule in ('allowed', 'excluded'):
            on = cx.pick('%s %s' % (who, rule), [True, False]) if who == 'n' else rule == 'allowed'
            if on:
                rules.append(rule)
        lists[who] = rules
    spelled = {}
    for rule in ('allowed', 'excluded'):
        spelled[rule] = []
        other = cx.str('other ' + rule)
        cx.assume(z3.And(ESC(other.t) != e, ESC(other.t) != em))
        for who, want in (('n', e), ('m', em)):
            if rule in lists[who]:
                x = cx.str('%s as %s' % (who, rule))
                cx.assume(ESC(x.t) == want)
                spelled[rule].append(x)
        spelled[rule].append(other)
    w = Rig(cx, one_spec(ns, ip, 'res', controlled, spelled['allowed'], spelled['excluded']), ns=ns)
    w.names = {'n': n, 'm': m}
    w.start()
    if before:
        w.item('n', 'req')
    w.item('m', 'req')
    w.connect()
    w.sync()

    def check():
        tab = [host(x) for x in ip.items_of(ip.call(ns['items'], [ip.getattr(w.res, 'req')]))]
        want = []
        for who, name in (('n', n), ('m', m)):
            if who in w.reqs and 'excluded' not in lists[who] and (controlled or 'allowed' in lists[who]):
                want.append((who, name))
        cx.prove('the requests offered are those the rules allow', len(tab) == len(want), info=(lists, controlled, len(tab), len(want)))
        for who, name in want:
            got = [v for k, v in tab if isinstance(k, Sym) and k.t.eq(ESC(name.t))]
            cx.prove('a request offered is found under its name', len(got) == 1, info=(who, [str(k) for k, v in tab]))
            q = got[0]
            cx.prove('a request offered is the one the server has', q is w.objs['request', who][0] and ip.getattr(q, 'name') is name and ip.getattr(q, 'description') == w.reqs[who].text)
    check()
    how = cx.pick('how', ['changed', 'reconnected'])
    if how == 'reconnected':
        w.lose()
    if after != 'same':
        w.item('n', 'req', after == 'new')
    if cx.pick('the other', ['same', 'new']) == 'new':
        w.item('m', 'req')
    if how == 'reconnected':
        w.connect()
    w.sync()
    check()
    cx.cover('done')


def spelling(cx):
    """names are Python identifiers' spelling of what they were, and nothing else"""
    ip = cx.interp
    f = lambda x: ip.call(ip.get('katcp.resource:escape_name'), [x])       # noqa
    for x in ['', 'a', 'a.b-c_d', '-', '.-.', 'x--y', 'halt', 'A.B']:
        y = f(x)
        cx.prove('a name is escaped to an identifier', y == esc(x))
        cx.prove('an escaped name is left alone', f(y) == y)
    g = lambda x: host(ip.call(ip.get('katcp.resource:normalize_strategy_parameters'), [x]))       # noqa
    for s, want in [('none', ('none',)), ('period 2', ('period', '2.0')), ('event-rate 1 2.5', ('event-rate', '1.0', '2.5')), (('differential', 3), ('differential', '3.0')),
                    (['period', '0.5'], ('period', '0.5')), ('auto', ('auto',)), (('event-rate', 1.5, 10), ('event-rate', '1.5', '10.0'))]:
        got = g(s)
        cx.prove('a strategy is sent as it was given', got == want, info=(s, got))
        cx.prove('a strategy that was normalised is left alone', g(got) == want)
    cx.cover('done')


def readings(cx, part):
    """a sensor's listeners: any of them registered, unregistered, in either form, one of them raising; then readings"""
    ip = cx.interp
    ns = run_src(ip, SRC)
    w = Rig(cx, one_spec(ns, ip), ns=ns)
    w.start()
    A, B = 'x.y', 's'
    calls = []

    def listener(name, bad):
        def f(ip2, *a):
            calls.append((name, a))
            if len(a) == 2:
                cx.prove('a sensor has the reading its listeners are told', ip.getattr(a[0], 'reading') is a[1])
            if bad:
                raise PyExc(ValueError('listener'))
        return ip.lib.N(lambda *a: f(ip, *a), 'listener ' + name)
    regs = []       # name -> (function, reading form)
    early = part[0]
    fs = [listener(x, x == part[1]) for x in ('1', '2', '3')]

    def through_resource(i, name):
        st, f = attempt(ip, ip.getattr(w.res, 'set_sensor_listener'), cx.pick('spelled%d' % i, [name, esc(name)]) if i == 0 else name, fs[i])
        cx.prove('a listener can be set at any time', st == 'ok', info=ename(f))
        w.drain()
        regs.append((str(i + 1), True))
    w.item(B)
    if early != 'early':
        w.item(A)
    if early == 'early':
        through_resource(0, A)
        through_resource(1, A)
    w.connect()
    w.sync()
    if early == 'early':
        w.item(A)
        w.sync()
    s = w.table('sensor')[esc(A)]
    other = w.table('sensor')[esc(B)]
    if early == 'late':
        through_resource(0, A)
        through_resource(1, A)
    elif early == 'direct':
        for i in (0, 1):
            form = cx.pick('form%d' % i, [False, True])
            ip.call(ip.getattr(s, 'register_listener'), [fs[i], form])
            regs.append((str(i + 1), form))
    then = cx.pick('then', ['nothing', 'unregister', 'again', 'clear', 'one more', 'renewed'])
    if then == 'unregister':
        ip.call(ip.getattr(s, 'unregister_listener'), [fs[0]])
        regs = [r for r in regs if r[0] != '1']
    elif then == 'again':
        form = cx.pick('form again', [False, True])
        ip.call(ip.getattr(s, 'register_listener'), [fs[0], form])
        regs = [(n, form if n == '1' else f) for n, f in regs]
    elif then == 'clear':
        ip.call(ip.getattr(s, 'clear_listeners'), [])
        regs = []
    elif then == 'one more':
        form = cx.pick('form more', [False, True])
        ip.call(ip.getattr(s, 'register_listener'), [fs[2], form])
        regs.append(('3', form))
    elif then == 'renewed':
        if early == 'direct':
            raise PathEnd('listeners set on the object go with it')
        if cx.pick('by', ['link', 'description']) == 'link':
            w.lose()
            w.connect()
        else:
            w.item(A)
        w.sync()
        s = w.table('sensor')[esc(A)]
    for i, f in enumerate(fs):
        got = ip.truth(ip.call(ip.getattr(s, 'is_listener'), [f]))
        cx.prove('what listens is known', got == (str(i + 1) in [n for n, x in regs]), info=(i, regs))
        cx.prove('a listener is one of its sensor only', not ip.truth(ip.call(ip.getattr(other, 'is_listener'), [f])))
    names = ip.get('katcp.core:Sensor').ns['STATUSES']
    for k in range(2):
        ts, v = cx.real('ts%d' % k), cx.int('v%d' % k)
        w.loop.now = cx.real('received%d' % k)
        mark = len(calls)
        status = cx.pick('status', [1, 2, 3])
        st, r = attempt(ip, ip.getattr(s, 'set'), ts, status, v)
        cx.prove('a reading can be set', st == 'ok', info=ename(r))
        got = calls[mark:]
        cx.prove('a reading reaches every listener once', [n for n, a in got] == [n for n, f in regs] if then != 'again' else sorted(n for n, a in got) == sorted(n for n, f in regs), info=([n for n, a in got], regs))
        word = ip.getitem(names, status)
        for n, a in got:
            if dict(regs)[n]:
                cx.prove('a listener is given its sensor and the reading', len(a) == 2 and a[0] is s and a[1] is ip.getattr(s, 'reading'))
                a = [ip.getattr(a[1], x) for x in ('received_timestamp', 'timestamp', 'status', 'value')]
            cx.prove('a listener is given the reading', len(a) == 4 and a[2] == word)
            cx.prove('a reading is the one received', z3.And(t(a[0]) == w.loop.now.t, t(a[1]) == ts.t, t(a[3]) == v.t))
        cx.prove('the reading received last is kept', t(ip.getattr(s, 'value')) == v.t)
    cx.cover('done')


def container(cx, part):
    """two children, under any names; what the container and its groups offer, and where strategies and listeners go"""
    names, event = part
    ip = cx.interp
    cx.ghost['coroutines'] = True
    cx.ghost['thread_ident'] = 1
    ns = run_src(ip, SRC)
    loop = cx.ghost['ioloop'] = L.NIOLoop()
    loop.now = cx.real('now')
    a, b = names
    sp = ip.call(run_src(ip, """
def top(a, b, loop):
    return {'name': 'top', 'clients': {a: dict(address=('h', 1), controlled=True), b: dict(address=('h', 2), always_allowed_requests=['go.it'])}, 'groups': {'g-1': [a], 'all.of': [b, a]}}
""")['top'], [a, b, loop])
    c = ip.call(ip.get('katcp.resource_client:KATCPClientResourceContainer'), [sp], {'logger': ip.call(ns['Log'], [])})
    ip.call(ip.getattr(c, 'set_ioloop'), [loop])
    kids = {}
    ch = {k: v for k, v in ip.items_of(ip.call(ns['items'], [ip.getattr(c, 'children')]))}
    cx.prove('the children are those of the specification', sorted(ch) == sorted(esc(x) for x in names))
    for n in names:
        kids[n] = Rig(cx, res=ch[esc(n)], ns=ns, loop=loop)
        ip.setattr(kids[n].res, 'inspecting_client_factory', Native((lambda k: lambda ip2, a2, k2: k.ic)(kids[n]), 'factory'))
    ip.call(ip.getattr(c, 'start'), [])
    loop.drain(ip, 300)
    A, B = kids[a], kids[b]
    rig = A

    def check(orders):
        for attr in orders:
            want = {}
            for n in names:
                for k, v in kids[n].table(attr).items():
                    want[(k if k.startswith('agg_') else esc(n) + '_' + k)] = v
            got = rig.table(attr, c)
            cx.prove('a container offers what its children offer, under their names', sorted(got) == sorted(want) and all(got[k] is want[k] for k in want), info=(attr, sorted(got), sorted(want)))
            for n in names:
                k = kids[n]
                exp = [esc(x) for x in k.sens] if attr == 'sensor' else [esc(x) for x in k.reqs if n == a or esc(x) == 'go_it']
                cx.prove('a child offers what its server does', sorted(k.table(attr)) == sorted(exp), info=(n, attr))
        for g, members in (('g_1', [a]), ('all_of', [a, b])):
            want = sorted(set(x for n in members for x in kids[n].table('req')))
            got = rig.table('req', ip.getitem(ip.getattr(c, 'groups'), g))
            cx.prove('a group offers what its members offer', sorted(got) == want, info=(g, sorted(got), want))
    A.item('x.y')
    A.item('go', 'req')
    B.item('go-it', 'req')
    B.item('xzy')
    B.item('x.y')
    A.item('xzy')
    A.item('agg_s-t')
    B.item('aggr')
    B.item('agg')
    for k in (A, B):
        k.connect()
        k.sync()
    look = cx.pick('looked at first', [['req', 'sensor'], ['sensor', 'req'], []])
    check(look)
    who = cx.pick('which', [a, b])
    k = kids[who]
    if event == 'added':
        k.item('new.one')
        k.item('go-it', 'req')
    elif event == 'removed':
        k.item('x.y', 'sensor', False)
        k.reqs.clear()
    elif event == 'renewed':
        k.item('x.y')
        for x in list(k.reqs):
            k.item(x, 'req')
    elif event in ('strategy', 'listener'):
        name = cx.pick('sensor', ['x.y', 'xzy'] + (['agg_s-t'] if who == a else []))
        full = name if name.startswith('agg_') else esc(who) + '_' + name
        full = cx.pick('spelled', [full, esc(full)])
        if event == 'strategy':
            st, f = attempt(ip, ip.getattr(c, 'set_sampling_strategy'), full, 'period 2')
            k.want[name] = NORM['period 2']
        else:
            got = []
            st, f = attempt(ip, ip.getattr(c, 'set_sensor_listener'), full, ip.lib.N(lambda s, r: got.append(s), 'listener'))
        loop.drain(ip, 300)
        cx.prove('it can be set', st == 'ok' and f.state == 'result', info=(ename(f), getattr(f, 'value', None)))
        if event == 'listener':
            for n in names:
                for x, s in kids[n].table('sensor').items():
                    mark = len(got)
                    ip.call(ip.getattr(s, 'set'), [1.0, 1, 5])
                    cx.prove('a listener hears its sensor and no other', (got[mark:] == [s]) == (n == who and x == esc(name)) and len(got) - mark <= 1, info=(n, x, name))
    elif event == 'filter':
        st, f = attempt(ip, ip.getattr(c, 'set_sampling_strategies'), 'x_y', 'event')
        loop.drain(ip, 300)
        for n in names:
            kids[n].want['x.y'] = NORM['event']
    elif event == 'another child':
        r = {}
        made = ip.call(ip.get('katcp.resource_client:KATCPClientResource'), [one_spec(ns, ip, 'n.w', True)], {'parent': c, 'logger': ip.call(ns['Log'], [])})
        ip.setattr(c, 'client_resource_factory', Native(lambda ip2, a2, k2: made, 'factory'))
        names = list(names) + ['n.w']
        kids['n.w'] = k = Rig(cx, res=made, ns=ns, loop=loop)
        ip.setattr(made, 'inspecting_client_factory', Native(lambda ip2, a2, k2: k.ic, 'factory'))
        ip.call(ip.getattr(c, 'add_child_resource_client'), ['n.w', ip.call(ns['spec'], ['n.w', True, [], []])])
        loop.drain(ip, 300)
        k.item('only')
        k.connect()
    if event in ('added', 'removed', 'renewed', 'another child'):
        if cx.pick('meanwhile', ['connected', 'lost']) == 'lost':
            k.lose()
            k.connect()
        k.hold = cx.pick('slow', [(), ('get sensor', 'get request')])
        k.sync(False)
        if k.hold:
            for i in range(cx.pick('answered before looking', [0, 2])):
                if k.pending:
                    k.answer_one()
            for attr in ('req', 'sensor'):      # (looked at part of the way)
                rig.table(attr, c)
            for g in ('g_1', 'all_of'):
                rig.table('req', ip.getitem(ip.getattr(c, 'groups'), g))
        k.finish()
    check(['req', 'sensor'] if look != ['req', 'sensor'] else ['sensor', 'req'])
    for n in names:
        kids[n].strategies()
    cx.cover('done')


B23 = 'one resource client with two sensors, one of them set up to four times'
def wire(cx, part):
    """readings on the wire: each reaches the object of its sensor, in order, whatever else is in the same message"""
    word, first = part
    w = Sync(cx, hints=False)
    ip = cx.interp
    ns = run_src(ip, '''
class Sensor(object):
    def __init__(self, told, **kw):
        self.name, self.description, self.told = kw['name'], kw['description'], told
    def set_formatted(self, timestamp, status, value, major):
        self.told(self, timestamp, status, value, major)
def factory(told):
    def make(**kw):
        return Sensor(told, **kw)
    return make
''')
    heard = []
    ip.setattr(w.c, 'sensor_factory', ip.call(ns['factory'], [ip.lib.N(lambda *a: heard.append(a), 'told')]))
    ip.call(ip.getattr(w.c, 'handle_sensor_value'), [])
    w.server[S] = {n: w.data(S, n, False) for n in ('a', 'b')}
    w.server[R] = {}
    objs = {}

    def get(n):
        st, f = attempt(ip, ip.getattr(w.c, 'future_get_sensor'), n)
        w.drain()
        cx.prove('a sensor can be had', st == 'ok' and f.state == 'result' and f.value is not None)
        objs[n] = f.value
    w.connect()
    cx.assume(w.synced())
    if first != 'unseen':
        get('a')
        get('b')
    if first == 'renewed':
        old = dict(objs)
        w.server[S] = dict(w.server[S], a=w.data(S, 'new', False))
        w.changed()
        cx.assume(w.synced())
        if cx.pick('had again', [True, False]):
            get('a')
            cx.prove('a sensor that changed has a new object', objs['a'] is not old['a'])
        else:
            objs.pop('a')
    for k in range(cx.pick('messages', [1, 2])):
        names = [cx.pick('sensor', ['a', 'b', 'gone']) for i in range(cx.pick('sensors', [0, 1, 2] if k == 0 else [1]))]
        ts = cx.bytes('timestamp%d' % k)
        items = [(n, cx.bytes('status%d%d' % (k, i)), cx.bytes('value%d%d' % (k, i))) for i, n in enumerate(names)]
        mark = len(heard)
        m = w.msg('inform', word, ts, len(items), *[x for it in items for x in it])
        st, r = attempt(ip, ip.getattr(w.cli, 'inform'), word, m)
        cx.prove('readings never make the client fail', st == 'ok', info=ename(r))
        w.drain()
        got = heard[mark:]
        for n in ('a', 'b'):
            mine = [g for g in got if ip.getattr(g[0], 'name') == n]
            want = [it for it in items if it[0] == n]
            cx.prove('every reading reaches its sensor once', len(mine) == len(want), info=(names, n, len(mine)))
            if want and n not in objs:
                get(n)
            for g, it in zip(mine, want):
                cx.prove('a reading goes to the object that is handed out', g[0] is objs[n])
                cx.prove('readings reach a sensor in order and as received', z3.And(t(g[1]) == ts.t, t(g[2]) == it[1].t, t(g[3]) == it[2].t))
                cx.prove('a reading is read by the protocol of the connection', g[4] == 5)
        cx.prove('no reading reaches another sensor', all(ip.getattr(g[0], 'name') in ('a', 'b') for g in got) and len(got) == len([n for n in names if n != 'gone']))
    cx.cover('done')


KIDS = [('one', 'two-b'), ('c.d', 'c'), ('b', 'two-b')]
CONTRACTS = {
    'rules': (rules, {'expect': ['done'], 'split': [(b, x) for b in (False, True) for x in ('same', 'new', 'gone')]}),
    'spelling': (spelling, {'expect': ['done'], 'bounded': 'a sample of names and strategies'}),
    'sampling': (sampling, {'bounded': B23, 'split': [(f, e, x) for f in ['known', 'known unset', 'unknown', 'before connecting'] for e in ['reconnected', 'new description', 'goes', 'appears']
                                                      for x in ['never', 'on the way', 'after'] + (['while away'] if e == 'reconnected' else []) if (e == 'appears') <= (f == 'unknown')]}),
    'readings': (readings, {'bounded': 'up to three listeners; two readings of any value', 'split': [(e, b) for e in ('early', 'late', 'direct') for b in ('none', '1', '2')]}),
    'wire': (wire, {'bounded': 'two sensors, two messages with up to two readings each', 'split': [('sensor-status', 'seen'), ('sensor-status', 'unseen'), ('sensor-status', 'renewed'), ('sensor-value', 'seen')]}),
    'container': (container, {'bounded': 'two children with up to three sensors and two requests', 'split': [(n, e) for n in KIDS for e in ('added', 'removed', 'renewed', 'strategy', 'listener', 'filter', 'another child')]}),
}
