"""C16: contracts on the inspecting client: what a synchronisation makes of a server's answers, of failures part way, and what is told."""
from .common import *          # noqa

MODULES = ['core', 'kattypes', 'client', 'inspecting_client']
UNDER_CONTRACT = ['inspecting_client.InspectingClientAsync.__init__/connect/_state_loop/_send_state/inspect/inspect_requests/inspect_sensors/_get_request_timeout_hints',
                  '..._update_index/_difference/_unreported', '...future_check_sensor/future_get_sensor/future_check_request/future_get_request/sensors/requests/synced/until_data_synced',
                  '..._cb_connection_state/_cb_inform_interface_change', 'inspecting_client.ExponentialRandomBackoff']
ASSUMPTIONS = ['the wire client answers every request once, with the informs and the reply the server sent, or a failure (C13)',
               'what a type name and its parameters mean, and text as UTF-8, are taken as given (C04, C01)',
               'random() is within [0, 1); futures and timers as in tornado 4.5 (C20)',
               'two names of each kind stand for all: the code treats every name alike (checked with any number by the executable contract)']

SRC = '''
class Log(object):
    def isEnabledFor(self, level):
        return False
    def debug(self, *a, **k):
        pass
    info = warn = warning = error = exception = critical = log = debug
class Flags(object):
    def __init__(self, hints):
        self.request_timeout_hints = hints
        self.major = 5
class Client(object):
    """the wire client as the inspecting client sees it"""
    bind_address_string = 'h:1'
    bind_address = ('h', 1)
    notify_connected = None
    def __init__(self, loop, future, event, answer, hints):
        self.loop, self.future, self.answer = loop, future, answer
        self.protocol_flags = Flags(hints)
        self.hooks = []
        self.up = event()
    def hook_inform(self, name, callback):
        self.hooks.append((name, callback))
    def set_ioloop(self, ioloop):
        pass
    def start(self, timeout=None):
        pass
    def stop(self, timeout=None):
        pass
    def disconnect(self):
        self.answer('disconnect', [])
    def is_connected(self):
        return self.up.is_set()
    def until_running(self, timeout=None):
        f = self.future()
        f.set_result(None)
        return f
    def until_connected(self, timeout=None):
        return self.up.until_set()
    def until_protocol(self, timeout=None):
        return self.up.until_set()
    def future_request(self, msg, timeout=None, use_mid=None):
        return self.answer(msg.name, msg.arguments)
    def inform(self, name, msg):
        for n, callback in self.hooks:
            if n == name:
                callback(msg)
    def link(self, up):
        if up:
            self.up.set()
        else:
            self.up.clear()
        self.notify_connected(up)
class Made(object):
    def __init__(self, **kw):
        self.made = kw
'''
S, R = 'sensors', 'requests'


class Sync(object):
    """the real inspecting client on a ghost wire client; the ghost server's tables are name -> data"""

    def __init__(self, cx, hints=None):
        self.cx, ip = cx, cx.interp
        self.ip = ip
        cx.ghost['coroutines'] = True
        cx.ghost['thread_ident'] = 1
        self.loop = cx.ghost['ioloop'] = L.NIOLoop()
        self.loop.now = cx.real('now')
        self.n = 0
        self.hints = (cx.pick('timeout hints', [True, False])) if hints is None else hints
        cx.stubs['katcp.core:Message.__repr__'] = cx.stubs['katcp.core:Message.__str__'] = lambda ip2, a, k: 'message'
        cx.stubs['katcp.compat:ensure_native_str'] = lambda ip2, a, k: a[0].decode() if isinstance(a[0], bytes) else SStr(a[0].t) if isinstance(a[0], SBytes) else a[0]
        ns = ip.load('katcp.inspecting_client').ns
        if 'native_str_to_bytes' in ns:
            ns['native_str_to_bytes'] = Native(lambda ip2, a, k: a[0].encode() if isinstance(a[0], str) else SBytes(a[0].t) if isinstance(a[0], SStr) else a[0], 'native_str_to_bytes')
        cx.stubs['katcp.core:Sensor.parse_type'] = lambda ip2, a, k: ('type', a[-1] if a else k['type_string'])
        cx.stubs['katcp.core:Sensor.parse_params'] = self.parse_params
        self.ns = run_src(ip, SRC)
        self.M = ip.get('katcp.core:Message')
        self.cli = ip.call(self.ns['Client'], [self.loop, Native(lambda ip2, a, k: IFuture(), 'Future'), ip.get('katcp.core:AsyncEvent'), ip.lib.N(self.answer, 'answer'), self.hints])
        cx.stubs['katcp.inspecting_client:InspectingClientAsync.inform_hook_client_factory'] = lambda ip2, a, k: self.cli
        self.server = {S: {}, R: {}}
        self.told = {S: {}, R: {}}
        self.synced_with = None        # what the server had when each full inspection was answered
        self.seen = {}
        self.fault = self.vary = self.base = None
        self.hold = False
        self.held = []
        self.ncb = 0
        self.cb_result = None
        self.cb_bad = []
        self.notified = 0
        self.asked = []
        self.failed = False
        self.c = ip.call(ip.get('katcp.inspecting_client:InspectingClientAsync'), ['h', 1], {'ioloop': self.loop, 'logger': ip.call(self.ns['Log'], [])})
        for a in ('sensor_factory', 'request_factory'):
            ip.setattr(self.c, a, self.ns['Made'])
        ip.call(ip.getattr(self.c, 'set_state_callback'), [ip.lib.N(self.state, 'state')])

    def parse_params(self, ip, a, k):
        a = [x for x in a if not isinstance(x, (I.IClass, IObj))]
        return ('params', a[0], list(a[1]))

    # -- the server

    def data(self, kind, label, symbolic=True):
        cx = self.cx
        self.n += 1
        i = '%s%d' % (label, self.n)
        if self.vary is not None and symbolic:
            d = self.data(kind, 'same', False) if self.base is None else dict(self.base)
            self.base = dict(d)
            if self.vary == 'params':
                d['params'] = [cx.bytes('param%s_%d' % (i, j)) for j in range(cx.pick('params', [1, 2]))]
            elif self.vary == 'timeout_hint':
                d['timeout_hint'] = cx.pick('hint', [None, 2.5, 7.0])
            else:
                d[self.vary] = cx.bytes(self.vary + i)
            return d
        text = (lambda x: cx.bytes(x + i)) if symbolic else (lambda x: (x + i).encode())
        if kind == R:
            return {'description': text('description'), 'timeout_hint': cx.pick('hint', [None, 2.5, 7.0]) if self.hints and symbolic else None}
        return {'description': text('description'), 'units': text('units'), 'sensor_type': text('type'),
                'params': [cx.bytes('param' + i)] if symbolic and cx.pick('params', [0, 1]) else []}

    def msg(self, kind, name, *args):
        return self.ip.call(self.ip.getattr(self.M, kind), [name] + list(args))

    def answer(self, name, args):
        if name == 'disconnect':
            self.link(False)
            return None
        f = IFuture()
        which = args[0] if args else None
        if which is not None:
            which = which.decode() if isinstance(which, bytes) else which
        self.asked.append((name, which))
        fault = None
        if self.fault is not None and self.fault[0] == name and which is None:
            fault, self.fault = self.fault, None
            self.failed = True
        if self.hold and which is None:
            self.held.append((f, name, which, fault))
            return f
        self.reply(f, name, which, fault)
        return f

    def reply(self, f, name, which, fault):
        if name == 'help':
            informs = [[n, d['description']] for n, d in self.server[R].items() if which in (None, n)]
            if which is None:
                self.seen[R] = dict(self.server[R])
        elif name == 'sensor-list':
            informs = [[n, d['description'], d['units'], d['sensor_type']] + d['params'] for n, d in self.server[S].items() if which in (None, n)]
            if which is None:
                self.seen[S] = dict(self.server[S])
        elif name == 'request-timeout-hint':
            informs = [[n, str(d['timeout_hint'] or 0.0)] for n, d in self.server[R].items() if n == which or which is None and d['timeout_hint']]
            if which is None:      # (the requests may have changed since they were listed)
                self.seen[R] = {n: d if self.server[R].get(n) is d else dict(d, timeout_hint=self.server[R].get(n, {}).get('timeout_hint')) for n, d in self.seen[R].items()}
        else:
            informs = []
        if fault is not None:
            n = self.cx.pick('informs', range(len(informs) + 1)) if informs and fault[1] == 'malformed' else len(informs)
            informs = informs[:n]
            if fault[1] == 'malformed':
                informs = informs + [['r', b'soon'] if name == 'request-timeout-hint' else []]
        bad = fault is not None and fault[1] == 'fail' or which is not None and not informs
        r = self.msg('reply', name, *(['fail', 'Broken' if which is None else 'Unknown sensor name' if name == 'sensor-list' else 'Unknown request method'] if bad else ['ok', len(informs)]))
        f.state, f.value = 'result', (r, [self.msg('inform', name, *a) for a in informs])

    def reply_now(self, f, name, which, fault):
        """a held request is answered"""
        g = IFuture()
        self.reply(g, name, which, fault)
        self.resolve(f, g.value)

    def resolve(self, f, v=None):
        self.ip.call(self.ip.getattr(f, 'set_result'), [v])
        self.drain()

    # -- the client

    def state(self, st, changes):
        ip, cx = self.ip, self.cx
        g = lambda n: ip.getattr(st, n)       # noqa
        self.now_state = tuple(bool(g(n)) for n in ('connected', 'synced', 'model_changed', 'data_synced'))
        if g('data_synced') and not g('synced'):
            self.notified += 1
            self.diff(changes)
            self.told = {k: dict(v) for k, v in self.seen.items()}
            self.model()
        else:
            cx.prove('changes are told with the model they belong to', changes is None, info=self.now_state)
        r, self.cb_result = self.cb_result, None
        if r == 'raises':
            raise PyExc(ValueError('user'))
        return r

    def same(self, kind, a, b):
        e = []
        for k in a:
            if k == 'params':
                e.append(z3.BoolVal(len(a[k]) == len(b[k])))
                e += [t(x) == t(y) for x, y in zip(a[k], b[k])]
            elif k == 'timeout_hint':
                e.append(z3.BoolVal(a[k] == b[k]))
            else:
                e.append(t(a[k]) == t(b[k]))
        return self.cx.branch(SBool(z3.And(e)))

    def diff(self, changes):
        ip, cx = self.ip, self.cx
        some = False
        for k in (R, S):
            old, new = self.told[k], self.seen[k]
            moved = {n for n in new if n in old and new[n] is not old[n] and not self.same(k, old[n], new[n])}
            added, removed = set(new) - set(old) | moved, set(old) - set(new) | moved
            got = (set(), set())
            if changes is not None and ip.truth(ip.contains(changes, k)):
                ch = ip.getitem(changes, k)
                got = tuple(set(ip.items_of(ip.getattr(ch, x))) for x in ('added', 'removed'))
            some = some or bool(added or removed)
            cx.prove('the notification names exactly what was added, removed or changed', got == (added, removed), info=(k, got, (added, removed)))
        cx.prove('a change is flagged', self.now_state[2] == some, info=(self.now_state, some))

    def model(self):
        ip, cx = self.ip, self.cx
        for k in (R, S):
            got = list(ip.items_of(ip.getattr(self.c, k)))
            cx.prove('the model has exactly what the server reported', sorted(got) == sorted(self.told[k]), info=(k, got, sorted(self.told[k])))

    def connect(self):
        f = self.ip.call(self.ip.getattr(self.c, 'connect'), [])
        self.drain()
        self.link(True)
        self.drain()

    def link(self, up):
        self.ip.call(self.ip.getattr(self.cli, 'link'), [up])

    def changed(self):
        self.inform('interface-changed')
        self.drain()

    def inform(self, name):
        self.ip.call(self.ip.getattr(self.cli, 'inform'), [name, self.msg('inform', name)])

    def drain(self):
        self.loop.drain(self.ip, 300)

    def synced(self):
        return self.ip.truth(self.ip.getattr(self.c, 'synced'))

    def until_synced(self):
        """time passes; what is due happens"""
        for _ in range(4):
            self.drain()
            if self.synced():
                break
            if not self.ip.truth(self.ip.call(self.ip.getattr(self.cli, 'is_connected'), [])):
                self.link(True)
                self.drain()
            self.fire()
        self.cx.prove('a failed synchronisation is retried', self.synced(), info=(self.now_state, self.asked[-6:]))

    def fire(self):
        act = self.loop.active()
        if not act:
            return
        h = act[0]
        for g in act[1:]:
            self.cx.assume(t(g.when) >= t(h.when), False)
        self.n += 1
        new = self.cx.real('time%d' % self.n)
        self.cx.assume(z3.And(new.t >= t(h.when), new.t >= t(self.loop.now)))
        self.loop.now = new
        self.loop.fire(self.ip, h)
        self.drain()

    def get(self, kind, name):
        st, f = attempt(self.ip, self.ip.getattr(self.c, 'future_get_sensor' if kind == S else 'future_get_request'), name)
        self.drain()
        self.cx.prove('a lookup ends', st == 'ok' and f.state == 'result', info=(kind, name, st, ename(f.value) if st == 'ok' and f.state == 'exc' else f))
        return f.value

    def reflects(self, kind, name, obj, data, why=''):
        ip, cx = self.ip, self.cx
        cx.prove('something is handed out', obj is not None, info=(kind, name, why))
        kw = obj.attrs['made']
        kw = {k: v for k, v in kw.items}
        want = dict(name=name, description=SStr(data['description'].t) if isinstance(data['description'], SBytes) else data['description'].decode())
        tx = lambda x: SStr(x.t) if isinstance(x, SBytes) else x.decode()     # noqa
        if kind == R:
            want['timeout_hint'] = data['timeout_hint']
        else:
            want.update(units=tx(data['units']), sensor_type=('type', tx(data['sensor_type'])))
            want['params'] = ('params', want['sensor_type'], list(data['params']))
        cx.prove('it is made from what describes it', set(kw) == set(want), info=(kind, name, sorted(kw)))
        for k in want:
            e = ip.eq(kw[k], want[k])
            cx.prove('what is handed out reflects the current description', e if isinstance(e, bool) else e.t if hasattr(e, 't') else e, info=(kind, name, k, why))


def populate(w, kind, names, label):
    w.server[kind] = {n: w.data(kind, label) for n in names}


def faults(w):
    return [(n, f) for n in ['help', 'sensor-list'] + (['request-timeout-hint'] if w.hints else []) for f in ('fail', 'malformed')]


def check(cx, w, why):
    """the client is synchronised: nothing went unreported, and what is handed out is current"""
    cx.prove('no change goes unreported', all(w.told[k].get(n) is d for k in (R, S) for n, d in w.server[k].items()) and
             all(set(w.told[k]) == set(w.server[k]) for k in (R, S)), info=(why, {k: sorted(v) for k, v in w.told.items()}, {k: sorted(v) for k, v in w.server.items()}))
    w.model()


def failed(cx, w, notified):
    cx.prove('nothing is told of a synchronisation that failed', w.notified == notified)
    cx.prove('a client whose synchronisation failed is not synchronised', not w.synced())
    w.model()


def first(cx, kind):
    w = Sync(cx)
    other = R if kind == S else S
    populate(w, kind, cx.pick('names', [[], ['a'], ['a', 'b']]), 'v')
    w.server[other] = {'c': w.data(other, 'c', False)}
    w.fault = cx.pick('fault', [None] + faults(w))
    w.connect()
    if w.failed:
        failed(cx, w, 0)
    w.until_synced()
    cx.prove('told once', w.notified == 1, info=w.notified)
    check(cx, w, 'first')
    for n, d in w.server[kind].items():
        o = w.get(kind, n)
        w.reflects(kind, n, o, d, 'first')
        cx.prove('the same object is handed out while nothing changes', w.get(kind, n) is o)
    cx.cover('done')


def change(cx, part):
    """one change, synchronised with or without a failure before, and perhaps one more change before the retry"""
    kind, had, fail = part
    w = Sync(cx, hints=True if fail and fail[0] == 'request-timeout-hint' else None)
    other = R if kind == S else S
    if fail:
        w.vary = cx.pick('varies', ['description', 'units', 'sensor_type', 'params'] if kind == S else ['description'] + (['timeout_hint'] if w.hints else []))
    a0 = w.data(kind, 'old')
    b = w.data(kind, 'b', False)
    c = w.data(other, 'c', False)
    w.server[kind] = {'b': b}
    alone = had and not fail and cx.pick('alone', [False, True])
    if alone:
        w.server[kind] = {}
    if had:
        w.server[kind]['a'] = a0
    w.server[other] = {'c': c}
    w.connect()
    cx.assume(w.synced())
    old = w.get(kind, 'a') if had and (fail or cx.pick('object', ['none', 'handed out'])) else None
    keep = w.get(kind, 'b') if not alone else None
    w.get(other, 'c')
    new = dict(w.server[kind])
    new.pop('a', None)
    to = cx.pick('to', (['present', 'same'] if fail and w.vary != 'description' else ['present', 'absent', 'same']) if had else ['present'])
    if to != 'absent':
        new['a'] = w.data(kind, 'new') if to == 'present' else a0
    w.server[kind] = new
    if (not fail or w.vary == 'description') and cx.pick('other kind', ['same', 'another']):
        w.server[other] = {'c': c, 'd': w.data(other, 'd', False)}
    w.failed = False
    n = w.notified
    if fail:
        w.fault = fail
    w.changed()
    if fail:
        failed(cx, w, n)
        again = cx.pick('before the retry', ['nothing', 'back', 'another', 'gone'])
        if again == 'back':
            w.server[kind] = dict(w.server[kind], a=a0)
        elif again == 'another':
            w.server[kind] = dict(w.server[kind], a=w.data(kind, 'newer'))
        elif again == 'gone':
            w.server[kind] = {'b': b}
    w.until_synced()
    cx.prove('told once', w.notified == n + 1, info=w.notified)
    check(cx, w, 'change')
    for k, n, o in [(kind, 'a', old), (kind, 'b', keep)]:
        d = w.server[k].get(n)
        if d is not None:
            x = w.get(k, n)
            w.reflects(k, n, x, d, 'after')
            if n == 'b':
                cx.prove('the same object is handed out while nothing changes', x is o)
    cx.cover('done')


def lookups(cx, part):
    """something is looked up that is not in the model yet, then synchronised"""
    kind = part
    w = Sync(cx)
    other = R if kind == S else S
    b = w.data(kind, 'b', False)
    w.server[kind] = {'b': b}
    w.server[other] = {'c': w.data(other, 'c', False)}
    w.connect()
    cx.assume(w.synced())
    there = cx.pick('there', [True, False])
    w.vary = cx.pick('varies', ['description', 'params'] if kind == S else ['description', 'timeout_hint'] if w.hints else ['description'])
    a = w.data(kind, 'a')
    if there:
        w.server[kind] = {'b': b, 'a': a}
    o = w.get(kind, 'a')
    cx.prove('a lookup finds what the server has', (o is not None) == there)
    if there:
        w.reflects(kind, 'a', o, a, 'looked up')
    cx.prove('a lookup is of no consequence to what was synchronised', w.get(kind, 'b') is not None and w.synced())
    then = cx.pick('then', ['nothing', 'changed', 'removed', 'appears'])
    a2 = a
    if then == 'changed':
        a2 = w.data(kind, 'newer')
    w.server[kind] = {'b': b} if then == 'removed' or then == 'nothing' and not there else {'b': b, 'a': a2}
    n = w.notified
    if cx.pick('fails', [False, True]):
        w.fault = ('help' if kind == R else 'sensor-list', 'malformed')
    w.changed()
    w.until_synced()
    cx.prove('told once', w.notified == n + 1, info=w.notified)
    check(cx, w, 'looked up')
    if 'a' in w.server[kind]:
        w.reflects(kind, 'a', w.get(kind, 'a'), w.server[kind]['a'], 'synchronised')
    cx.cover('done')


def meanwhile(cx, part):
    """what happens while a synchronisation is under way, or while its user still deals with it, is synchronised as well"""
    when, what = part
    w = Sync(cx, hints=True)
    w.server = {S: {'a': w.data(S, 'a', False)}, R: {'c': w.data(R, 'c', False)}}
    do = []
    futures = []

    def act():
        if not do:
            return
        do.pop()
        cx.cover('acted')
        if what in ('changes', 'both', 'twice'):
            for i in range(1 + (what == 'twice')):
                w.server = {S: dict(w.server[S], **{'n%d' % i: w.data(S, 'n', False)}), R: {'d': w.data(R, 'd', False)} if not i else w.server[R]}
                w.inform(cx.pick('inform', ['interface-changed', 'device-changed']))
        if what in ('link lost', 'both'):
            w.link(False)
            held, w.held = w.held, []
            for f, name, which, fault in held:
                w.resolve(f, (w.msg('reply', name, 'fail', 'lost'), []))
            if what == 'link lost':
                w.server = {S: {'z': w.data(S, 'z', False)}, R: w.server[R]}
        if what == 'lookup':
            for k, n in [(S, 'a'), (S, 'b'), (R, 'c'), (R, 'x')]:
                futures.append((k, n, attempt(w.ip, w.ip.getattr(w.c, 'future_get_sensor' if k == S else 'future_get_request'), n)))
        if what == 'user fails':
            w.cb_result = 'raises'
    first = cx.pick('synchronisation', ['first', 'second'])
    if first == 'second':
        w.connect()
        cx.assume(w.synced())
        w.server = {S: {'b': w.data(S, 'b', False)}, R: w.server[R]}
    do.append(1)
    if when == 'inspecting':
        w.hold = True
    elif when != 'synced':
        inner = w.state

        def state(st, changes):
            g = (bool(w.ip.getattr(st, 'data_synced')), bool(w.ip.getattr(st, 'synced')))
            late = None
            if do and (when == 'told' and g == (True, False) or when == 'told synced' and g == (True, True) or when == 'user busy' and g == (True, False)):
                if when == 'user busy':
                    late = w.cb_result = IFuture()
                    w.late = late
                else:
                    act()
            return inner(st, changes)
        w.ip.call(w.ip.getattr(w.c, 'set_state_callback'), [w.ip.lib.N(state, 'state')])
    if first == 'second':
        w.changed()
    else:
        w.connect()
    if when == 'inspecting':
        k = cx.pick('requests answered', [0, 1, 2])
        for i in range(k):
            f, name, which, fault = w.held.pop(0)
            w.reply_now(f, name, which, fault)
            w.drain()
        cx.assume(bool(w.held))
        act()
        w.drain()
        w.hold = False
        while w.held:
            f, name, which, fault = w.held.pop(0)
            w.reply_now(f, name, which, fault)
            w.drain()
    elif when == 'user busy':
        cx.prove('a client is not synchronised before its user is done', not w.synced() and w.late.state == 'pending')
        act()
        w.drain()
        cx.prove('a client is not synchronised before its user is done', not w.synced())
        w.resolve(w.late)
    elif when == 'synced':
        w.until_synced()
        act()
    w.until_synced()
    for _ in range(3):      # (a further synchronisation may be under way)
        w.drain()
        w.until_synced()
    cx.assume(not do)
    check(cx, w, part)
    for k, n, (st, f) in futures:
        cx.prove('a lookup ends', st == 'ok' and f.state == 'result', info=(part, k, n))
        d = w.server[k].get(n)
        cx.prove('a lookup finds what the server has', (f.value is not None) == (d is not None), info=(part, k, n))
        if d is not None:
            w.reflects(k, n, f.value, d, part)
    cx.cover('done')


B = 'two names of the kind in question and two of the other, any descriptions; one failed synchronisation before one that succeeds'
WHEN = ['inspecting', 'told', 'told synced', 'user busy', 'synced']
CONTRACTS = {
    'first': (first, {'bounded': B, 'split': [S, R]}),
    'change': (change, {'bounded': B, 'split': [(k, h, f) for k in (S, R) for h in (False, True) for f in [None] + [(n, x) for n in ['help', 'sensor-list', 'request-timeout-hint'] for x in ('fail', 'malformed')]]}),
    'lookups': (lookups, {'bounded': B, 'split': [S, R]}),
    'meanwhile': (meanwhile, {'bounded': B, 'split': [(w, x) for w in WHEN for x in ['changes', 'link lost', 'both', 'twice', 'lookup'] + (['user fails'] if w in ('told', 'told synced') else [])]}),
}
