"""C06: contracts on the dispatch of requests: exactly one reply, with the request's name and id, whatever the handler does."""
from .srv import *          # noqa
from .msglib import sub_table

MODULES = ['core', 'kattypes', 'server']
UNDER_CONTRACT = ['server.DeviceServerBase.' + f for f in ('handle_message', 'handle_request', 'handle_inform', 'handle_reply',
                                                           'create_exception_reply_and_log', 'reply', 'inform', 'reply_inform')] + \
    ['server.return_future', 'server.ClientConnection.reply', 'server.ThreadsafeClientConnection', 'server.MessageHandlerThread.on_message',
     'server.MessageHandlerThread.run', 'core.encode_utf8_with_error_log', 'server.ClientRequestConnection.__init__', 'core.Message.reply']
ASSUMPTIONS = ['assertions are enabled', 'a message a handler returns is as it was constructed',
               'a handler that takes responsibility for replying (AsyncReply) does reply, once',
               'tornado futures call their callbacks once, when they are resolved',
               'exceptions are Exceptions, and converting one to text does not itself fail']
H = '''
def request_do_it(self, req, msg):
    """doc"""
    calls.append((self, req, msg))
    return outcome()
def inform_note(self, conn, msg):
    """doc"""
    calls.append((self, conn, msg))
    return outcome()
def future_result():
    return outcome()
'''
OUT = ['reply', 'reply+mid', 'fail', 'exc', 'exc-katcp', 'async', 'none', 'text', 'tuple', 'inform', 'request', 'other-name', 'bytes']


def outcome(rig, kind, name='do-it'):
    """What a handler does: returns a host value or raises PyExc."""
    ip, cx = rig.ip, rig.cx
    if kind in ('reply', 'reply+mid'):
        kw = {} if kind == 'reply' else {'mid': b'999'}
        return rig.msg('reply', name, b'ok', rig.body, **kw)
    if kind == 'fail':
        return raise_(ip, ip.call(ip.get('katcp.core:FailReply'), [rig.text]))
    if kind == 'async':
        return raise_(ip, ip.call(ip.get('katcp.core:AsyncReply'), []))
    if kind == 'exc':
        raise PyExc(ValueError('boom'))
    if kind == 'exc-katcp':
        return raise_(ip, ip.call(ip.get('katcp.core:KatcpSyntaxError'), ['boom']))
    if kind == 'none':
        return None
    if kind == 'text':
        return 'ok'
    if kind == 'bytes':
        return b'ok'
    if kind == 'tuple':
        return ('ok', 1)
    if kind == 'inform':
        return rig.msg('inform', name, b'ok')
    if kind == 'request':
        return rig.msg('request', name, b'ok')
    if kind == 'other-name':
        return rig.msg('reply', 'other', b'ok')
    raise AssertionError(kind)


def raise_(ip, e):
    raise PyExc(e)


def setup(cx):
    rig = Rig(cx)
    rig.body = cx.bytes('body')
    rig.text = cx.str('reason')
    return rig


def check_one(cx, rig, stream, name, mid, status, body=None):
    sent = rig.net.attrs['sent']
    cx.prove('exactly one message is sent', len(sent) == 1, info=(len(sent), status))
    if len(sent) != 1:
        raise PathEnd('reported')
    s, mt, n, m, args, _ = sent[0]
    cx.prove('to the client that made the request', s == stream)
    cx.prove('it is a reply', mt == rig.REPLY)
    cx.prove("with the request's name", (n == name) if isinstance(n, str) and isinstance(name, str) else t(n) == t(name))
    cx.prove("with the request's id", same_id(m, mid))
    cx.prove('with the status of the outcome', len(args) >= 1 and args[0] == status, info=(args, status))
    if body is not None:
        cx.prove("with the handler's own arguments", len(args) == 2 and args[1] is body, info=args)


STATUS = {'reply': b'ok', 'reply+mid': b'ok'}


def dispatch(cx, rig, msg, conn, via):
    ip = rig.ip
    f = ip.getattr(rig.dev, via)
    if via == 'handle_message' and cx.pick('through', ['directly', 'return_future']) == 'return_future':
        f = ip.call(ip.get('katcp.server:return_future'), [f])
    return attempt(ip, f, conn, msg)


def c_sync(cx):
    rig = setup(cx)
    ip = rig.ip
    kind = cx.pick('outcome', OUT)
    calls = []
    ns = run_src(ip, H, calls=calls, outcome=ip.lib.N(lambda: outcome(rig, kind), 'outcome'))
    other = ip.call(run_src(ip, 'def f(a, b):\n    return {"do-it": a, "do-it-not": b}\n')['f'], [ns['request_do_it'], None])
    rig.dev.attrs['_request_handlers'] = other
    conn = rig.conn('S1')
    msg, mid = rig.request()
    st, x = dispatch(cx, rig, msg, conn, cx.pick('via', ['handle_message', 'handle_request']))
    cx.prove('dispatching never raises', st == 'ok', info=ename(x))
    cx.prove('the handler of that name runs once, with the request', len(calls) == 1 and calls[0][0] is rig.dev and calls[0][2] is msg)
    rc = calls[0][1]
    cx.prove('through a request handle for this request', rc.attrs.get('msg') is msg and rc.attrs.get('client_connection') is conn)
    rig.loop.drain(ip)
    if kind == 'async':
        cx.prove('nothing is sent for a handler that replies later', rig.net.attrs['sent'] == [])
        st, x = attempt(ip, ip.getattr(rc, 'reply'), b'ok', rig.body)
        cx.prove('it can then reply', st == 'ok')
        check_one(cx, rig, 'S1', 'do-it', mid, b'ok', rig.body)
    else:
        check_one(cx, rig, 'S1', 'do-it', mid, STATUS.get(kind, b'fail'), rig.body if kind in STATUS else None)


def c_future(cx):
    """A pending result that later succeeds or fails, in any order with the loop, concurrent or not."""
    rig = setup(cx)
    ip = rig.ip
    kind = cx.pick('outcome', OUT)
    when = cx.pick('resolves', ['before', 'before the callback', 'after the callback'])
    conc = cx.pick('concurrent', ['unset', True, False])
    calls = []
    fut = IFuture()

    def resolve():
        try:
            v = outcome(rig, kind)
            fut.m_set_result(ip, v)
        except PyExc as e:
            fut.m_set_exception(ip, e.value)
    if when == 'before':
        resolve()
    ns = run_src(ip, H, calls=calls, outcome=ip.lib.N(lambda: fut, 'outcome'))
    h = ns['request_do_it']
    if conc is True:
        h = ip.call(ip.get('katcp.kattypes:concurrent_reply'), [h])
    elif conc is False:
        h.attrs['_concurrent_reply'] = False
    rig.dev.attrs['_request_handlers'] = ip.call(run_src(ip, 'def f(a):\n    return {"do-it": a}\n')['f'], [h])
    conn = rig.conn('S1')
    msg, mid = rig.request()
    st, done = dispatch(cx, rig, msg, conn, 'handle_request')
    cx.prove('dispatching never raises', st == 'ok', info=ename(done))
    cx.prove('the handler runs once', len(calls) == 1)
    if when == 'before the callback':
        resolve()
        rig.loop.drain(ip)
    elif when == 'after the callback':
        rig.loop.drain(ip)
        cx.prove('no reply before there is a result', rig.net.attrs['sent'] == [])
        resolve()
    rig.loop.drain(ip)
    if conc is True:
        cx.prove('a concurrent request does not hold up the connection', done is None or not isinstance(done, IFuture) or done.state != 'pending')
    else:
        cx.prove('the connection waits for the request', isinstance(done, IFuture))
        cx.prove('until it is done', done.state == 'result' and done.sets == 1, info=done.state)
    rc = calls[0][1]
    if kind == 'async':
        cx.prove('nothing is sent for a handler that replies later', rig.net.attrs['sent'] == [])
        st, x = attempt(ip, ip.getattr(rc, 'reply'), b'ok', rig.body)
        cx.prove('it can then reply', st == 'ok')
        check_one(cx, rig, 'S1', 'do-it', mid, b'ok', rig.body)
    else:
        check_one(cx, rig, 'S1', 'do-it', mid, STATUS.get(kind, b'fail'), rig.body if kind in STATUS else None)


def c_unknown(cx):
    """Requests of any other name get 'invalid'; informs and replies never get anything."""
    rig = setup(cx)
    ip = rig.ip
    calls = []
    kind = cx.pick('outcome', ['reply', 'exc', 'fail', 'none', 'async'])
    ns = run_src(ip, H, calls=calls, outcome=ip.lib.N(lambda: outcome(rig, kind), 'outcome'))
    tab = lambda **k: ip.call(run_src(ip, 'def f(a):\n    return {"do-it": a}\n')['f'], [ns['request_do_it']])
    for a in ('_request_handlers', '_inform_handlers', '_reply_handlers'):
        rig.dev.attrs[a] = tab()
    conn = rig.conn('S1')
    what = cx.pick('type', ['request', 'inform', 'reply'])
    name = cx.str('name')
    cx.assume(z3.InRe(name.t, z3.Concat(R('alpha'), z3.Star(z3.Union(R('alnum'), z3.Re(zs('-')))))))
    known = name.t == zs('do-it')
    if what == 'request':
        cx.assume(z3.Not(known))
        msg, mid = rig.request(name)
    else:
        mid = cx.pick('id', [None, b'7'])
        msg = ip.call(rig.M, [rig.INFORM if what == 'inform' else rig.REPLY, name, [cx.bytes('a0')], mid])
    st, x = dispatch(cx, rig, msg, conn, 'handle_message')
    cx.prove('dispatching never raises', st == 'ok', info=ename(x))
    rig.loop.drain(ip)
    if what == 'request':
        cx.prove('no handler runs', calls == [])
        check_one(cx, rig, 'S1', name, mid, b'invalid')
    else:
        cx.prove('nothing is sent for an inform or reply', rig.net.attrs['sent'] == [] and rig.net.attrs['mass'] == [])


def c_deprecated(cx):
    """DeviceServerBase.reply (with a connection or a request handle) sends one reply with the id of the request."""
    rig = setup(cx)
    ip = rig.ip
    conn = rig.conn('S1')
    msg, mid = rig.request()
    target = conn if cx.pick('through', ['connection', 'handle']) == 'connection' else \
        ip.call(ip.get('katcp.server:ClientRequestConnection'), [conn, msg])
    how = cx.pick('what', ['reply', 'reply_inform', 'inform'])
    own = {} if how == 'inform' or cx.pick('id in the message', ['none', 'another']) == 'none' else {'mid': b'31415'}
    if how == 'reply':
        st, x = attempt(ip, ip.getattr(rig.dev, 'reply'), target, rig.msg('reply', 'do-it', b'ok', rig.body, **own), msg)
        cx.prove('sent', st == 'ok')
        check_one(cx, rig, 'S1', 'do-it', mid, b'ok', rig.body)
    else:
        m = rig.msg('inform', 'do-it', b'x', **own)
        args = [target, m] + ([msg] if how == 'reply_inform' else [])
        st, x = attempt(ip, ip.getattr(rig.dev, how), *args)
        sent = rig.net.attrs['sent']
        cx.prove('one inform to that client', st == 'ok' and len(sent) == 1 and sent[0][0] == 'S1' and sent[0][1] == rig.INFORM)
        if how == 'reply_inform':
            cx.prove("with the request's id", same_id(sent[0][3], mid))


def c_thread_queue(cx):
    """MessageHandlerThread.on_message: a message is queued once, or (queue full) refused with a reply to a request."""
    rig = setup(cx)
    ip = rig.ip
    T = ip.get('katcp.server:MessageHandlerThread')
    th = ip.call(T, [ip.getattr(rig.dev, 'handle_message'), ip.getattr(rig.dev, 'create_log_inform'), rig.dev.attrs['_logger']])
    need(th, '_msg_queue', '_wake')
    n = cx.pick('waiting', [0, 1, 299, 300, 301])
    q = th.attrs['_msg_queue']
    for i in range(n):
        ip.call(ip.getattr(q, 'append'), ['m%d' % i])
    conn = rig.conn('S1')
    is_req = cx.pick('type', ['request', 'inform']) == 'request'
    msg, mid = rig.request() if is_req else (rig.msg('inform', 'do-it'), None)
    st, x = attempt(ip, ip.getattr(th, 'on_message'), conn, msg)
    m = len(list(ip.items_of(q)))
    if st == 'ok':
        cx.prove('queued once, behind the others', m == n + 1 and list(ip.items_of(q))[:n] == ['m%d' % i for i in range(n)])
        e = list(ip.items_of(q))[-1]
        cx.prove('with its connection, message and a pending future', e[1] is conn and e[2] is msg and e[0] is x and x.state == 'pending')
        cx.prove('the thread is woken', ip.call(ip.getattr(th.attrs['_wake'], 'isSet'), []) is True)
        cx.prove('nothing is sent yet', rig.net.attrs['sent'] == [])
    else:
        cx.prove('nothing is queued', m == n)
        if is_req:
            check_one(cx, rig, 'S1', 'do-it', mid, b'fail')
        else:
            cx.prove('an inform gets nothing', rig.net.attrs['sent'] == [])


RUN = '''
class Running(object):
    """isSet() is true while messages remain: the loop is observed for one batch of messages."""
    def __init__(self, q):
        self.q = q
        self.sets = []
    def set(self):
        self.sets.append(True)
    def clear(self):
        self.sets.append(False)
    def isSet(self):
        return len(self.q) > 0
class IOL(object):
    def make_current(self):
        pass
    def add_callback(self, f, *a):
        callbacks.append((f, a))
def handler(conn, msg):
    handled.append((conn, msg))
    return result(len(handled))
def fmt(level, text, name):
    return inform(level, text, name)
'''


def c_thread_run(cx):
    """MessageHandlerThread.run: every queued message is handled once, in order, whatever the handler does, and its future resolved."""
    rig = setup(cx)
    ip = rig.ip
    n = cx.pick('queued', [1, 2, 3])
    rig.repr = cx.pick('repr', ['<Message>', '<Message \udce9>'])
    kinds = [cx.pick('handler %d' % i, ['none', 'future', 'raises']) for i in range(n)]
    handled, callbacks, futs = [], [], []

    def result(i):
        k = kinds[i - 1]
        if k == 'raises':
            raise PyExc(ValueError('boom'))
        if k == 'future':
            f = IFuture()
            futs.append(f)
            return f
        return None
    ns = run_src(ip, RUN, handled=handled, callbacks=callbacks, result=ip.lib.N(result, 'result'),
                 inform=ip.lib.N(lambda *a: rig.msg('inform', 'log', *a), 'inform'))
    bound = run_src(ip, 'class D(object):\n  def handler(self, conn, msg):\n    return h(conn, msg)\n', h=ns['handler'])
    hm = ip.getattr(ip.call(bound['D'], []), 'handler')
    th = ip.call(ip.get('katcp.server:MessageHandlerThread'), [hm, ns['fmt'], rig.dev.attrs['_logger']])
    need(th, '_msg_queue', '_running', 'ioloop')
    th.attrs['ioloop'] = ip.call(ns['IOL'], [])
    items = []
    for i in range(n):
        conn = rig.conn('S%d' % i)
        msg = rig.msg('request', 'do-it', b'%d' % i)
        f = ip.call(ip.getattr(th, 'on_message'), [conn, msg])
        items.append((f, conn, msg))
    th.attrs['_running'] = ip.call(ns['Running'], [th.attrs['_msg_queue']])
    st, x = attempt(ip, ip.getattr(th, 'run'))
    cx.prove('the thread survives', st == 'ok', info=ename(x))
    cx.prove('every message is handled once, in order', len(handled) == n and
             all(h[0] is it[1] and h[1] is it[2] for h, it in zip(handled, items)), info=len(handled))
    chained = {}
    for i in range(n):
        f = items[i][0]
        if kinds[i] == 'future':
            cx.prove('an unfinished request keeps its connection waiting', f.state == 'pending')
        else:
            cx.prove('a finished request lets its connection go on', f.state != 'pending' and f.sets == 1)
    for f, a in callbacks:
        ip.call(f, list(a))
    for k, f in enumerate(futs):
        f.m_set_result(ip, None)
    cx.prove('and is let go once it finishes', all(it[0].state != 'pending' and it[0].sets == 1 for it in items))
    cx.prove('no reply is made up by the thread', all(e[1] == rig.INFORM for e in rig.net.attrs['sent']))


RACE = '''
class Running(object):
    def __init__(self):
        self.on = True
    def set(self):
        pass
    def clear(self):
        self.on = False
    def isSet(self):
        point('running')
        return self.on
    is_set = isSet
class Wake(object):
    def __init__(self):
        self.on = False
    def set(self):
        self.on = True
    def clear(self):
        point('before clear')
        self.on = False
        point('after clear')
    def isSet(self):
        return self.on
    is_set = isSet
    def wait(self, timeout=None):
        point('wait')
        if self.on or timeout is not None:
            return self.on
        asleep()
        return True
class IOL(object):
    def make_current(self):
        pass
    def add_callback(self, f, *a):
        pass
class D(object):
    def handler(self, conn, msg):
        handled.append(msg)
        point('handler')
'''


def c_thread_race(cx):
    """MessageHandlerThread: a message queued by the ioloop thread at any moment of run() is handled, the thread never goes to sleep on it."""
    rig = setup(cx)
    ip = rig.ip
    handled, items = [], []
    POINTS = ['running', 'wait', 'before clear', 'after clear', 'handler']
    plan = [(cx.pick('first at', POINTS), cx.pick('which', [1, 2])), (cx.pick('second at', POINTS), 1)]
    state = {}

    def arrive():
        msg = rig.msg('request', 'do-it', b'%d' % len(items))
        items.append(msg)
        ip.call(ip.getattr(th, 'on_message'), [rig.conn('S1'), msg])

    def point(what):
        if plan and plan[0][0] == what:
            plan[0] = (what, plan[0][1] - 1)
            if plan[0][1] <= 0:
                plan.pop(0)
                arrive()

    def asleep():
        cx.prove('the thread never goes to sleep on a message', len(handled) == len(items) and not ip.items_of(q), info=plan)
        if plan:
            plan.pop(0)
            arrive()        # wakes it
        else:
            run.attrs['on'] = False
    ns = run_src(ip, RACE, handled=handled, point=ip.lib.N(point, 'point'), asleep=ip.lib.N(asleep, 'asleep'))
    th = ip.call(ip.get('katcp.server:MessageHandlerThread'), [ip.getattr(ip.call(ns['D'], []), 'handler'), ip.getattr(rig.dev, 'create_log_inform'), rig.dev.attrs['_logger']])
    need(th, '_msg_queue', '_running', '_wake', 'ioloop')
    q = th.attrs['_msg_queue']
    run = ip.call(ns['Running'], [])
    th.attrs.update(ioloop=ip.call(ns['IOL'], []), _running=run, _wake=ip.call(ns['Wake'], []))
    if cx.pick('at first', ['empty', 'queued']) == 'queued':
        arrive()
    st, x = attempt(ip, ip.getattr(th, 'run'))
    cx.prove('the thread survives', st == 'ok', info=ename(x))
    cx.prove('every message is handled once, in order', len(handled) == len(items) and all(a is b for a, b in zip(handled, items)), info=(len(handled), len(items)))


def c_repr(cx):
    """Message.__repr__ (used in log texts while a reply is sent) never raises."""
    rig = Rig(cx, threadsafe=False)
    del cx.stubs['katcp.core:Message.__repr__']

    def re_sub(ip2, pat, repl, s):
        if STR.single_char_class(pat) is None:
            raise Unsupported('re.sub pattern %r' % (pat.pattern,))
        sub_table(ip2, pat, repl)               # the real replacement runs on each byte: it does not raise
        cx.axiom('re.sub with a one-character class maps every byte independently', True)
        n = cx.int('escaped length')
        cx.assume(n.t >= 0)
        return SBytes(z3.String(cx.name('escaped')), ('len', n))
    cx.ghost['re_sub'] = re_sub
    ip = rig.ip
    args = [cx.bytes('a%d' % i) for i in range(cx.pick('arguments', [0, 1, 2]))]
    m = ip.call(rig.M, [cx.pick('type', [rig.REQUEST, rig.REPLY, rig.INFORM]), 'do-it', args, cx.pick('id', [None, b'7'])])
    st, r = attempt(ip, run_src(ip, 'def f(m):\n    return repr(m)\n')['f'], m)
    cx.prove('repr never raises', st == 'ok', info=ename(r))


CONTRACTS = {'sync': (c_sync, {}), 'future': (c_future, {}), 'unknown': (c_unknown, {}), 'deprecated': (c_deprecated, {}),
             'thread-queue': (c_thread_queue, {}), 'thread-run': (c_thread_run, {}), 'thread-race': (c_thread_race, {'bounded': 'two messages arriving while the thread runs'}), 'repr': (c_repr, {})}
