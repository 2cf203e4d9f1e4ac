"""C13: contracts on the client's request bookkeeping: sending, replies, informs, timeouts, closing, stopping."""
import ast

from .cli import *          # noqa

MODULES = ['core', 'kattypes', 'client', 'ioloop_manager']
UNDER_CONTRACT = ['client.AsyncClient.callback_request', '...future_request', '...blocking_request', '...handle_reply', '...handle_inform', '..._handle_timeout',
                  '..._fail_waiting_requests', '..._do_fail_callback', '..._push/_pop/_peek_async_request', '..._msg_id_for_name', '..._next_id', '...stop',
                  '..._stream_closed_callback', 'client.DeviceClient._stream_closed_callback', '...send_request', '...send_message', '..._disconnect']
ASSUMPTIONS = ['IOStream: write() raises or takes the data; a stream that is closed (by either side) ends its read and runs the close callback in a later callback of the ioloop',
               'timers fire once, when their time has come, unless removed; callbacks run in order',
               'requests are issued while the client runs and each request is a message object of its own',
               'server messages reach handle_message one at a time (C08)']

SUB = '''
class C(Base):
    def unhandled_reply(self, msg):
        unhandled(msg)
    def unhandled_inform(self, msg):
        unhandled(msg)
'''


class Rq(object):
    """one request, what came back to it and what must"""

    def __init__(self, w, name, mid='auto', api='callback', timeout='default', react=None):
        self.w, self.name, self.midkind, self.api, self.react = w, name, mid, api, react
        cx, ip = w.cx, w.ip
        self.replies, self.informs, self.sent_informs = [], [], []
        self.want = None
        kw = {'mid': None}
        if mid == 'explicit':
            self.own = cx.bytes('own_id')
            cx.assume(z3.InRe(self.own.t, R('digits')))
            cx.assume(z3.And(z3.Length(self.own.t) > 0, *[t(r.own) != self.own.t for r in w.rqs if r.midkind == 'explicit'] +
                             [t(r.id) != self.own.t for r in w.rqs if r.midkind == 'auto' and r.id is not None]))
            kw['mid'] = self.own
        self.msg = w.cli.msg('request', name, b'argument', **kw)
        self.user = ('user', self)
        k = {}
        if mid == 'declined':
            k['use_mid'] = False
        elif mid == 'demanded':
            k['use_mid'] = True
        if timeout == 'given':
            k['timeout'] = self.timeout = cx.real('timeout%d' % len(w.rqs))
        elif timeout == 'default':
            self.timeout = w.timeout
        else:
            self.timeout = None
        before = list(w.cli.loop.active())
        self.start = w.cli.loop.now
        w.rqs.append(self)
        if api == 'future':
            st, f = w.cli.m('future_request', self.msg, **k)
            cx.prove('a request can always be issued', st == 'ok' and isinstance(f, IFuture), info=ename(f))
            self.future = f
            f.m_add_done_callback(ip, ip.lib.N(self.resolved, 'resolved'))
        else:
            if api != 'silent':
                k['reply_cb'] = ip.lib.N(self.reply, 'reply_cb')
                k['inform_cb'] = ip.lib.N(self.inform, 'inform_cb')
            if api == 'user data':
                k['user_data'] = self.user
            st, f = w.cli.m('callback_request', self.msg, **k)
            cx.prove('a request can always be issued', st == 'ok', info=ename(f))
        self.id = self.msg.attrs['mid']
        new = [h for h in w.cli.loop.active() if h not in before]
        self.handle = new[0] if new else None
        if len(new) > 1 or (new and self.timeout is None):
            cx.prove('one timeout per request', False, info=len(new))

    def reply(self, msg, *user):
        self.replies.append((msg, user))
        if self.react:
            self.react(self)

    def inform(self, msg, *user):
        self.informs.append((msg, user))

    def resolved(self, f):
        if f.state == 'exc':
            self.replies.append((f.value, 'exc'))
            return
        m, inf = self.w.ip.items_of(f.value)
        self.informs = [(i, ()) for i in self.w.ip.items_of(inf)]
        self.replies.append((m, ()))
        if self.react:
            self.react(self)

    def check(self, why):
        cx, w = self.w.cx, self.w
        who = (why, self.name, self.midkind, self.api)
        if self.api == 'silent':
            return
        user = self.user if self.api == 'user data' else ()
        if self.want is None:
            cx.prove('a request is not completed by what does not answer it', not self.replies, info=who)
            return
        cx.prove('every request completes exactly once', len(self.replies) == 1, info=who + (len(self.replies),))
        m, u = self.replies[0]
        cx.prove('with the user data given', u == user, info=(who, u))
        if self.want == 'fail':
            cx.prove('a request that gets no answer completes with a failure reply', isinstance(m, IObj) and w.ip.eq(m.attrs['mtype'], w.REPLY) is True and
                     m.attrs['name'] == self.name and w.ip.call(w.ip.getattr(m, 'reply_ok'), []) is False and
                     w.ip.eq(w.ip.getitem(m.attrs['arguments'], 0), b'fail') is True, info=who)
        else:
            cx.prove('a request completes with the reply that answers it', m is self.want, info=who)
        if self.api != 'future' or self.future.state == 'result':
            cx.prove('it gets the informs that belong to it, in order', [i[0] for i in self.informs] == self.sent_informs and all(i[1] == user for i in self.informs), info=who)


class W(object):
    def __init__(self, cx, ids=None, timeout=True, auto_reconnect=None):
        self.cx, self.ip = cx, cx.interp
        self.rqs, self.unhandled = [], []
        self.want_unhandled = []
        self.timeout = cx.real('default_timeout') if timeout else None
        self.cli = Cli(cx, timeout=self.timeout, sub=SUB, auto_reconnect=auto_reconnect, unhandled=lambda m: self.unhandled.append(m))
        self.c = self.cli.c
        self.REPLY = self.ip.getattr(self.cli.M, 'REPLY')
        self.ids = cx.pick('server', ['knows ids', 'knows no ids']) == 'knows ids' if ids is None else ids
        if self.ids is not None:
            self.cli.speak(self.ids)

    def out(self):
        return [r for r in self.rqs if r.want is None]

    def sent(self, label, names=('x',), kinds=None, apis=('callback',), timeouts=('default',)):
        kinds = kinds or (['auto', 'declined', 'explicit'] if self.ids else ['auto'])
        p = lambda l, o: o[0] if len(o) == 1 else self.cx.pick(label + ' ' + l, o)
        r = Rq(self, p('name', names), p('id', kinds), p('api', apis), p('timeout', timeouts))
        self.cx.prove('a request that was sent is not completed yet', not r.replies, info=(r.midkind, r.api))
        return r

    def server(self, kind, name, mid):
        m = self.cli.msg(kind, name, *([b'ok'] if kind == 'reply' else [b'inform']), **{'mid': mid})
        st, x = self.cli.m('handle_message', m)
        self.cx.prove('no message from the server raises', st == 'ok', info=ename(x))
        return m

    def target(self, name, mid):
        """the outstanding request a reply or inform with this name and id belongs to"""
        for r in self.out():
            if mid is None:
                if r.name == name and r.id is None:
                    return r
            elif r.id is not None and self.cx.branch(t(r.id) == t(mid)):
                return r

    def check(self, why):
        cx, ip = self.cx, self.ip
        for r in self.rqs:
            r.check(why)
        cx.prove('what answers no outstanding request goes to the handlers of the client', self.unhandled == self.want_unhandled, info=(why, len(self.unhandled)))
        live = self.cli.loop.active()
        for r in self.rqs:
            if r.want is not None:
                cx.prove('nothing is kept of a completed request: timer', r.handle is None or r.handle not in live, info=(why, r.midkind))
            elif r.timeout is not None:
                cx.prove('an outstanding request keeps its timeout', r.handle in live and ip.eq(r.handle.when, ip.binop(ast.Add(), r.start, r.timeout)), info=(why, r.midkind))
        need(self.c, '_async_queue', '_async_id_stack')
        q, s = self.c.attrs['_async_queue'], self.c.attrs['_async_id_stack']
        n = len(self.out())
        cx.prove('nothing is kept of a completed request: tables', len(ip.items_of(q)) == n and sum(len(ip.items_of(v)) for _, v in s.items) == n,
                 info=(why, n, len(ip.items_of(q))))

    def finish(self):
        """whatever happened before: outstanding requests end with the connection, nothing lasts"""
        self.cli.close()
        self.cli.drain()
        for r in self.out():
            r.want = 'fail'
        self.check('closed')


def c_send(cx, api):
    """issue a request in any situation"""
    w = W(cx)
    if cx.pick('another', ['yes', 'no']) == 'yes':
        w.sent('first')
    how = cx.pick('connection', ['up', 'down', 'breaks'])
    if how == 'down':
        w.cli.close()
        w.cli.drain()
        for r in w.out():
            r.want = 'fail'
    elif how == 'breaks':
        w.cli.write_fails = True
    kind = cx.pick('id', ['auto', 'declined', 'demanded', 'explicit'])
    tm = cx.pick('timeout', ['default', 'given'])
    r = Rq(w, 'x', kind, api, tm)
    refused = kind in ('demanded', 'explicit') and not w.ids
    if how == 'down' or refused:
        r.want = 'fail'
        w.want_unhandled = list(w.unhandled) if api == 'silent' else []
        w.check('not sent')
    if how == 'breaks' and not refused:
        w.cli.drain()
        for x in w.out():
            x.want = 'fail'
    w.check('issued')
    w.cli.drain()
    w.check('issued, later')
    w.cli.write_fails = False
    if how != 'down':
        w.finish()


def two(cx, w, variety):
    """two outstanding requests: any kinds, same name or not"""
    a = w.sent('first', apis=variety, timeouts=('default', 'given') if len(variety) == 1 else ('default',))
    b = w.sent('second', names=('x', 'y'))
    return a, b


def some_id(cx):
    mid = None
    if cx.pick('message id', ['absent', 'present']) == 'present':
        mid = cx.bytes('reply_id')
        cx.assume(z3.And(z3.InRe(mid.t, R('digits')), z3.Length(mid.t) > 0))
    return mid


def c_reply(cx, api):
    w = W(cx)
    two(cx, w, (api,))
    mid = some_id(cx)
    name = cx.pick('reply name', ['x', 'y', 'z'])
    informs = cx.pick('informs before', [0, 2] if api in ('callback', 'future') else [1])
    for _ in range(informs):
        r = w.target(name, mid)
        m = w.server('inform', name, mid)
        if r is None or r.api == 'silent':
            w.want_unhandled.append(m)
        else:
            r.sent_informs.append(m)
    w.check('informs')
    w.cli.later()
    for i in range(2):
        r = w.target(name, mid)
        m = w.server('reply', name, mid)
        if r is not None:
            r.want = m
        if r is None or r.api == 'silent':
            w.want_unhandled.append(m)
        w.check('reply %d' % i)
        # a second reply, and informs that come late
    r = w.target(name, mid)
    m = w.server('inform', name, mid)
    if r is None or r.api == 'silent':
        w.want_unhandled.append(m)
    else:
        r.sent_informs.append(m)
    w.cli.drain()
    w.check('late')
    w.finish()


def c_order(cx):
    """three requests of one name: replies without id go to the oldest sent without"""
    w = W(cx)
    kinds = ['auto', 'declined'] if w.ids else ['auto']
    rs = [w.sent(str(i), kinds=kinds) for i in range(3)]
    for i in range(3):
        plain = [r for r in w.out() if r.id is None]
        m = w.server('reply', 'x', None)
        if plain:
            plain[0].want = m
        else:
            w.want_unhandled.append(m)
        w.check('reply %d' % i)
    for r in rs:
        if r.want is None:
            r.want = w.server('reply', 'x', r.id)
    w.check('answered')
    w.finish()


def c_timeout(cx, api):
    w = W(cx)
    a, b = two(cx, w, (api,))
    if cx.pick('meanwhile', ['informs', 'nothing']) == 'informs':
        r = w.target('x', a.id)
        m = w.server('inform', 'x', a.id)
        if r is None or r.api == 'silent':
            w.want_unhandled.append(m)
        else:
            r.sent_informs.append(m)
    for i in range(2):
        hs = [r for r in w.out() if r.handle is not None]
        r = cx.pick('fires', hs)
        w.cli.fire(r.handle)
        r.want = 'fail'
        w.check('timeout %d' % i)
    # the answer comes after all
    w.cli.later()
    w.want_unhandled.append(w.server('reply', 'x', a.id))
    w.want_unhandled.append(w.server('inform', 'x', a.id))
    w.check('late')
    w.finish()


def c_no_timeout(cx):
    w = W(cx, timeout=False)
    a = w.sent('first', apis=('callback', 'future'), timeouts=('none',))
    cx.prove('no timeout: none is scheduled', not w.cli.loop.active())
    if cx.pick('then', ['reply', 'close']) == 'reply':
        a.want = w.server('reply', 'x', a.id)
        w.check('reply')
    w.finish()


def c_end(cx, how):
    """the connection or the client goes away"""
    again = cx.pick('auto_reconnect', [None, False])
    w = W(cx, auto_reconnect=again)
    if how != 'stopped':
        a, b = two(cx, w, ('callback',))
    else:
        a = w.sent('first', apis=('callback', 'future', 'user data'))
    if how == 'closed':
        w.cli.close()
    elif how == 'disconnect':
        st, x = w.cli.m('disconnect')
        cx.prove('disconnecting never raises', st == 'ok', info=ename(x))
    else:
        st, x = w.cli.m('stop')
        cx.prove('stopping never raises', st == 'ok', info=ename(x))
    # before the ioloop has told the client, another request or a late answer
    extra = cx.pick('meanwhile', ['nothing', 'a request', 'a reply'])
    if extra == 'a request':
        b = Rq(w, 'x', cx.pick('late id', ['auto', 'declined']), cx.pick('late api', ['callback', 'future']))
        w.cli.drain() if cx.pick('then', ['wait', 'timer']) == 'wait' else None
    elif extra == 'a reply':
        m = w.server('reply', 'x', a.id)
        r = [r for r in w.out() if r.name == 'x' and (r.id is None) == (a.id is None) and (r is a or a.id is None)]
        r[0].want = m
        w.check('last reply')
    w.cli.drain()
    for r in w.out():
        r.want = 'fail'
    w.check(how)
    # what comes later disturbs nothing
    if how != 'stopped':
        w.want_unhandled.append(w.server('reply', 'x', a.id))
        w.check('afterwards')
        # the client connects again and goes on
        hs = [h for h in w.cli.loop.active()]
        if hs and again is None:
            w.cli.fire(hs[0])
            w.cli.drain()
            n = Rq(w, 'x')
            w.want_unhandled.append(w.server('reply', 'zz', None))
            n.want = w.server('reply', 'x', n.id)
            w.check('next connection')


def c_react(cx, what):
    """callbacks that raise or issue the next request"""
    w = W(cx)
    done = []

    def react(r):
        if done:
            return
        done.append(r)
        if what == 'raises':
            raise PyExc(ValueError('callback'))
        done.append(Rq(w, r.name, 'auto', cx.pick('next api', ['callback', 'future'])))
    kinds = ['auto', 'declined', 'explicit'] if w.ids else ['auto']
    a = Rq(w, 'x', cx.pick('id', kinds), cx.pick('api', ['callback', 'future', 'user data']), react=react)
    b = w.sent('second')
    how = cx.pick('completed by', ['reply', 'timeout', 'close', 'not sent'])
    if how == 'reply':
        a.want = w.server('reply', 'x', a.id)
    elif how == 'timeout':
        w.cli.fire(a.handle)
        a.want = 'fail'
    elif how == 'close':
        w.cli.close()
        w.cli.drain()
        for r in (a, b) + tuple(done[1:]):
            r.want = 'fail'
    else:
        w.cli.close()
        w.cli.drain()
        a.want = b.want = 'fail'
        for r in done[1:]:
            r.want = 'fail'
    w.check(how)
    for r in w.out():
        r.want = w.server('reply', 'x', r.id)
        w.check('rest')
    w.cli.drain()
    w.check('end')


def c_same_id(cx):
    """an id that is in use already, chosen by callers or met by the counter"""
    w = W(cx, ids=True)
    first = cx.pick('first', ['explicit', 'auto'])
    n = None
    if first == 'explicit':
        a = w.sent('first', kinds=('explicit',))
        second = cx.pick('second', ['explicit', 'auto'])
    else:
        a = w.sent('first', kinds=('auto',))
        second = 'explicit'
    if second == 'explicit':
        msg = w.cli.msg('request', 'x', b'argument', mid=a.id)
        got = []
        st, x = w.cli.m('callback_request', msg, reply_cb=w.ip.lib.N(lambda m: got.append(m), 'reply_cb'))
        cx.prove('a request can always be issued', st == 'ok', info=ename(x))
        w.cli.drain()
        w.check('clash')
        m = w.server('reply', 'x', a.id)
        a.want = m
        w.check('clash answered')
        cx.prove('both requests with one id complete', len(got) == 1 and w.ip.call(w.ip.getattr(got[0], 'reply_ok'), []) is False)
    else:
        b = w.sent('second', kinds=('auto',))
        cx.prove('an automatic id is not that of an outstanding request', z3.Not(t(a.id) == t(b.id)) if not isinstance(t(a.id) == t(b.id), bool) else t(a.id) != t(b.id))
        b.want = w.server('reply', 'x', b.id)
        w.check('second')
        a.want = w.server('reply', 'x', a.id)
        w.check('first')
    w.finish()


def c_blocking(cx):
    """blocking_request from another thread: the outcome of the request, and no waiting much beyond its timeout"""
    w = W(cx)
    ip = w.ip
    msg = w.cli.msg('request', 'x')
    how = cx.pick('outcome', ['reply', 'timeout', 'closed', 'not connected'])
    T = cx.real('timeout') if cx.pick('timeout', ['given', 'default']) == 'given' else None
    if how == 'not connected':
        w.cli.close()
        w.cli.drain()
    state = {}

    def block(ip2, fut, timeout):
        want = T if T is not None else w.timeout
        cx.prove('the caller waits a little longer than the timeout', timeout is not None and t(timeout) >= t(want))
        cx.ghost['thread_ident'] = 1
        w.cli.drain()
        mid = msg.attrs['mid']
        if how == 'reply':
            state['inform'] = w.server('inform', 'x', mid)
            state['reply'] = w.server('reply', 'x', mid)
        elif how == 'timeout':
            act = w.cli.loop.active()
            cx.prove('the timeout is scheduled', len(act) == 1)
            w.cli.fire(act[0])
        elif how == 'closed':
            w.cli.close()
        w.cli.drain()
        cx.ghost['thread_ident'] = 2
    cx.ghost['block'] = block
    cx.ghost['thread_ident'] = 2
    st, x = w.cli.m('blocking_request', msg, **({} if T is None else {'timeout': T}))
    cx.prove('a blocking request returns', st == 'ok', info=ename(x))
    m, inf = ip.items_of(x)
    if how == 'reply':
        cx.prove('with its reply and informs', m is state['reply'] and list(ip.items_of(inf)) == [state['inform']])
    else:
        cx.prove('or a failure reply', ip.call(ip.getattr(m, 'is_reply'), []) is True and ip.call(ip.getattr(m, 'reply_ok'), []) is False if 'is_reply' in m.cls.ns else
                 ip.eq(m.attrs['mtype'], w.REPLY) is True and ip.call(ip.getattr(m, 'reply_ok'), []) is False)


APIS = ['callback', 'user data', 'future', 'silent']
B2, B3 = 'up to two outstanding requests', 'up to three outstanding requests'
CONTRACTS = {
    'send': (c_send, {'split': APIS, 'bounded': B2}), 'reply': (c_reply, {'split': APIS, 'bounded': B2}), 'order': (c_order, {'bounded': B3}),
    'timeout': (c_timeout, {'split': APIS, 'bounded': B2}), 'no-timeout': (c_no_timeout, {}),
    'end': (c_end, {'split': ['closed', 'disconnect', 'stopped'], 'bounded': B3}), 'react': (c_react, {'split': ['raises', 'asks again'], 'bounded': B3}),
    'same-id': (c_same_id, {'bounded': B2}), 'blocking': (c_blocking, {}),
}
