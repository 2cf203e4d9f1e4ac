"""C13 executable contract: random histories of a real client against an independent table of what each request must come to."""
from net import *      # noqa
from katcp import AsyncClient, Message

RULE = 'random sends (every api, id policy and timeout, reacting callbacks), replies, informs, late and unsolicited messages, time, disconnects, reconnects, stop and restart'
BOUNDS = 'up to 40 steps and 25 requests over 3 names per history; up to 3 connections'
FUNCTIONS = ['client.AsyncClient', 'client.DeviceClient.send_message', 'client.DeviceClient._line_read_loop', 'client.DeviceClient._connect_loop']
NAMES = ['x', 'y', 'x-y']


def cases(h):
    r = h.rng
    for i in range(h.n(260, 8000)):
        yield 'history', (r.randrange(1 << 30), r.choice(['ids', 'ids', 'none', 'unknown']), r.choice([5.0, 5.0, None]), r.randrange(4, 41))
    for i in range(h.n(4, 40)):
        yield 'blocking', (r.randrange(1 << 30), ['reply', 'timeout', 'gone'][i % 3])


class Rq(object):
    def __init__(self, t, name, kind, api, timeout, react):
        t.expire()
        self.t, self.name, self.kind, self.api, self.react = t, name, kind, api, react
        self.n = len(t.rqs)
        self.replies, self.informs, self.sent_informs = [], [], []
        self.want = None            # None, ('fail',) or ('reply', text)
        k = {}
        mid = None
        if kind == 'explicit':
            mid = t.free_id()
        elif kind == 'clash':
            used = [q.mid for q in t.out() if q.mid is not None]
            mid = t.r.choice(used) if used else t.free_id()
        if kind == 'declined':
            k['use_mid'] = False
        elif kind == 'demanded':
            k['use_mid'] = True
        if timeout != 'default':
            timeout = k['timeout'] = timeout + self.n * 1e-4 + .00037       # no two things at one time
        else:
            t.c._request_timeout = None if t.timeout is None else t.timeout + self.n * 1e-4 + .00037
        self.timeout = t.c._request_timeout if timeout == 'default' else timeout
        self.deadline = None if self.timeout is None else t.w.now() + self.timeout
        self.msg = Message.request(name, 'a%d' % self.n, mid=mid)
        clash = mid is not None and any(q.mid is not None and str(q.mid) == str(mid) for q in t.out())
        refused = clash or not t.up or (kind in ('explicit', 'demanded', 'clash') and not t.ids)
        self.mid = None
        if not refused:
            # (found out below: automatic ids are the client's choice)
            self.mid = 'auto' if kind in ('auto', 'demanded') and t.ids else mid
        self.sent = not refused
        if refused:
            self.want = ('fail',)
        t.rqs.append(self)
        if api == 'future':
            self.f = t.c.future_request(self.msg, **k)
            self.f.add_done_callback(self.done)
        else:
            if api == 'user':
                k['user_data'] = (self, 7)
            if api != 'no informs':
                k['inform_cb'] = self.inform
            t.c.callback_request(self.msg, reply_cb=self.reply, **k)
        if self.mid == 'auto':
            self.mid = self.msg.mid
            t.h.check('a request that is sent with an id has one', self.mid is not None, self)
            t.h.check('ids of outstanding requests differ', not any(q.mid is not None and q is not self and str(text(q.mid)) == str(text(self.mid)) for q in t.out()), self)
        elif not refused and self.mid is None:
            t.h.check('a request to be sent without id has none', self.msg.mid is None, self)

    def __repr__(self):
        return 'request %d ?%s %s %s timeout=%r' % (self.n, self.name, self.kind, self.api, self.timeout)

    def reply(self, msg, *user):
        self.replies.append(msg)
        if self.api == 'user':
            self.t.h.check('user data comes back', user == (self, 7), (self, user))
        else:
            self.t.h.check('no user data made up', user == (), (self, user))
        if self.react == 'raise':
            raise ValueError('reply')
        if self.react == 'again' and len(self.t.rqs) < 25:
            self.t.asked.append(self)
            self.t.send(react=None)

    def inform(self, msg, *user):
        self.informs.append(msg)
        if self.react == 'raise':
            raise ValueError('inform')

    def done(self, f):
        m, i = f.result()
        self.informs = list(i)
        self.final = len(i)
        self.replies.append(m)
        if self.react == 'again' and len(self.t.rqs) < 25:
            self.t.send(react=None)

    def check(self, ctx):
        h = self.t.h
        if self.want is None:
            h.check('a request completes only with what answers it', not self.replies, '%r got %s after %s' % (self, self.replies, ctx))
            return
        h.check('every request completes exactly once', len(self.replies) == 1, '%r got %s, expected one %r, after %s' % (self, self.replies, self.want, ctx))
        m = self.replies[0]
        if self.want[0] == 'fail':
            h.check('failure replies', m.mtype == Message.REPLY and m.name == self.name and m.arguments[0] == b'fail', '%r got %s after %s' % (self, m, ctx))
        else:
            h.check('a request completes with its own reply', m.arguments[1:] == [self.want[1]], '%r got %s, expected %s, after %s' % (self, m, self.want, ctx))
        if self.api != 'no informs':
            h.check('informs belong to their request', [i.arguments[0] for i in self.informs] == self.sent_informs, '%r got %s, expected %s, after %s' % (self, self.informs, self.sent_informs, ctx))


def text(mid):
    return mid.decode() if isinstance(mid, bytes) else mid


class T(object):
    def __init__(self, h, w, r, ids, timeout):
        self.h, self.w, self.r, self.timeout, self.speaks = h, w, r, timeout, ids
        self.rqs, self.asked, self.log = [], [], []
        self.stray, self.want_stray = [], []
        t = self

        class C(AsyncClient):
            def unhandled_reply(self, msg):
                t.stray.append(msg.arguments[-1])

            def unhandled_inform(self, msg):
                t.stray.append(msg.arguments[-1])
        self.lis = w.listen()
        self.auto = r.random() < .85
        self.c = C('127.0.0.1', self.lis.addr[1], timeout=timeout, **({} if self.auto else {'auto_reconnect': False}))
        self.c.set_ioloop(w.loop)
        self.c.auto_reconnect_delay = .2
        self.next_own = 1000
        self.texts = 0
        self.up = self.ids = False
        self.running = False
        self.start()

    def start(self):
        self.c.start()
        self.running = True
        self.peer = None
        self.connect()

    def connect(self):
        for _ in range(40):
            self.w.run(.02)
            self.expire()
            self.peer = self.lis.accept()
            if self.peer:
                break
        assert self.peer
        self.w.run(.001)
        self.up = True
        if self.speaks != 'unknown':
            self.peer.send(b'#version-connect katcp-protocol 5.0-%s\n' % (b'MI' if self.speaks == 'ids' else b'M'))
            self.ids = self.speaks == 'ids'
            if self.speaks == 'none':
                pass

    def out(self):
        return [q for q in self.rqs if q.want is None]

    def free_id(self):
        # small numbers meet the counter of the client
        used = [str(text(q.mid)) for q in self.rqs if q.mid is not None]
        while True:
            i = self.r.randrange(1, 30) if self.r.random() < .6 else self.r.randrange(1000, 9999)
            if str(i) not in used:
                return str(i)

    def send(self, react='any'):
        r = self.r
        react = r.choice([None, None, None, 'raise', 'again']) if react == 'any' else react
        api = r.choice(['callback', 'future', 'user', 'no informs'])
        if api == 'future' and react == 'raise':
            react = None
        q = Rq(self, r.choice(NAMES), r.choice(['auto', 'auto', 'declined', 'explicit', 'demanded', 'clash']), api,
               r.choice(['default', 'default', .3, .7, 1.5, 20]), react)
        self.log.append(repr(q))
        return q

    def say(self, reply):
        r = self.r
        name, mid = r.choice(NAMES + ['other']), None
        q = r.choice(self.rqs) if self.rqs and r.random() < .85 else None
        if q:
            name = q.name if r.random() < .95 else r.choice(NAMES)
            mid = q.mid if r.random() < .95 else None
        elif r.random() < .5:
            mid = str(r.randrange(1, 40))
        if mid is not None:
            mid = str(text(mid))
        self.texts += 1
        body = ('t%d' % self.texts).encode()
        line = '%s%s%s %s\n' % ('!' if reply else '#', name, '' if mid is None else '[%s]' % mid, ('ok ' if reply else '') + body.decode())
        to = None
        for o in self.out():
            if (mid is None and o.mid is None and o.name == name) or (mid is not None and o.mid is not None and str(text(o.mid)) == mid):
                to = o
                break
        self.log.append(line.strip() + ' -> %r' % to)
        if to is None:
            self.want_stray.append(body)
        elif reply:
            to.want = ('reply', body)
        elif to.api == 'no informs':
            self.want_stray.append(body)
        else:
            to.sent_informs.append(body)
        self.peer.send(line.encode())

    def expire(self):
        for q in self.out():
            if q.deadline is not None and q.deadline <= self.w.now() + 1e-6:
                q.want = ('fail',)

    def gone(self):
        for q in self.out():
            q.want = ('fail',)
        self.up = self.ids = False
        self.c_forgets = True

    def check(self):
        ctx = self.log[-8:]
        for q in self.rqs:
            q.check(ctx)
        self.h.check('what answers no outstanding request goes to the handlers', self.stray == self.want_stray, '%s expected %s after %s' % (self.stray, self.want_stray, ctx))
        n = len(self.out())
        q, s = self.c._async_queue, self.c._async_id_stack
        self.h.check('nothing is kept of completed requests', len(q) == n and sum(map(len, s.values())) == n, '%d %r %r after %s' % (n, q, s, ctx))

    def wire(self):
        """what was written is what was sent, with the ids"""
        if self.peer is None:
            return
        got = [(m.name, m.arguments[0].decode(), m.mid) for m in self.peer.msgs()]
        for name, a, mid in got:
            q = self.rqs[int(a[1:])]
            self.h.check('requests go out as issued, with their ids', q.sent and q.name == name and str(text(q.mid)) == str(text(mid)), '%r wrote %s %s' % (q, name, mid))


def case_history(h, p):
    import random
    seed, ids, timeout, n = p
    r = random.Random(seed)
    with World() as w:
        t = T(h, w, r, ids, timeout)
        for i in range(n):
            k = r.random()
            if k < .38 and len(t.rqs) < 25:
                t.send()
                w.settle()
            elif k < .58:
                t.say(True)
            elif k < .72:
                t.say(False)
            elif k < .86:
                dt = r.choice([.05, .1, .3, .7, 1, 5])
                t.log.append('time %s' % dt)
                w.run(dt)
                t.expire()
                w.settle()
            elif k < .90:
                t.wire()
            elif k < .97:
                how = r.choice(['closed by the server', 'reset', 'disconnect', 'closed at once'])
                t.log.append(how)
                if how == 'disconnect':
                    t.c.disconnect()
                elif how == 'reset':
                    t.peer.reset()
                else:
                    t.peer.close()
                if how == 'closed at once' and len(t.rqs) < 25:
                    # the client does not know yet
                    q = t.send()
                w.settle()
                t.gone()
                w.settle()
                t.check()
                if r.random() < .4 and len(t.rqs) < 25:
                    t.send()
                    w.settle()
                    t.check()
                if not t.auto:
                    # it stays away until it is started again
                    w.run(1)
                    t.expire()
                    t.check()
                    t.c.stop()
                    w.run(.5)
                    t.c.auto_reconnect_delay = .2
                    t.start()
                else:
                    t.connect()
                t.gone_ids = True
            else:
                t.log.append('stop')
                t.c.stop()
                w.settle()
                t.gone()
                t.check()
                w.run(.5)
                t.peer.close()
                # (a connection made by the one before may wait in the backlog)
                while t.lis.accept():
                    pass
                t.check()
                t.start()
                t.log.append('started again')
            t.expire()
            t.check()
        w.settle()
        w.run(1)
        t.expire()
        t.check()
        t.wire()
        t.c.stop()
        w.settle()
        t.gone()
        t.check()
        w.run(30)
        t.check()
    h.nontrivial((ids, len(t.rqs), sum(1 for q in t.rqs if q.want == ('fail',))))


def case_blocking(h, p):
    """blocking requests from another thread (real time)"""
    import random
    import socket
    import threading
    import net as N
    seed, how = p
    r = random.Random(seed)
    # (real time: a server of its own in a thread)
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    s.listen(1)
    name = r.choice(NAMES)

    def serve():
        c, _ = s.accept()
        buf = b''
        while b'\n' not in buf:
            buf += c.recv(100)
        if how == 'reply':
            c.sendall(('#%s one\n#%s two\n!%s ok 5\n' % (name, name, name)).encode())
        if how == 'gone':
            c.close()
        else:
            try:
                c.recv(100)
            except OSError:
                pass
            c.close()
    th = threading.Thread(target=serve)
    th.daemon = True
    th.start()
    c = AsyncClient('127.0.0.1', s.getsockname()[1], timeout=5)
    c.start(timeout=5)
    c.wait_connected(5)
    try:
        m, i = c.blocking_request(Message.request(name), timeout=.2 if how == 'timeout' else None)
    finally:
        c.stop(5)
        c.join(5)
        s.close()
    if how == 'reply':
        h.check('a blocking request returns its reply and informs', m.arguments == [b'ok', b'5'] and [x.arguments for x in i] == [[b'one'], [b'two']], (m, i))
    else:
        h.check('a blocking request without answer returns a failure', m.arguments[0] == b'fail' and m.name == name, m)
    h.nontrivial((how,))
