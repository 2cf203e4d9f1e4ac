"""C06 executable contract: on a running server every request gets exactly one reply, with its own name and id, at its own client."""
from net import *      # noqa
from wake import case_wake, WAKES
from msgspec import spec_parse
from katcp import DeviceServer, ProtocolFlags, Message, AsyncReply, FailReply
from katcp import kattypes as K
import time as _time
import tornado.gen

RULE = 'random interleavings of requests of two clients over handlers of every kind of outcome (value, failure, exception, junk, pending result, later reply), with informs, replies, unknown names and broken lines between; also with handler thread'
BOUNDS = 'up to 12 lines per client, two clients'
FUNCTIONS = ['server.DeviceServerBase.handle_request', 'server.DeviceServerBase.handle_message', 'server.KATCPServer._line_read_loop',
             'server.ClientRequestConnection', 'server.MessageHandlerThread', 'server.DeviceServerBase._get_request_handler']
TEXTS = ['why', '', u'\u00e9', 'a\nb\\c', '\udce9 lone', u'\U0001f600']


def boom():
    raise KeyError('k')


OUTCOMES = {                                       # what the handler does -> expected status
    'ok': b'ok', 'ok-mid': b'ok', 'own-fail': b'fail', 'failreply': b'fail', 'exc': b'fail', 'exc-text': b'fail', 'none': b'fail', 'text': b'fail',
    'bytes': b'fail', 'tuple': b'fail', 'int': b'fail', 'inform': b'fail', 'request': b'fail', 'othername': b'fail', 'assert': b'fail',
    'list': b'fail', 'later': b'ok', 'now-async': b'ok'}


def act(kind, name, text, req, w):
    if kind == 'ok':
        return Message.reply(name, 'ok', 'x')
    if kind == 'ok-mid':
        return Message.reply(name, 'ok', mid=4242)
    if kind == 'own-fail':
        return Message.reply(name, 'fail', 'no')
    if kind == 'failreply':
        raise FailReply(text)
    if kind == 'exc':
        boom()
    if kind == 'exc-text':
        raise ValueError(text)
    if kind == 'assert':
        raise AssertionError()
    if kind in ('later', 'now-async'):
        if kind == 'later':
            w.loop.add_callback(lambda: w.loop.call_later(1.5, req.reply, 'ok'))
        else:
            req.reply('ok', 'direct')
        raise AsyncReply()
    return {'none': None, 'text': '!%s ok' % name, 'bytes': b'ok', 'tuple': ('ok', 1), 'int': 0, 'list': ['ok'],
            'inform': Message.inform(name, 'ok'), 'request': Message.request(name, 'ok'), 'othername': Message.reply(name + 'x', 'ok')}[kind]


def handler(kind, form, text, name, world):
    def plain(self, req, msg):
        "doc"
        return act(kind, name, text, req, world[0])

    def future(self, req, msg):
        "doc"
        f = tornado.gen.Future()

        def fin():
            try:
                f.set_result(act(kind, name, text, req, world[0]))
            except Exception as e:
                f.set_exception(e)
        if form == 'resolved':
            fin()
        else:
            world[0].loop.add_callback(lambda: world[0].loop.call_later(0.7, fin))
        return f

    def coro(self, req, msg):
        "doc"
        yield tornado.gen.moment
        r = act(kind, name, text, req, world[0])
        raise tornado.gen.Return(r)
    f = {'plain': plain, 'future': future, 'resolved': future, 'concurrent': future, 'coro': coro}[form]
    if form == 'coro':
        f = tornado.gen.coroutine(f)
        f.__doc__ = 'doc'
    if form == 'concurrent':
        f = K.concurrent_reply(f)
    return f


FORMS = ['plain', 'future', 'resolved', 'concurrent', 'coro']


def cases(h):
    r = h.rng
    for x in WAKES:
        yield 'wake', x
    kinds = sorted(OUTCOMES)
    for k in kinds:
        for f in FORMS:
            yield 'run', ([(k, f, r.choice(TEXTS))], [[('h0', m) for m in (None, b'5', b'0', b'999999999999999999999')]], False)
    for i in range(h.n(120, 4000)):
        hs = [(r.choice(kinds), r.choice(FORMS), r.choice(TEXTS)) for _ in range(r.randrange(1, 5))]
        cl = []
        for c in range(r.choice([1, 2, 2])):
            cl.append([(r.choice(['h%d' % r.randrange(len(hs)), 'h%d' % r.randrange(len(hs)), 'nope', 'h0x', 'watchdog', '#h0', '!h0', '#foo',
                                  '!foo', 'junk']), r.choice([None, b'%d' % r.randrange(100), b'%d' % r.randrange(3)]))
                       for _ in range(r.randrange(1, 13))])
        yield 'run', (hs, cl, False)
    for i in range(h.n(6, 60)):
        hs = [(r.choice([k for k in kinds if k != 'later']), r.choice(['plain', 'resolved']), r.choice(TEXTS)) for _ in range(3)]
        yield 'run', (hs, [[('h%d' % r.randrange(3), b'%d' % r.randrange(100)) for _ in range(8)]], True)
    yield 'flood', (305,)


def device(hs, world):
    d = {'PROTOCOL_INFO': ProtocolFlags(5, 0, [b'I', b'M']), 'setup_sensors': lambda self: None, 'VERSION_INFO': ('a', 1, 0),
         'BUILD_INFO': ('b', 1, 0, '')}
    for i, (kind, form, text) in enumerate(hs):
        d['request_h%d' % i] = handler(kind, form, text, 'h%d' % i, world)
    return type('Dev', (DeviceServer,), d)


def mkline(name, mid):
    idp = b'' if mid is None else b'[' + mid + b']'
    if name == 'junk':
        return b'?1bad[\n'
    if name[0] in '#!':
        return name.encode() + idp + b' ok\n'
    return b'?' + name.encode() + idp + b' arg\n'


def case_run(h, p):
    hs, clients, threaded = p
    world = [None]
    with World() as w:
        world[0] = w
        dev = device(hs, world)('127.0.0.1', 0)
        dev.set_ioloop(w.loop)
        dev.set_concurrency_options(thread_safe=threaded, handler_thread=threaded)
        dev.start()
        w.settle()
        peers = [w.connect(dev) for _ in clients]
        w.settle()
        for q in peers:
            q.lines()
        got = [[] for _ in peers]

        def pump():
            for q, g in zip(peers, got):
                g += q.lines()
        for j in range(max(len(c) for c in clients)):
            for q, c in zip(peers, clients):
                if j < len(c):
                    q.send(mkline(*c[j]), settle=(j % 3 == 0))
        want = [len([1 for n, m in c if n[0] not in '#!' and n != 'junk']) for c in clients]
        w.settle()
        w.run(60)
        pump()
        if threaded:
            deadline = REAL_TIME() + 20
            while REAL_TIME() < deadline and any(len([l for l in g if l[:1] == b'!']) < n for g, n in zip(got, want)):
                _time.sleep(0.002)
                w.settle()
                pump()
            _time.sleep(0.02)
            w.run(5)
            pump()
        for q in peers:
            q.send(b'?watchdog[77777]\n')
        w.settle()
        w.run(60)
        if threaded:
            deadline = REAL_TIME() + 20
            while REAL_TIME() < deadline and not all(any(b'77777' in l for l in g) for g in got):
                _time.sleep(0.002)
                w.settle()
                pump()
        pump()
        if threaded:
            dev.stop()
            w.settle()
    for c, g in zip(clients, got):
        reps = []
        for l in g:
            m = spec_parse(l)
            h.check('a line that is a message', m is not None, repr(l))
            h.check('the server sends no requests', m[0] != 0, repr(l))
            if m[0] == 1:
                reps.append(m)
        exp = []
        for n, mid in c:
            if n[0] in '#!' or n == 'junk':
                continue
            if n in ('nope', 'h0x'):
                st = b'invalid'
            elif n == 'watchdog':
                st = b'ok'
            else:
                st = OUTCOMES[hs[int(n[1:])][0]]
            exp.append((n, mid, st))
        exp.append(('watchdog', b'77777', b'ok'))
        have = [(m[1], m[2], m[3][0] if m[3] else None) for m in reps]
        key = lambda e: tuple(repr(x) for x in e)
        h.nontrivial(tuple(sorted(set((e[0] in ('nope', 'h0x'), e[2]) for e in exp))) + tuple(k for k in hs))
        h.check('one reply for each request, with its name, its id and the status of its outcome', sorted(have, key=key) == sorted(exp, key=key),
                'handlers %r lines %r: replies %r, expected %r' % (hs, c, have, exp))
        h.check('failures say why', all(len(m[3]) >= 2 for m in reps if m[3][0] in (b'fail', b'invalid')), repr(reps))
        serial = [hs[int(n[1:])] for n, _, _ in exp if n[0] == 'h' and n != 'h0x']
        if all(f != 'concurrent' and k != 'later' for k, f, _ in serial):
            h.check('in the order of the requests', have == exp, 'handlers %r lines %r: %r' % (hs, c, have))


def case_flood(h, p):
    """More requests than the handler thread queues, while it is stuck: still one reply each."""
    import threading
    n, = p
    gate = threading.Event()

    def request_slow(self, req, msg):
        "doc"
        gate.wait(20)
        return req.make_reply('ok')
    with World() as w:
        Dev = device([], [w])
        Dev = type('Dev2', (Dev,), {'request_slow': K.concurrent_reply(request_slow)})
        dev = Dev('127.0.0.1', 0)
        dev.set_ioloop(w.loop)
        dev.set_concurrency_options(thread_safe=True, handler_thread=True)
        dev.start()
        w.settle()
        peers = [w.connect(dev) for _ in range(n)]
        for q in peers:
            q.lines()
        ids = [b'[%d]' % (i + 1) if i % 2 else b'' for i in range(n)]
        for i, q in enumerate(peers):
            q.send(b'?slow%s\n' % ids[i], settle=False)
        for _ in range(5):
            w.settle()
        gate.set()
        got = [[] for _ in peers]
        deadline = REAL_TIME() + 5
        while REAL_TIME() < deadline and not all(got):
            _time.sleep(0.01)
            w.settle()
            for q, g in zip(peers, got):
                l = q.lines(settle=False)
                if l:
                    g += l
                    deadline = REAL_TIME() + 5          # (5 s without any reply are the end)
        dev.stop()
        w.settle()
    bad = [(i, g) for i, g in enumerate(got) if len([l for l in g if l.startswith(b'!slow%s ' % ids[i])]) != 1]
    h.nontrivial('flood')
    h.check('every request of a flood gets its one reply', not bad, repr(bad[:5]))
