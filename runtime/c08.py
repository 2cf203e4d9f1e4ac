"""C08 executable contract: byte streams with good, bad and unhandled lines, in any packets; servers and clients deliver the good ones in order."""
from net import *      # noqa
from wake import case_wake, WAKES
from msgspec import spec_parse
from katcp import DeviceServer, ProtocolFlags, Message, DeviceClient, AsyncClient, AsyncReply
import tornado.gen
import time as _time

RULE = 'random streams of requests/informs/replies with good and failing handlers, unparsable lines, arbitrary bytes and empty lines, with mixed terminators, cut into random packets, on two connections at once; both directions'
BOUNDS = 'up to 25 lines per connection, two connections'
FUNCTIONS = ['server.KATCPServer._line_read_loop', 'client.DeviceClient._line_read_loop', 'client.DeviceClient.handle_message', 'server.DeviceServerBase.handle_message']
TERM = [b'\n', b'\n', b'\r', b'\r\n', b'\n\n', b'\r\r\n']


def rand_line(r, i, req=b'?'):
    k = r.random()
    if k < .45:
        t = r.choice([req, req, b'#', b'!'])
        return t + r.choice([b'good', b'good', b'bad', b'later', b'latebad', b'unknown']) + r.choice([b'', b'[%d]' % i]) + b' %d' % i + \
            r.choice([b'', b' \\_\\@ x', b' \xff\xfe', b'  \t y '])
    if k < .6:
        return r.choice([b'?', b'!', b'#', b'?1', b'x', b'?good[', b'?good[]', b'?good[0x1]', b'?go od\\', b'?good \\q', b'?good \\', b' ?good',
                         b'?good[1] \\x', b'\\n', b'?good\\_x', b'!!', b'?-a'])
    if k < .75:
        return bytes(r.choice([0, 1, 9, 27, 32, 92, 63, 35, 33, 91, 93, 65, 97, 200, 255]) for _ in range(r.randrange(1, 9)))
    if k < .85:
        return b''
    return r.choice([b'?good ', b'#good ', b'?bad ']) + b'z' * r.choice([1, 5000])


def chop(r, data):
    out, i = [], 0
    big = len(data) > 3000
    while i < len(data):
        n = r.choice([1, 2, 3, 7, 20, 100, 1000] if not big else [50, 1000, 4000])
        out.append(data[i:i + n])
        i += n
    return out


def cases(h):
    r = h.rng
    for x in WAKES:
        yield 'wake', x
    for k in range(4):
        yield 'hiccup', (k,)
    for i in range(h.n(150, 6000)):
        streams = []
        for c in range(r.choice([1, 2])):
            ls = [rand_line(r, j) for j in range(r.randrange(1, 26))]
            data = b''.join(l + r.choice(TERM) for l in ls)
            streams.append(chop(r, data))
        yield 'server', (streams, i % 12 == 5)
    for i in range(h.n(150, 6000)):
        ls = [rand_line(r, j, r.choice([b'?', b'#', b'!'])) for j in range(r.randrange(1, 26))]
        yield 'client', (chop(r, b''.join(l + r.choice(TERM) for l in ls)), r.choice(['DeviceClient', 'AsyncClient']))


def lines_of(chunks):
    return [l for l in b''.join(chunks).replace(b'\r', b'\n').split(b'\n')[:-1]]


def key(m):
    return (m.mtype, m.name, m.mid, [bytes(a) for a in m.arguments])


def act(w, name, msg):
    if name == 'bad':
        raise ValueError('bad handler')
    if name in ('later', 'latebad'):
        f = tornado.gen.Future()

        def fin():
            if name == 'latebad':
                f.set_exception(ValueError('later bad'))
            else:
                f.set_result(Message.reply(msg.name, 'ok') if msg.mtype == Message.REQUEST else None)
        w[0].loop.add_callback(lambda: w[0].loop.call_later(0.1, fin))
        return f
    return Message.reply(msg.name, 'ok') if msg.mtype == Message.REQUEST else None


def case_server(h, p):
    streams, threaded = p
    got = {}
    world = [None]

    def hr(name):
        def f(self, req, msg):
            "doc"
            return act(world, name, msg)
        return f

    def hi(name):
        def f(self, conn, msg):
            "doc"
            return act(world, name, msg)
        return f
    d = {'PROTOCOL_INFO': ProtocolFlags(5, 0, [b'I', b'M']), 'setup_sensors': lambda self: None, 'VERSION_INFO': ('a', 1, 0),
         'BUILD_INFO': ('b', 1, 0, '')}
    for n in ('good', 'bad') + (() if threaded else ('later', 'latebad')):
        d['request_' + n] = hr(n)
        d['inform_' + n] = hi(n)
        d['reply_' + n] = hi(n)
    Dev = type('Dev', (DeviceServer,), d)

    class Rec(Dev):
        def handle_message(self, conn, msg):
            got.setdefault(conn._conn_key, []).append(key(msg))
            return super(Rec, self).handle_message(conn, msg)
    Rec.__doc__ = 'x'
    with World() as w:
        world[0] = w
        dev = Rec('127.0.0.1', 0)
        dev.set_ioloop(w.loop)
        dev.set_concurrency_options(thread_safe=threaded, handler_thread=threaded)
        dev.start()
        w.settle()
        peers = [w.connect(dev) for _ in streams]
        keys = list(dev._server._connections.keys()) if hasattr(dev._server, '_connections') else None
        for k in range(max(len(s) for s in streams)):
            for q, s in zip(peers, streams):
                if k < len(s):
                    q.send(s[k], settle=k % 2 == 0)
        w.settle()
        w.run(60)
        for q in peers:
            q.send(b'?watchdog[4321]\n')
        w.settle()
        w.run(60)
        want = []
        for s in streams:
            want.append([m for m in (spec_parse(l) for l in lines_of(s) if l) if m is not None] + [(0, 'watchdog', b'4321', [])])
        if threaded:
            deadline = REAL_TIME() + 20
            while REAL_TIME() < deadline and sum(map(len, got.values())) < sum(map(len, want)):
                _time.sleep(0.002)
                w.settle()
            dev.stop()
            w.settle()
        replies = [q.lines() for q in peers]
    h.nontrivial((sum(len(x) for x in want), sum(1 for s in streams for l in lines_of(s) if l and spec_parse(l) is None)))
    norm = lambda ms: [(m[0], m[1], m[2], list(m[3])) for m in ms]
    left = [norm(v) for v in got.values()]
    for s, wt in zip(streams, want):
        wt = norm(wt)
        h.check('every well-formed line is delivered, once, in order', wt in left, '%r: expected %r, delivered %r' % (s, wt, left))
        left.remove(wt)
    h.check('and nothing else', not left, repr(left))
    if not threaded:
        h.check('the connection still answers', all(any(l.startswith(b'!watchdog[4321] ok') for l in ls) for ls in replies), repr(replies)[:300])


def case_hiccup(h, p):
    """reading fails once (and the connection lives on): every line is still handled once"""
    k, = p
    got = []
    lines = [b'#good %d' % i for i in range(5)]
    with World() as w:
        class Dev(DeviceServer):
            VERSION_INFO, BUILD_INFO = ('a', 1, 0), ('b', 1, 0, '')

            def setup_sensors(self):
                pass

            def handle_message(self, conn, msg):
                got.append(key(msg))
        dev = w.serve(Dev('127.0.0.1', 0))
        peer = w.connect(dev)
        stream = list(dev._server._connections.keys())[0]
        orig, n = stream.read_until_regex, [0]

        def read(*a, **kw):
            n[0] += 1
            if n[0] == k + 1:
                raise ValueError('cannot read')
            return orig(*a, **kw)
        stream.read_until_regex = read
        for l in lines:
            peer.send(l + b'\n')
        w.settle()
        want = [(m[0], m[1], m[2], list(m[3])) for m in map(spec_parse, lines)]
        if not stream.closed():
            h.check('every line is handled once although reading failed', [tuple(m) for m in got] == want, '%r: %r' % (p, got))
        h.nontrivial(p)


def case_client(h, p):
    chunks, cls = p
    got = []
    world = [None]
    Base = {'DeviceClient': DeviceClient, 'AsyncClient': AsyncClient}[cls]

    def hh(name):
        def f(self, msg):
            "doc"
            return act(world, name, msg)
        return f
    d = {}
    for n in ('good', 'bad', 'later', 'latebad'):
        d['inform_' + n] = hh(n)
        d['reply_' + n] = hh(n)
        d['request_' + n] = hh(n)
    Cl = type('Cl', (Base,), d)

    class Rec(Cl):
        def handle_message(self, msg):
            got.append(key(msg))
            return super(Rec, self).handle_message(msg)
    with World() as w:
        world[0] = w
        lis = w.listen()
        c = Rec(lis.addr[0], lis.addr[1])
        c.set_ioloop(w.loop)
        c.start()
        w.run(0.01)
        q = lis.accept()
        for i, ch in enumerate(chunks):
            q.send(ch, settle=False)
            if i % 2:
                w.run(0.001)
        w.run(30)
        q.send(b'#good final\n', settle=False)
        w.run(30)
        c.stop()
        w.run(1)
    want = [m for m in (spec_parse(l) for l in lines_of(chunks) if l) if m is not None] + [(2, 'good', None, [b'final'])]
    want = [(m[0], m[1], m[2], list(m[3])) for m in want]
    h.nontrivial((len(want), cls))
    h.check('the client is given every well-formed line, once, in order', got == want, '%r: expected %r, delivered %r' % (chunks, want, got))
