"""C07 executable contract: what handlers send through their request handles reaches the requester, tied to the request, in order, until the reply."""
from net import *      # noqa
from msgspec import spec_parse
from katcp import DeviceServer, ProtocolFlags, Message, AsyncReply
from katcp import kattypes as K

RULE = 'random scripts of handle operations (inform, reply, reply_with_message, through attributes or methods saved earlier) of several overlapping requests of two clients, spread over virtual time and going on after the reply'
BOUNDS = 'up to 5 overlapping requests, up to 8 operations each'
FUNCTIONS = ['server.ClientRequestConnection', 'server.ClientConnection', 'core.Message.reply_to_request', 'core.Message.reply_inform']
VALS = [b'', b'a b', b'\xff\n\0', u'\u00e9', 5, -3, True, 1.5, b'x' * 50]


def enc(v):
    if isinstance(v, bool):
        return b'1' if v else b'0'
    if isinstance(v, (int, float)):
        return repr(v).encode()
    return v if isinstance(v, bytes) else v.encode('utf8')


def cases(h):
    r = h.rng
    for i in range(h.n(250, 8000)):
        reqs = []
        for _ in range(r.randrange(1, 6)):
            ops, t = [], 0.0
            for _ in range(r.randrange(1, 9)):
                t += r.choice([0, 0, .25, 1])
                ops.append((t, r.choice(['inform', 'inform', 'inform', 'reply', 'rwm', 'inform-saved', 'reply-saved']),
                            [r.choice(VALS) for _ in range(r.randrange(0, 4))]))
            reqs.append((r.randrange(2), r.choice(['do-a', 'do-b']), r.choice([None, b'%d' % r.randrange(1, 50)]), ops))
        yield 'script', (reqs, r.choice([4, 5]))
    for mid in (None, b'5', b'0'):
        for own in (None, b'9'):
            yield 'connection', (mid, own)


def case_script(h, p):
    reqs, major = p
    log = []                       # expected: (client, type, name, mid, args) in the order of the operations
    refused = []
    todo = list(reqs)

    def start(dev, req, msg):
        client, name, mid, ops = todo[int(msg.arguments[0])]
        saved = {'inform': req.inform, 'reply': req.reply}
        state = {'done': False}

        def do(op, vals):
            kind, _, sv = op.partition('-')
            f = saved[kind] if sv else getattr(req, {'rwm': 'reply_with_message'}.get(kind, kind))
            args = [Message.reply(name, *vals)] if kind == 'rwm' else vals
            try:
                f(*args)
            except Exception as e:
                refused.append((state['done'], repr(e)))
                return
            log.append((state['done'], client, 2 if kind == 'inform' else 1, name, mid, [enc(v) for v in vals]))
            if kind != 'inform':
                state['done'] = True
        for t, op, vals in ops:
            if t == 0:
                do(op, vals)
            else:
                w.loop.call_later(t, do, op, vals)
        raise AsyncReply()

    def request_do_a(self, req, msg):
        "doc"
        return start(self, req, msg)

    def request_do_b(self, req, msg):
        "doc"
        return start(self, req, msg)
    Dev = type('Dev', (DeviceServer,), {'request_do_a': request_do_a, 'request_do_b': request_do_b, 'setup_sensors': lambda self: None,
                                        'PROTOCOL_INFO': ProtocolFlags(major, 0, [b'I', b'M'] if major > 4 else [b'M']), 'VERSION_INFO': ('a', 1, 0),
                                        'BUILD_INFO': ('b', 1, 0, '')})
    with World() as w:
        dev = w.serve(Dev('127.0.0.1', 0))
        cs = [w.connect(dev), w.connect(dev)]
        for c in cs:
            c.lines()
        for i, (client, name, mid, ops) in enumerate(reqs):
            cs[client].send(b'?' + name.encode() + (b'' if mid is None else b'[' + mid + b']') + b' %d\n' % i, settle=i % 2 == 0)
        w.settle()
        w.run(20)
        got = [[spec_parse(l) for l in c.lines()] for c in cs]
    h.check('after its reply a request sends nothing more', not [e for e in log if e[0]], '%r %r' % (p, log))
    h.check('before it nothing is refused', not [e for e in refused if not e[0]], '%r %r' % (p, refused))
    h.nontrivial((len(log), len(refused)))
    for i in range(2):
        want = [(e[2], e[3], e[4], e[5]) for e in log if e[1] == i]
        have = [(m[0], m[1], m[2], list(m[3])) for m in got[i]]
        h.check('each client receives exactly what was sent for its requests, in order', have == want, '%r: client %d got %r, expected %r' % (p, i, have, want))


def case_connection(h, p):
    """replies and informs sent through the connection in answer to a request carry the id of that request, whatever id the message had"""
    mid, own = p

    def request_do_a(self, req, msg):
        "doc"
        conn = req.client_connection
        conn.reply_inform(Message.inform('do-a', 'first', mid=own), msg)
        self.reply_inform(conn, Message.inform('do-a', 'second', mid=own), msg)
        conn.reply(Message.reply('do-a', 'ok', mid=own), msg)
        raise AsyncReply()
    Dev = type('Dev', (DeviceServer,), {'request_do_a': request_do_a, 'setup_sensors': lambda self: None, 'PROTOCOL_INFO': ProtocolFlags(5, 0, [b'I', b'M']),
                                        'VERSION_INFO': ('a', 1, 0), 'BUILD_INFO': ('b', 1, 0, '')})
    with World() as w:
        dev = w.serve(Dev('127.0.0.1', 0))
        c = w.connect(dev)
        c.lines()
        c.send(b'?do-a%s\n' % (b'' if mid is None else b'[%s]' % mid))
        got = [(m[0], m[1], m[2], list(m[3])) for m in map(spec_parse, c.lines())]
    want = [(2, 'do-a', mid, [b'first']), (2, 'do-a', mid, [b'second']), (1, 'do-a', mid, [b'ok'])]
    h.check('answers through the connection carry the id of their request', got == want, '%r: %r' % (p, got))
    h.nontrivial(p)
