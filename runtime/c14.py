"""C14 executable contract: what a real client knows of its server's protocol, and what it does with it."""
from net import *      # noqa
from katcp import AsyncClient, DeviceClient, Message
from katcp.core import ProtocolFlags

RULE = 'random announcements (new and old style, repeated, contradicting, malformed, other components), presets before and while running, reconnects, restarts, requests with every id option through every api'
BOUNDS = 'up to 25 steps per history'
FUNCTIONS = ['client.DeviceClient', 'client.AsyncClient']
VERSIONS = [(4, 0, ''), (5, 0, 'MI'), (5, 0, 'I'), (5, 0, 'M'), (5, 0, ''), (5, 1, 'IMTB'), (5, 1, 'TB'), (6, 12, 'MI'), (4, 3, ''), (12, 0, 'I'), (5, 0, 'I\xff')]


def cases(h):
    r = h.rng
    for i in range(h.n(420, 12000)):
        yield 'history', (r.randrange(1 << 30), ['AsyncClient', 'DeviceClient'][i % 2], r.random() < .3, r.randrange(2, 26))
    for i in range(h.n(200, 4000)):
        yield 'seconds', (r.choice([1, 2, 3, 4, 5, 6, 10]), r.choice([0, .0004, .0016, 1.5, 12, 1700000000.123, round(r.random() * 100, 4)]))


def flags(v):
    return ProtocolFlags(v[0], v[1], set(x.encode('latin-1') for x in v[2]))


class T(object):
    def __init__(self, h, w, seed, cls, preset):
        import random
        self.h, self.w, self.r, self.cls = h, w, random.Random(seed), cls
        self.lis = w.listen()
        self.c = {'AsyncClient': AsyncClient, 'DeviceClient': DeviceClient}[cls]('127.0.0.1', self.lis.addr[1])
        self.c.set_ioloop(w.loop)
        w.closers.append(self.c.stop)
        self.log, self.seen, self.auto, self.own = [], [], [], []
        self.known = self.preset = None
        self.live = True
        self.up = False
        if preset:
            self.set_preset()
        self.check()
        self.start()

    def start(self):
        self.c.start()
        self.w.run(.03)
        self.peer = self.lis.accept()
        self.h.check('the client connects', self.peer is not None, self.log)
        self.up = True
        self.wait = self.c.until_protocol()

    def set_preset(self):
        self.known = self.preset = self.r.choice(VERSIONS)
        self.log.append(('preset', self.known))
        self.c.preset_protocol_flags(flags(self.known))

    def check(self):
        c, h = self.c, self.h
        if self.known is None:
            h.check('no protocol is known before the server announced one', c.protocol_flags is None, self.log)
        else:
            h.check('the protocol known is the one announced or preset', c.protocol_flags == flags(self.known), lambda: (self.log, c.protocol_flags and (c.protocol_flags.major, c.protocol_flags.minor, c.protocol_flags.flags), self.known))
        if self.up:
            self.w.settle()
            h.check('the protocol is received exactly once it is known', self.c.until_protocol().done() == (self.known is not None), self.log)
            h.check('waiting for the protocol ends exactly then', self.wait.done() == (self.known is not None), self.log)

    def announce(self):
        r = self.r
        k = r.choice(['new', 'new', 'new', 'same', 'version', 'build-state', 'other', 'short', 'other bad', 'bad extra'])
        new = None
        if k in ('new', 'same', 'bad extra'):
            new = self.known if k == 'same' and self.known else r.choice(VERSIONS)
            # (usually the server is consistent)
            if k == 'new' and self.known and r.random() < .6:
                new = self.known
            line = '#version-connect katcp-protocol %d.%d%s' % (new[0], new[1], '-' + new[2] if new[2] else '')
            line = line.encode('latin-1') + r.choice([b'', b' extra', b' one two'])
            if k == 'bad extra':
                line += b' \xff\xfe'
        elif k in ('version', 'build-state'):
            line = b'#' + k.encode() + r.choice([b'', b' some-3.2', b' a b'])
            new = (4, 0, '')
        elif k == 'other':
            line = r.choice([b'#version-connect katcp-library lib-1.2', b'#version-connect katcp-device dev 12', b'#version-connect Katcp-protocol 4.0', b'#version-connect katcp-protocol- 4.0'])
        elif k == 'short':
            line = r.choice([b'#version-connect', b'#version-connect katcp-protocol', b'#version-connect 5.0-MI'])
        else:
            line = b'#version-connect \xff\xfe 5.0'
        self.log.append(line)
        self.peer.send(line + b'\n')
        self.w.settle()
        if new is None or self.preset:
            return
        if self.known is not None and flags(self.known) != flags(new):
            self.live = self.up = False
        self.known = new

    def dead(self):
        """the server contradicted itself: the client leaves for good"""
        self.w.run(3)
        self.peer.lines()
        self.h.check('a contradicted client leaves', self.peer.eof, self.log)
        self.h.check('and does not come back', self.lis.accept() is None, self.log)

    def request(self):
        r, h = self.r, self.h
        name = r.choice(['x', 'y'])
        apis = ['request', 'callback', 'future'] if self.cls == 'AsyncClient' else ['request']
        api = r.choice(apis)
        use = r.choice([None, None, None, True, False])
        own = None
        if r.random() < .3:
            own = r.choice([1, 2, 3, 7, 100000 + r.randrange(1000)])
            if api != 'request' and (str(own) in self.own or b'%d' % own in self.auto):
                own = 200000 + len(self.log)
        msg = Message.request(name, *r.choice([(), ('a',), ('b', '')]), **({} if own is None else {'mid': own}))
        self.log.append((api, name, use, own))
        kw = {} if use is None else {'use_mid': use}
        self.peer.lines()
        ids = self.known is not None and 'I' in self.known[2] and self.known[0] >= 5
        demanded = own is not None or use is True
        got, ret = [], None
        if api == 'request':
            if demanded and not ids:
                try:
                    self.c.request(msg, **kw)
                except Exception as e:
                    got.append(e)
                h.check('an id that cannot be honoured is refused', len(got) == 1, self.log)
            else:
                ret = self.c.request(msg, **kw)
        elif api == 'callback':
            self.c.callback_request(msg, reply_cb=got.append, **kw)
        else:
            f = self.c.future_request(msg, **kw)
            if f.done():
                got.append(f.result()[0])
        lines = self.peer.lines()
        if demanded and not ids:
            h.check('an id that cannot be honoured is not sent', lines == [], (self.log, lines))
            if api != 'request':
                h.check('an id that cannot be honoured is refused', len(got) == 1 and not got[0].reply_ok() and got[0].name == name, self.log)
            return
        h.check('one request, one line', len(lines) == 1, (self.log, lines))
        m = [Message_parse(l) for l in lines][0]
        h.check('the request sent is the one given', m.name == name and m.arguments == msg.arguments, (self.log, lines))
        if own is not None:
            h.check('the id chosen by the caller is used', m.mid == b'%d' % own, (self.log, lines))
            if api != 'request':
                self.own.append(str(own))
        elif ids and use is not False:
            h.check('a server that supports ids gets them', m.mid is not None, (self.log, lines))
            h.check('automatic ids are never reused', m.mid not in self.auto, (self.log, lines, self.auto))
            h.check('automatic ids differ from those outstanding', m.mid.decode() not in self.own, (self.log, lines))
            self.auto.append(m.mid)
        else:
            h.check('no id for a server not known to support them, or if declined', m.mid is None, (self.log, lines))
        if api == 'request':
            h.check('request() tells the id used', ret == m.mid, (self.log, ret))


def Message_parse(l):
    from katcp import MessageParser
    return MessageParser().parse(l)


def case_history(h, p):
    seed, cls, preset, steps = p
    with World() as w:
        t = T(h, w, seed, cls, preset)
        t.check()
        for i in range(steps):
            k = t.r.random()
            if not t.live:
                t.dead()
                t.check()
                break
            elif k < .3:
                t.announce()
            elif k < .75:
                t.request()
            elif k < .8:
                t.set_preset()
            elif k < .9:
                t.log.append('reconnect')
                t.peer.close()
                w.run(2)
                t.peer = t.lis.accept()
                h.check('the client reconnects', t.peer is not None, t.log)
                t.own = []
            else:
                t.log.append('restart')
                t.c.stop()
                w.run(2)
                t.peer.close()
                t.up = False
                t.known = t.preset
                t.own = []
                t.start()
            t.check()
    h.nontrivial((cls, str(t.known), len(t.auto), t.live))


def case_seconds(h, p):
    major, s = p
    c = DeviceClient('127.0.0.1', 1)
    c.preset_protocol_flags(ProtocolFlags(major, 0, set()))
    v = c.convert_seconds(s)
    if major >= 5:
        h.check('seconds from version 5 on', v == s, (p, v))
    elif major == 4:
        h.check('milliseconds before', abs(v - s * 1000) < 1e-6 * max(1, abs(s)), (p, v))
    else:
        h.check('whole milliseconds before version 4', v == int(v) and 0 <= s * 1000 - v < 1.0001, (p, v))
    h.nontrivial((major, s))
