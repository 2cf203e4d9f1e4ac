"""A real AsyncClient, connected over a ghost stream to a ghost ioloop (shared by C13, C14 and others)."""
import ast

from .common import *          # noqa

SRC = '''
class Sock(object):
    def getsockname(self):
        return ('local', 1)
class Stream(object):
    """IOStream as the client sees it: what is written is recorded, reads stay open, closing ends them and calls the close callback later"""
    error = None
    def __init__(self, loop, future, closed_error, log, fails):
        self.loop, self.future, self.closed_error, self.log, self.fails = loop, future, closed_error, log, fails
        self.socket = Sock()
        self.is_closed = False
        self.reading = None
        self.on_close = None
    def set_close_callback(self, cb):
        self.on_close = cb
    def set_nodelay(self, value):
        pass
    def write(self, data):
        if self.is_closed:
            raise self.closed_error()
        if self.fails():
            raise ValueError('write fails')
        self.log.append(data)
        return self.future()
    def closed(self):
        return self.is_closed
    def read_until_regex(self, regex, max_bytes=None):
        self.reading = self.future()
        if self.is_closed:
            self.reading.set_exception(self.closed_error())
        return self.reading
    def close(self, exc_info=False):
        if self.is_closed:
            return
        self.is_closed = True
        if self.reading is not None and not self.reading.done():
            self.reading.set_exception(self.closed_error())
        if self.on_close is not None:
            self.loop.add_callback(self.on_close)
class Tcp(object):
    def __init__(self, connect):
        self.connect_ = connect
    def connect(self, host, port, **kw):
        return self.connect_()
class Log(object):
    def isEnabledFor(self, level):
        return False
    def debug(self, *a, **k):
        pass
    info = warn = warning = error = exception = critical = log = debug
'''


class Cli(object):
    def __init__(self, cx, timeout=None, cls='AsyncClient', sub='', start=True, auto_reconnect=None, **names):
        self.cx, ip = cx, cx.interp
        self.ip = ip
        cx.ghost['coroutines'] = True
        cx.ghost['thread_ident'] = 1
        self.loop = cx.ghost['ioloop'] = L.NIOLoop()
        self.loop.now = cx.real('now')
        self.n = 0
        self.wire = []
        self.write_fails = False
        self.streams = []
        self.refuse = False
        cx.stubs['katcp.core:Message.__repr__'] = lambda ip2, a, k: SStr(z3.String(cx.name('repr')))
        cx.stubs['katcp.core:Message.__str__'] = self.text_of
        names.update(Base=ip.get('katcp.client:' + cls), client=self)
        self.ns = run_src(ip, SRC + (sub or 'class C(Base):\n    pass\n'), **{k: (ip.lib.N(v, k) if callable(v) and not isinstance(v, (I.IFunc, I.IClass, NObj)) else v) for k, v in names.items() if k != 'client'})
        cx.ghost['opaque:tornado.tcpclient.TCPClient'] = lambda ip2, a, k: ip2.call(self.ns['Tcp'], [ip.lib.N(self.connect, 'connect')])
        kw = {'logger': ip.call(self.ns['Log'], [])}
        if timeout is not MISSING_:
            kw['timeout'] = timeout
        if cls == 'DeviceClient':
            kw.pop('timeout', None)
        if auto_reconnect is not None:
            kw['auto_reconnect'] = auto_reconnect
        self.c = ip.call(self.ns['C'], ['h', 1], kw)
        self.M = ip.get('katcp.core:Message')
        ip.call(ip.getattr(self.c, 'set_ioloop'), [self.loop])
        if start:
            self.start()

    def start(self):
        self.ip.call(self.ip.getattr(self.c, 'start'), [])
        self.drain()

    def connect(self):
        f = IFuture()
        if self.refuse:
            f.state, f.value = 'exc', IOError('refused')
            return f
        ip = self.ip
        s = ip.call(self.ns['Stream'], [self.loop, Native(lambda ip2, a, k: IFuture(), 'Future'), ip.lib.mod_closed(), self.wire, ip.lib.N(lambda: self.write_fails, 'fails')])
        self.streams.append(s)
        f.state, f.value = 'result', s
        return f

    @property
    def stream(self):
        return self.streams[-1]

    def drain(self):
        self.loop.drain(self.ip, 200)

    def text_of(self, ip, a, k):
        """contract of str(message): its text, which must be UTF-8"""
        if getattr(self, 'not_utf8', False):
            raise PyExc(UnicodeDecodeError('utf-8', b'?', 0, 1, 'not UTF-8'))
        return SStr(z3.String(self.cx.name('str')))

    def m(self, name, *a, **k):
        return attempt(self.ip, self.ip.getattr(self.c, name), *a, **k)

    def later(self):
        self.n += 1
        new = self.cx.real('time%d' % self.n)
        self.cx.assume(new.t >= self.loop.now.t, False)
        for h in self.loop.active():
            self.cx.assume(t(h.when) > new.t, False)
        self.loop.now = new

    def fire(self, h):
        for g in self.loop.active():
            if g is not h:
                self.cx.assume(t(g.when) >= t(h.when), False)
        self.n += 1
        new = self.cx.real('time%d' % self.n)
        self.cx.assume(z3.And(new.t >= t(h.when), new.t >= self.loop.now.t))
        self.loop.now = new
        return self.loop.fire(self.ip, h)

    def msg(self, kind, name, *args, **kw):
        return self.ip.call(self.ip.getattr(self.M, kind), [name] + list(args), kw)

    def flags(self, major, minor, flags):
        return self.ip.call(self.ip.get('katcp.core:ProtocolFlags'), [major, minor, flags])

    def speak(self, ids):
        """the server announces a protocol with or without message ids"""
        f = self.flags(5, 0, ISet([b'M', b'I']) if ids else ISet([b'M']))
        self.ip.setattr(self.c, 'protocol_flags', f)

    def close(self):
        """the connection is closed by the other side"""
        self.ip.call(self.ip.getattr(self.stream, 'close'), [])


MISSING_ = object()
