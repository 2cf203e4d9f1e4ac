"""Deterministic world for running the real servers and clients: one tornado IOLoop whose clock is virtual,
real loopback sockets, raw peers that speak bytes."""
from common import *      # noqa
import select
import socket
import time as _time
import tornado.ioloop
from tornado.ioloop import PollIOLoop, IOLoop

REAL_TIME = _time.time
T0 = 1000000000.0


class Clock(object):
    def __init__(self):
        self.now = T0

    def __call__(self):
        return self.now


CLOCK = Clock()
_time.time = CLOCK
import common as _c            # the harness keeps real time
class _RT(object):
    def __getattr__(self, n):
        return REAL_TIME if n == 'time' else getattr(_time, n)
_c.time = _RT()


class VPoll(object):
    """epoll with a virtual clock: real readiness first, then jump to the next timer."""

    def __init__(self):
        self.ep = select.epoll()
        self.loop = None
        self.idle = 0

    def fileno(self):
        return self.ep.fileno()

    def close(self):
        self.ep.close()

    def register(self, fd, ev):
        self.ep.register(fd, ev)

    def modify(self, fd, ev):
        self.ep.modify(fd, ev)

    def unregister(self, fd):
        self.ep.unregister(fd)

    def poll(self, timeout):
        ev = self.ep.poll(0)
        if ev or not timeout > 0:
            self.idle = 0 if ev else self.idle + 1
            if self.idle > 20000:           # something reschedules itself without pause: do not hang on it
                self.idle = 0
                self.loop.stop()
            return ev
        self.idle = 0
        ev = self.ep.poll(0.0003)
        if ev:
            return ev
        loop = self.loop
        limit = loop.until
        if limit is None or CLOCK.now + timeout > limit:
            if limit is not None:
                CLOCK.now = max(CLOCK.now, limit)
            loop.stop()
            return []
        CLOCK.now = CLOCK.now + timeout
        return []


class VLoop(PollIOLoop):
    def initialize(self, **kw):
        self.until = None
        impl = VPoll()
        impl.loop = self
        super(VLoop, self).initialize(impl=impl, time_func=CLOCK, **kw)

    def timers(self):
        """number of scheduled, not cancelled timers."""
        return len([x for x in self._timeouts if x.callback is not None])


class World(object):
    """with World() as w: ... settle() runs everything that can run without time passing; run(dt) lets time pass."""

    def __init__(self, server=None):
        self.closers = []

    def __enter__(self):
        CLOCK.now = T0
        self.loop = VLoop(make_current=False)
        self.loop.make_current()
        self.old_thread_ident = None
        return self

    def __exit__(self, *a):
        for c in self.closers:
            try:
                c()
            except Exception:
                pass
        try:
            self.loop.until = None
            IOLoop.clear_current()
            self.loop.close(all_fds=True)
        except Exception:
            pass

    def settle(self):
        self.loop.until = None
        self.loop.start()

    def run(self, dt):
        self.loop.until = CLOCK.now + dt
        self.loop.start()
        self.loop.until = None

    def now(self):
        return CLOCK.now

    def serve(self, dev, start=True):
        dev.set_ioloop(self.loop)
        dev.set_concurrency_options(thread_safe=False, handler_thread=False)
        if start:
            dev.start()
            self.settle()
        return dev

    def connect(self, dev, settle=True):
        p = Peer(self, dev.bind_address)
        self.closers.append(p.close)
        if settle:
            self.settle()
        return p

    def listen(self):
        s = Listener(self)
        self.closers.append(s.close)
        return s


class Peer(object):
    """A raw connection to a server."""

    def __init__(self, w, addr=None, sock=None):
        self.w = w
        if sock is None:
            sock = socket.socket()
            sock.connect(addr)
        self.s = sock
        self.s.setblocking(False)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b''
        self.eof = False

    def send(self, data, settle=True):
        self.s.setblocking(True)
        self.s.sendall(data)
        self.s.setblocking(False)
        if settle:
            self.w.settle()

    def pump(self):
        while not self.eof:
            try:
                d = self.s.recv(65536)
            except (BlockingIOError, InterruptedError):
                break
            except OSError:
                self.eof = True
                break
            if not d:
                self.eof = True
                break
            self.buf += d

    def lines(self, settle=True):
        """complete lines received since the last call."""
        if settle:
            self.w.settle()
        self.pump()
        ls = self.buf.split(b'\n')
        self.buf = ls[-1]
        return [l for l in ls[:-1] if l]

    def msgs(self, settle=True):
        from katcp import MessageParser
        return [MessageParser().parse(l) for l in self.lines(settle)]

    def close(self, settle=False):
        try:
            self.s.close()
        except Exception:
            pass
        if settle:
            self.w.settle()

    def reset(self):
        """abortive close (RST)."""
        import struct
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()


class Listener(object):
    def __init__(self, w):
        self.w = w
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(5)
        self.s.setblocking(False)
        self.addr = self.s.getsockname()

    def accept(self):
        """the next connection, or None."""
        try:
            c, _ = self.s.accept()
        except (BlockingIOError, InterruptedError):
            return None
        p = Peer(self.w, sock=c)
        self.w.closers.append(p.close)
        return p

    def close(self):
        self.s.close()


def is_async(m):
    """informs not belonging to any request (announcements)."""
    return m.mtype == m.INFORM and m.name in ('version-connect', 'client-connected', 'client-disconnected',
                                              'disconnect', 'log', 'sensor-status', 'interface-changed', 'version',
                                              'build-state', 'sensor-value')
