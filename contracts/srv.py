"""Shared harness of the server contracts: a real DeviceServerBase/ClientConnection over a recording transport."""
from .common import *          # noqa

SRC = '''
class Net(object):
    """Recording transport with the interface of KATCPServer towards its connections."""
    def __init__(self):
        self.sent = []
        self.mass = []
    def send_message(self, stream, msg):
        self.sent.append((stream, msg.mtype, msg.name, msg.mid, list(msg.arguments), msg))
    send_message_from_thread = send_message
    def mass_send_message(self, msg):
        self.mass.append((msg.mtype, msg.name, msg.mid, list(msg.arguments), msg))
    mass_send_message_from_thread = mass_send_message
    def get_address(self, stream):
        return 'address of ' + stream
    def flush_on_close(self, stream):
        return None

class Dev(Base):
    """device"""
    def __init__(self):
        pass

class Log(object):
    def __init__(self):
        self.n = 0
    def debug(self, *a, **k):
        self.n += 1
    info = warn = warning = error = exception = critical = log = debug
'''


class Rig(object):
    def __init__(self, cx, base='DeviceServerBase', threadsafe=None):
        self.cx, self.ip = cx, cx.interp
        ip = self.ip
        self.repr = None
        # Message.__repr__ (log texts only): by contract, arbitrary text; that it never raises is proved ('repr' contract of C06)
        cx.stubs['katcp.core:Message.__repr__'] = lambda ip2, a, k: self.repr or SStr(z3.String(cx.name('repr')))
        self.ns = run_src(ip, SRC, Base=ip.get('katcp.server:' + base))
        self.net = ip.call(self.ns['Net'], [])
        self.dev = ip.call(self.ns['Dev'], [])
        self.loop = L.NIOLoop()
        self.dev.attrs.update(_logger=ip.call(self.ns['Log'], []), ioloop=self.loop, _tb_limit=20, _server=self.net)
        if threadsafe is None:
            threadsafe = cx.pick('connection', ['plain', 'thread-safe']) == 'thread-safe'
        self.C = ip.get('katcp.server:' + ('ThreadsafeClientConnection' if threadsafe else 'ClientConnection'))
        self.M = ip.get('katcp.core:Message')
        self.REQUEST, self.REPLY, self.INFORM = [ip.getattr(self.M, n) for n in ('REQUEST', 'REPLY', 'INFORM')]

    def conn(self, stream):
        return self.ip.call(self.C, [self.net, stream])

    def sent(self, stream=None):
        return [e for e in self.net.attrs['sent'] if stream is None or e[0] == stream]

    def msg(self, kind, name, *args, **kw):
        return self.ip.call(self.ip.getattr(self.M, kind), [name] + list(args), kw)

    def request(self, name='do-it', args=None):
        """A request with an arbitrary id (or none) and arbitrary arguments."""
        cx = self.cx
        mid = None if cx.pick('request id', ['absent', 'present']) == 'absent' else cx.bytes('mid')
        if mid is not None:
            cx.assume(z3.InRe(mid.t, R('digits')))
        args = [cx.bytes('arg0')] if args is None else args
        return self.ip.call(self.M, [self.REQUEST, name, args, mid]), mid


def same_id(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    return t(a) == t(b)
