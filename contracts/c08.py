"""C08: contracts on the read loops of server and client (Hoare rule, arbitrary iteration), on dispatch and on the handler thread."""
from .srv import *          # noqa
from . import c06

MODULES = ['core', 'kattypes', 'server', 'client']
UNDER_CONTRACT = ['server.KATCPServer._line_read_loop', 'client.DeviceClient._line_read_loop', 'client.DeviceClient.handle_message',
                  'client.DeviceClient.handle_inform/handle_reply/handle_request', 'server.MessageHandlerThread.run',
                  'server.MessageHandlerThread.on_message']
ASSUMPTIONS = ['IOStream.read_until_regex(rb"\\n|\\r") yields, in order, each piece of the byte stream up to and including the first '
               'terminator, whatever the packets (tornado)', 'MessageParser.parse returns a message or raises (C02)',
               'formatting a log inform and KATCPServer.send_message do not raise (C22, C25)',
               'handlers raise Exceptions and the futures they return are resolved some time']
SRC = '''
class Stream(object):
    error = None
    def __init__(self):
        self.ended = False
    def closed(self):
        return closed(self)
    def read_until_regex(self, rx, max_bytes=None):
        return read(self, rx)
    def close(self, exc_info=False):
        self.ended = True
class Parser(object):
    def parse(self, line):
        return parse(line)
class Device(object):
    def on_message(self, conn, msg):
        return handle(conn, msg)
    def create_log_inform(self, level, msg, name, timestamp=None):
        return inform(level, msg, name)
class Timer(object):
    def check_future(self, f):
        pass
    def time_to_yield(self):
        return late()
'''


class Peer(object):
    """One iteration's worth of a connection: what the stream, the parser and the handlers do."""

    def __init__(self, cx, rig):
        self.cx, self.ip, self.rig = cx, rig.ip, rig
        cx.ghost['coroutines'] = True
        self.loop = L.NIOLoop()
        cx.ghost['ioloop'] = self.loop
        self.sent = []
        self.read_ok = []                # messages of the well-formed lines read
        self.delivered = []
        self.pending = []                # futures still to be resolved, with what happens then
        self.text = None
        self.reads = 0
        self.end = None
        self.stale_msg = rig.msg('request', 'stale')
        ip = self.ip
        self.ns = run_src(ip, SRC, **{k: ip.lib.N(getattr(self, k), k) for k in
                                      ('closed', 'read', 'parse', 'handle', 'inform', 'late')})
        self.stream = ip.call(self.ns['Stream'], [])

    def later(self, act):
        f = IFuture()
        self.pending.append((f, act))
        return f

    def closed(self, st):
        if self.end is None and self.cx.pick('the connection is', ['open', 'closed']) == 'closed':
            self.end = 'closed'
        return self.end is not None

    def late(self):
        return self.cx.pick('late', [False, True])

    def read(self, st, rx):
        cx, ip = self.cx, self.ip
        if not (isinstance(rx, bytes) and rx == b'\n|\r'):
            raise Unsupported('reads with another pattern')
        self.reads += 1
        what = cx.pick('read', ['line', 'line', 'line', 'empty', 'closed', 'error'][1:])
        now = cx.pick('read is', ['ready', 'pending'])
        if what == 'closed':
            self.end = 'closed'
            return self.done(now, PyExc(ip.call(ip.lib.mod_closed(), [])))
        if what == 'error':
            self.end = 'error'
            return self.done(now, PyExc(OSError('boom')))
        txt = b'' if what == 'empty' else cx.bytes('line')
        if what == 'line':
            cx.assume(z3.InRe(txt.t, z3.Plus(z3.Union(re_range(0, 9), re_range(11, 12), re_range(14, 255)))))
        self.text = txt
        term = cx.pick('terminator', [b'\n', b'\r'])
        return self.done(now, (txt + term) if what == 'empty' else ip.binop(__import__('ast').Add(), txt, term))

    def done(self, now, v):
        f = self.later(v)
        if now == 'ready':
            self.settle()
        return f

    def settle(self):
        while self.pending:
            f, v = self.pending.pop(0)
            if isinstance(v, PyExc):
                f.m_set_exception(self.ip, v.value)
            else:
                f.m_set_result(self.ip, v)

    def parse(self, line):
        cx, ip = self.cx, self.ip
        cx.prove('exactly the text of the line is parsed', self.text is not None and z3.And(t(line) == t(self.text)), info=line)
        k = cx.pick('the line is', ['a message', 'unparsable', 'failing otherwise'])
        if k == 'a message':
            m = self.rig.msg('request', 'do-it', b'%d' % len(self.read_ok))
            self.read_ok.append(m)
            return m
        if k == 'unparsable':
            raise PyExc(ip.call(ip.get('katcp.core:KatcpSyntaxError'), ['bad']))
        raise PyExc(ValueError('parser'))

    def handle(self, conn, msg):
        cx, ip = self.cx, self.ip
        self.conn = conn
        self.delivered.append(msg)
        k = cx.pick('handling', ['done', 'raises', 'later', 'later raises', 'failed future', 'nothing'])
        if k == 'raises':
            raise PyExc(ValueError('handler'))
        if k == 'nothing':
            return None
        f = self.later(PyExc(ValueError('late handler')) if k in ('later raises', 'failed future') else None)
        if k in ('done', 'failed future'):
            self.settle()
        return f

    def inform(self, *a):
        return self.rig.msg('inform', 'log', *a)

    def havoc(self, env, names):
        """Any earlier iteration may have left these locals."""
        had = self.cx.pick('earlier iteration', ['none', 'some']) == 'some'
        for nm in sorted(names):
            if not had or nm in env.vars and nm not in ('line', 'msg'):     # kept by the loop from before it: taken as it was on entry
                continue
            env.vars[nm] = b'?stale' if nm == 'line' else [None, self.stale_msg][self.cx.pick('earlier message', [0, 1])] if nm == 'msg' else None

    def check(self, when):
        cx = self.cx
        same = len(self.delivered) == len(self.read_ok) and all(a is b for a, b in zip(self.delivered, self.read_ok))
        cx.prove('every well-formed line read is delivered exactly once and nothing else is', same, info=(when, len(self.delivered), len(self.read_ok)))
        cx.prove('no other connection is touched', all(x is self.stream for x in self.sent) and len(self.sent) <= 1)
        if when == 'kept':
            cx.prove('each turn reads on', self.reads == 1)
            self.kept = True

    def drive(self, f):
        ip = self.ip
        for _ in range(30):
            self.settle()
            if not self.loop.callbacks:
                break
            self.loop.run_next(ip)
        self.cx.prove('it is not left waiting for nothing', f.state != 'pending', info=f.state)


def c_server_loop(cx):
    rig = Rig(cx, threadsafe=False)
    ip = rig.ip
    p = Peer(cx, rig)
    S = ip.get('katcp.server:KATCPServer')
    srv = ip.call(run_src(ip, 'class S(Base):\n    def __init__(self):\n        pass\n    def send_message(self, stream, msg):\n'
                              '        sent.append(stream)\n    def get_address(self, stream):\n        return "address"\n', Base=S, sent=p.sent)['S'], [])
    srv.attrs.update(_device=ip.call(p.ns['Device'], []), _parser=ip.call(p.ns['Parser'], []), _logger=rig.dev.attrs['_logger'],
                     ioloop_thread_id=ip.call(ip.get('katcp.server:get_thread_ident'), []), _tb_limit=20)
    rig.repr = 'repr'
    conn = rig.conn('S1')
    while_invariant(cx, 'katcp.server:KATCPServer._line_read_loop', p.havoc, p.check)
    f = ip.call(ip.getattr(srv, '_line_read_loop'), [p.stream, conn])
    p.drive(f)
    p.check('left')
    cx.prove('the loop never fails', f.state == 'result', info=f.state)
    cx.prove('it ends only when the connection has ended', p.end in ('closed', 'stopped'), info=p.end)
    if p.delivered:
        cx.prove('messages are delivered with their connection', p.conn is conn)


def c_client_loop(cx):
    rig = Rig(cx, threadsafe=False)
    ip = rig.ip
    p = Peer(cx, rig)
    C = ip.get('katcp.client:DeviceClient')
    cl = ip.call(run_src(ip, '''class C(Base):
    def __init__(self):
        self.ended = 0
    def handle_message(self, msg):
        return handle(self, msg)
class Running(object):
    def isSet(self):
        return running()
''', Base=C, handle=ip.lib.N(p.handle, 'handle'), running=ip.lib.N(lambda: running(), 'running'))['C'], [])
    ns = run_src(ip, 'class Running(object):\n    def isSet(self):\n        return running()\n', running=ip.lib.N(lambda: running(), 'running'))

    def running():
        if cx.pick('client', ['running', 'stopped']) == 'stopped':
            p.end = 'stopped'
            return False
        return True
    cl.attrs.update(_running=ip.call(ns['Running'], []), _stream=p.stream, _parser=ip.call(p.ns['Parser'], []), _tb_limit=20,
                    _logger=rig.dev.attrs['_logger'], _bindaddr=('h', 1), ioloop_thread_id=ip.call(ip.get('katcp.client:get_thread_ident'), []))
    rig.repr = 'repr'
    cx.stubs['katcp.core:LatencyTimer'] = lambda ip2, a, k: ip2.call(p.ns['Timer'], [])

    def havoc(env, names):
        p.havoc(env, names)
        if cx.pick('stream', ['there', 'gone']) == 'gone':          # closed while an earlier message was handled
            cl.attrs['_stream'] = None
            p.end = 'closed'
    check = p.check

    def chk(when):
        if when == 'kept' and p.end == 'error':
            cx.prove('a read error closes the connection', p.stream.attrs['ended'] is True)
        if when == 'kept' and p.end == 'closed':
            return
        check(when)
    while_invariant(cx, 'katcp.client:DeviceClient._line_read_loop', havoc, chk)
    f = ip.call(ip.getattr(cl, '_line_read_loop'), [])
    p.drive(f)
    p.check('left')
    cx.prove('the loop never fails', f.state == 'result', info=(f.state, ename(f.value) if f.state == 'exc' else ''))
    cx.prove('it ends only when the connection has ended', p.end in ('closed', 'stopped', 'error'), info=p.end)


DISP = '''
def h(self, msg):
    calls.append((self, msg))
    return outcome()
class C(Base):
    def __init__(self):
        pass
    def send_message(self, msg):
        sent.append(msg)
    def unhandled_inform(self, msg):
        calls.append(('unhandled', msg))
    unhandled_reply = unhandled_request = unhandled_inform
def table(name):
    return {name: h}
'''


def c_client_dispatch(cx):
    """Any message from the server reaches exactly the handler of its kind and name; dispatching never raises."""
    rig = Rig(cx, threadsafe=False)
    ip = rig.ip
    rig.repr = 'repr'
    calls, sent = [], []
    kind = cx.pick('handler', ['returns', 'raises', 'reply', 'wrong reply', 'future'])

    def outcome():
        if kind == 'raises':
            raise PyExc(ValueError('boom'))
        return {'returns': None, 'reply': rig.msg('reply', 'do-it', b'ok'), 'wrong reply': rig.msg('reply', 'do-other', b'ok'),
                'future': IFuture()}[kind]
    ns = run_src(ip, DISP, Base=ip.get('katcp.client:DeviceClient'), calls=calls, sent=sent, outcome=ip.lib.N(outcome, 'outcome'))
    cl = ip.call(ns['C'], [])
    mt = cx.pick('type', ['inform', 'reply', 'request'])
    for k in ('inform', 'reply', 'request'):
        cl.attrs['_%s_handlers' % k] = ip.call(ns['table'], ['do-it' if cx.pick('%s table' % k, ['has', 'lacks']) == 'has' else 'do-not'])
    has = ip.truth(ip.contains(cl.attrs['_%s_handlers' % mt], 'do-it'))
    cl.attrs.update(_tb_limit=20, _bindaddr=('h', 1), _logger=ip.call(run_src(ip, '''
class Log(object):
    def isEnabledFor(self, level):
        return enabled()
    def debug(self, *a, **k):
        pass
    info = warn = warning = error = exception = critical = log = debug
''', enabled=ip.lib.N(lambda: cx.pick('debug', [False, True]), 'enabled'))['Log'], []))
    mid = cx.bytes('mid') if cx.pick('id', ['absent', 'present']) == 'present' else None
    if mid is not None:
        cx.assume(z3.InRe(mid.t, R('digits')))
    m = ip.call(rig.M, [getattr(rig, mt.upper()), 'do-it', [cx.bytes('a')], mid])
    st, r = attempt(ip, ip.getattr(cl, 'handle_message'), m)
    cx.prove('dispatching never raises', st == 'ok', info=ename(r))
    cx.prove('one handler gets the message', len(calls) == 1 and calls[0][1] is m and (calls[0][0] is cl) == has, info=(len(calls), has))
    if not has:
        cx.prove('nothing is sent', sent == [])
    elif mt == 'request' and kind == 'reply':
        cx.prove('a returned reply is sent with the id of the request', len(sent) == 1 and same_id(sent[0].attrs['mid'], mid))
    else:
        cx.prove('nothing is sent', sent == [])
    if kind == 'future' and has:
        cx.prove('the loop waits for the handler', isinstance(r, IFuture))


CONTRACTS = {'client-dispatch': (c_client_dispatch, {}), 'server-loop': (c_server_loop, {'expect': ['loop iteration', 'each turn reads on']}),
             'client-loop': (c_client_loop, {'expect': ['loop iteration', 'each turn reads on']}),
             'thread-run': (c06.c_thread_run, {}), 'thread-queue': (c06.c_thread_queue, {}),
             'thread-race': (c06.c_thread_race, {'bounded': 'two messages arriving while the thread runs'})}
