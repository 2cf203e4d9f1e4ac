"""C25: contracts on the connection table, broadcasts, announcements and orderly disconnection."""
from .srv import *          # noqa

MODULES = ['core', 'kattypes', 'sampling', 'server']
UNDER_CONTRACT = ['server.KATCPServer.' + n for n in ('send_message', 'mass_send_message', '_handle_stream', '_stream_closed_callback', '_disconnect_client',
                                                     '_uninstall', 'flush_on_close', 'call_from_thread', 'send_message_from_thread',
                                                     'mass_send_message_from_thread')] + \
    ['server.ClientConnection', 'server.ThreadsafeClientConnection', 'server.DeviceServer.on_client_connect', 'server.DeviceServer.on_client_disconnect',
     'server.DeviceServer.clear_strategies', 'server.DeviceServer.request_client_list', 'server.DeviceServerBase.mass_inform/inform']
ASSUMPTIONS = ['IOStream.write either takes all the data, in order, to be delivered while the stream stays open, or raises; its future resolves once '
               'everything written is flushed; close() makes the stream closed and has the close callback run later, once (tornado)',
               'writing the empty flush line of an open stream does not raise', 'two connections are different streams', 'iterating a dict or set visits each element once (CPython)',
               'a handler for connections other than DeviceServer\'s resolves its future or not, with any outcome']
SRC = '''
class Stream(object):
    error = None
    max_write_buffer_size = None
    def __init__(self, name):
        self.name = name
        self.shut = 0
        self.written = []
        self.cb = None
        self.mode = 'ok'
        self.flushes = []
        self.sets = 0
    def closed(self):
        return self.shut > 0
    def set_close_callback(self, cb):
        self.cb = cb
    def set_nodelay(self, on):
        if self.mode == 'bad':
            raise ValueError('nodelay')
    def write(self, data):
        if self.shut:
            raise Closed()
        if self.mode == 'raises':
            raise ValueError('write')
        self.written.append(data)
        f = Future()
        self.flushes.append(f)
        return f
    def close(self, exc_info=False):
        if not self.shut:
            closing(self)
            self.shut = 1
            if self.cb is not None:
                loop.add_callback(self.cb)
class Device(object):
    def __init__(self):
        self.left = []
        self.came = []
        self._logger = None
    def on_client_connect(self, conn):
        self.came.append(conn)
        return connect(conn)
    def on_client_disconnect(self, conn, reason, valid):
        self.left.append((conn, reason, valid))
        return disconnect(conn, reason, valid)
class S(Base):
    def __init__(self):
        pass
class D(DBase):
    """device"""
    def __init__(self):
        pass
'''


class Srv(object):
    def __init__(self, cx, real_device=False):
        self.cx, self.ip = cx, cx.interp
        ip = self.ip
        cx.ghost['coroutines'] = True
        self.loop = L.NIOLoop()
        cx.ghost['ioloop'] = self.loop
        self.closings = []
        self.connect_out = self.disconnect_out = None
        cx.stubs['katcp.core:Message.__repr__'] = lambda ip2, a, k: 'repr'
        N = ip.lib.N
        self.escaped = {}
        cx.stubs['katcp.core:Message.__bytes__'] = lambda ip2, a, k: self.wire(a[0])
        self.ns = run_src(ip, SRC, Base=ip.get('katcp.server:KATCPServer'), DBase=ip.get('katcp.server:DeviceServer'), loop=self.loop,
                          Closed=ip.lib.mod_closed(), Future=N(lambda: IFuture(), 'Future'), closing=N(self.closing, 'closing'),
                          connect=N(lambda *a: self.outcome(self.connect_out), 'connect'),
                          disconnect=N(lambda *a: self.outcome(self.disconnect_out), 'disconnect'))
        self.srv = ip.call(self.ns['S'], [])
        log = ip.call(run_src(ip, 'class Log(object):\n    def debug(self, *a, **k):\n        pass\n    info = warn = warning = error = exception = critical = log = debug\n')['Log'], [])
        self.CC = ip.get('katcp.server:ClientConnection')
        self.ident = ip.call(ip.get('katcp.server:get_thread_ident'), [])
        self.table = IDict()
        self.srv.attrs.update(_connections=self.table, _logger=log, ioloop_thread_id=self.ident, ioloop=self.loop, _tb_limit=20,
                              client_connection_factory=self.CC)
        if real_device:
            self.dev = ip.call(self.ns['D'], [])
            self.dev.attrs.update(_logger=log, _server=self.srv, ioloop=self.loop, _client_conns=ISet(), _strategies=IDict())
        else:
            self.dev = ip.call(self.ns['Device'], [])
        self.srv.attrs['_device'] = self.dev
        self.M = ip.get('katcp.core:Message')

    def wire(self, m):
        """Message.__bytes__ by its contract (C01): one line without terminators, a function of the message."""
        add = lambda a, b: self.ip.binop(__import__('ast').Add(), a, b)
        out = {0: b'?', 1: b'!', 2: b'#'}[m.attrs['mtype']] + m.attrs['name'].encode()
        for a in m.attrs['arguments']:
            if isinstance(a, Sym):
                k = z3.simplify(a.t).sexpr()
                if k not in self.escaped:
                    self.escaped[k] = self.cx.bytes('escaped')
                    self.cx.assume(z3.InRe(self.escaped[k].t, z3.Plus(z3.Union(re_range(33, 127), re_range(128, 255)))))
                a = self.escaped[k]
            out = add(out, b' ')
            out = add(out, a)
        return out

    def closing(self, st):
        self.closings.append(st)

    def outcome(self, k):
        self.fut = None
        if k == 'raises':
            raise PyExc(ValueError('device'))
        if k == 'nothing':
            return None
        self.fut = f = IFuture()
        if k == 'done':
            f.m_set_result(self.ip, None)
        if k == 'failed':
            f.m_set_exception(self.ip, PyExc(ValueError('device')).value)
        return f

    def stream(self, name, conn=True, closing=False, shut=False):
        st = self.ip.call(self.ns['Stream'], [name])
        st.attrs['KATCPServer_closing'] = closing
        st.attrs['KATCPServer_address'] = ('host', 1)
        if shut:
            st.attrs['shut'] = 1
        return st

    def conn(self, st):
        return self.ip.call(self.CC, [self.srv, st])

    def arbitrary_entry(self, ip):
        """Some further connection: its stream in any state."""
        cx = self.cx
        s = cx.pick('connection', ['open', 'closing', 'closed', 'broken'])
        st = self.stream('other', closing=s == 'closing', shut=s == 'closed')
        if s == 'broken':
            st.attrs['mode'] = 'raises'
        c = self.conn(st)
        c.attrs['kind'] = s
        return (st, c)

    def msg(self, kind='inform', name='news', *args):
        return self.ip.call(self.ip.getattr(self.M, kind), [name] + list(args))

    def call(self, o, name, *a):
        return attempt(self.ip, self.ip.getattr(o, name), *a)


def same(cx, a, b):
    return z3.BoolVal(a == b) if isinstance(a, bytes) and isinstance(b, bytes) else t(a) == t(b)


def c_send(cx):
    s = Srv(cx)
    ip = s.ip
    state = cx.pick('stream', ['open', 'closing', 'closed'])
    st = s.stream('st', closing=state == 'closing', shut=state == 'closed')
    other = s.stream('other')
    how = cx.pick('writing', ['ok', 'raises'])
    st.attrs['mode'] = how
    m = s.msg('inform', 'news', cx.bytes('arg'))
    via = cx.pick('through', ['server', 'thread-safe, same thread', 'connection', 'thread-safe connection'])
    if via.startswith('server') or via.startswith('thread-safe, '):
        r = s.call(s.srv, 'send_message' if via == 'server' else 'send_message_from_thread', st, m)
    else:
        C = ip.get('katcp.server:' + ('ClientConnection' if via == 'connection' else 'ThreadsafeClientConnection'))
        r = s.call(ip.call(C, [s.srv, st]), 'inform', m)
    text = ip.binop(__import__('ast').Add(), ip.call(ip.getattr(m, '__bytes__'), []), b'\n')
    cx.prove('sending never raises', r[0] == 'ok', info=ename(r[1]))
    if state == 'open' and how == 'ok':
        w = st.attrs['written']
        cx.prove('it is written exactly once, as one line', len(w) == 1 and same(cx, w[0], text))
        cx.prove('the connection stays', s.closings == [])
    elif state == 'open':
        cx.prove('a connection that cannot be written to is closed', s.closings == [st] and st.attrs['written'] == [])
    else:
        cx.prove('nothing is written to a closing or closed connection, which is left to its closing', s.closings == [] and st.attrs['written'] == [])
    cx.prove('no other connection is touched', other.attrs['written'] == [] and other.attrs['shut'] == 0)


class MassHook(EachHook):
    def __init__(self, s, m):
        self.s, self.m, self.ran = s, m, False

    def begin(self, ip, env, x):
        st = x[0] if isinstance(x, tuple) else x
        self.n0 = {id(k): (k, list(k.attrs['written']), k.attrs['shut']) for k, _ in self.s.table.items}
        self.c0 = list(self.s.closings)

    def end(self, ip, env, x):
        st = x[0] if isinstance(x, tuple) else x
        cx, s = self.s.cx, self.s
        kind = s.table.find(ip, st)[1].attrs['kind']
        for k, w, shut in self.n0.values():
            new = k.attrs['written'][len(w):]
            if k is not st:
                cx.prove('a turn of the broadcast touches no other connection', new == [] and k.attrs['shut'] == shut)
            elif kind == 'open':
                cx.prove('each open connection is written to once', len(new) == 1 and same(cx, new[0], self.text) and k.attrs['shut'] == 0)
            else:
                cx.prove('and no other', new == [])
                cx.prove('one that fails is closed, the rest left alone', (k.attrs['shut'] == 1) == (kind in ('closed', 'broken')))

    def after(self, ip, env, names):
        self.ran = True


def c_mass(cx):
    """Broadcast to any number of connections in any states."""
    s = Srv(cx)
    ip = s.ip
    m = s.msg('inform', 'news', cx.bytes('arg'))
    s.table = s.srv.attrs['_connections'] = unknown_dict([], s.arbitrary_entry)
    h = MassHook(s, m)
    h.text = ip.binop(__import__('ast').Add(), ip.call(ip.getattr(m, '__bytes__'), []), b'\n')
    for_each(cx, {'katcp.server:KATCPServer.mass_send_message': h})
    via = cx.pick('through', ['server', 'thread-safe', 'device', 'connection'])
    if via == 'device':
        d = ip.call(s.ns['D'], [])
        d.attrs['_server'] = s.srv
        r = s.call(d, 'mass_inform', m)
    elif via == 'connection':
        r = s.call(s.conn(s.stream('st')), 'mass_inform', m)
    else:
        r = s.call(s.srv, 'mass_send_message' if via == 'server' else 'mass_send_message_from_thread', m)
    cx.prove('broadcasting never raises', r[0] == 'ok', info=ename(r[1]))
    cx.prove('every connection of the table is visited', h.ran)
    cx.prove('the table is unchanged', s.srv.attrs['_connections'].version == 0)


def c_thread(cx):
    """From another thread: done exactly once, in the loop, with the outcome in the future."""
    s = Srv(cx)
    ip = s.ip
    s.srv.attrs['ioloop_thread_id'] = 'other'
    ran = []
    how = cx.pick('call', ['ok', 'raises'])

    def fn():
        ran.append(1)
        if how == 'raises':
            raise PyExc(ValueError('boom'))
        return 'value'
    here = cx.pick('thread', ['this', 'other']) == 'this'
    if here:
        s.srv.attrs['ioloop_thread_id'] = s.ident
    st, f = s.call(s.srv, 'call_from_thread', ip.lib.N(fn, 'fn'))
    cx.prove('it returns a future', st == 'ok' and isinstance(f, IFuture))
    if not here:
        cx.prove('nothing happens in the calling thread', ran == [] and len(s.loop.callbacks) == 1 and f.state not in ('result', 'exc'))
        s.loop.run_next(ip)
    cx.prove('it is called exactly once', ran == [1] and not s.loop.callbacks)
    cx.prove('with its outcome reported', f.state == ('result' if how == 'ok' else 'exc') and (how == 'raises' or f.value == 'value'))


def c_connect(cx):
    """A new connection: in the table at once, told what the device tells it first, read from only then; dropped if it cannot be set up."""
    s = Srv(cx)
    ip = s.ip
    reading = []
    before = []

    def read(ip2, a, k):
        reading.append((a[1], a[2]))
        return None
    cx.stubs['katcp.server:KATCPServer._line_read_loop'] = read
    s.connect_out = cx.pick('device', ['nothing', 'done', 'raises', 'failed', 'later', 'later failed'])
    st = s.stream('st')
    for k in ('KATCPServer_closing', 'KATCPServer_address'):
        del st.attrs[k]
    o_st, o_c = s.arbitrary_entry(ip)
    s.table.set(ip, o_st, o_c)
    w0 = list(o_st.attrs['written'])
    f = ip.call(ip.getattr(s.srv, '_handle_stream'), [st, ('1.2.3.4', 567)])
    it = s.table.find(ip, st)
    cx.prove('a new connection is in the table', it is not None and len(s.table.items) == 2)
    conn = it[1]
    cx.prove('the device is told once, with that connection', s.dev.attrs['came'] == [conn])
    cx.prove('the connection sends on that stream', s.call(conn, 'inform', s.msg())[0] == 'ok' and bool(st.attrs['shut'] or len(st.attrs['written']) >= 1))
    if s.connect_out.startswith('later'):
        cx.prove('nothing is read before the device is ready', reading == [])
        if s.connect_out == 'later':
            s.fut.m_set_result(ip, None)
        else:
            s.fut.m_set_exception(ip, ValueError('late'))
    s.loop.drain(ip) if s.connect_out not in ('raises', 'failed') else None
    good = s.connect_out in ('nothing', 'done', 'later')
    cx.prove('it is then read from' if good else 'a connection that cannot be set up is not read from', reading == ([(st, conn)] if good else []))
    if not good:
        cx.prove('it is told and closed', s.closings == [st] and any(isinstance(w, (bytes, SBytes)) for w in st.attrs['written']))
        while s.loop.callbacks:
            s.loop.run_next(ip)
        cx.prove('and forgotten', s.table.find(ip, st) is None)
    else:
        cx.prove('it stays', s.closings == [] and s.table.find(ip, st) is not None)
        # the stream closes, now or ever: forgotten, the device told once
        s.disconnect_out = cx.pick('told', ['nothing', 'raises', 'done', 'failed'])
        ip.call(ip.getattr(st, 'close'), [])
        while s.loop.callbacks:
            s.loop.run_next(ip)
        cx.prove('a closed connection is forgotten', s.table.find(ip, st) is None)
        cx.prove('the device is told once that it is gone', len(s.dev.attrs['left']) == 1 and s.dev.attrs['left'][0][0] is conn and s.dev.attrs['left'][0][2] is False)
    cx.prove('other connections are not touched', o_st.attrs['written'] == w0 and s.table.find(ip, o_st) is not None and o_st not in s.closings)


def c_disconnect(cx):
    """_disconnect_client: the device is told at most once, the stream closed in the end but not before the device is done (or overdue)."""
    s = Srv(cx)
    ip = s.ip
    state = cx.pick('stream', ['open', 'closed'])
    st = s.stream('st', shut=state == 'closed')
    conn = s.conn(st)
    s.table.set(ip, st, conn)
    s.disconnect_out = cx.pick('device', ['nothing', 'done', 'raises', 'failed', 'later', 'later failed', 'never'])
    f = ip.call(ip.getattr(s.srv, '_disconnect_client'), [st, conn, 'why'])
    left = s.dev.attrs['left']
    cx.prove('the device is told, with the reason and whether it can still send', left == [(conn, 'why', state == 'open')])
    late = s.disconnect_out in ('later', 'later failed', 'never')
    again = cx.pick('meanwhile', ['nothing', 'again', 'closed by the peer'])
    f2 = None
    if late:
        cx.prove('the stream is not closed before the device is done', s.closings == [])
    if again == 'again':
        f2 = ip.call(ip.getattr(s.srv, '_disconnect_client'), [st, conn, 'other'])
        if late:
            cx.prove('nor by a second disconnection', s.closings == [])
    elif again == 'closed by the peer' and state == 'open' and late:
        st.attrs['shut'] = 1
        f2 = ip.call(ip.getattr(s.srv, '_stream_closed_callback'), [st])
    if late:
        if s.disconnect_out == 'later':
            s.fut.m_set_result(ip, None)
        elif s.disconnect_out == 'later failed':
            s.fut.m_set_exception(ip, ValueError('late'))
        else:
            ts = s.loop.active()
            cx.prove('the wait for it is limited', len(ts) == 1)
            s.loop.fire(ip, ts[0])
    s.loop.drain(ip)
    cx.prove('the device is told only once', len(left) == 1)
    cx.prove('the stream is closed', st.attrs['shut'] == 1)
    cx.prove('the disconnection ends without raising', f.state == 'result' and (f2 is None or f2.state == 'result'), info=(f.state, f2 and f2.state))
    cx.prove('nothing stays scheduled', not s.loop.active())


def c_reason(cx):
    """The real device: what an orderly disconnected client gets, whatever happens before the stream is flushed."""
    s = Srv(cx, real_device=True)
    ip = s.ip
    st = s.stream('st')
    conn = s.conn(st)
    o = s.stream('other')
    oc = s.conn(o)
    for a, b in ((st, conn), (o, oc)):
        s.table.set(ip, a, b)
        s.dev.attrs['_client_conns'].add(ip, b)
        s.dev.attrs['_strategies'].set(ip, b, IDict())
    why = cx.bytes('reason')
    via = cx.pick('by', ['connection', 'server'])
    if via == 'connection':
        ip.call(ip.getattr(conn, 'disconnect'), [why])
    else:
        ip.call(ip.getattr(s.srv, '_disconnect_client'), [st, conn, why])
    cx.prove('a client being disconnected is no longer in the client list', not s.dev.attrs['_client_conns'].has(ip, conn) and s.dev.attrs['_client_conns'].has(ip, oc))
    n = 0
    seen = None

    def interfere():
        k = cx.pick('meanwhile', ['nothing', 'broadcast', 'inform', 'again'])
        if k == 'broadcast':
            ip.call(ip.getattr(s.srv, 'mass_send_message'), [s.msg('inform', 'news')])
        elif k == 'inform':
            ip.call(ip.getattr(conn, 'inform'), [s.msg('inform', 'you')])
        elif k == 'again':
            ip.call(ip.getattr(conn, 'disconnect'), ['again'])
    interfere()
    for _ in range(6):
        if not s.loop.callbacks:
            break
        s.loop.run_next(ip)
    interfere()
    cx.prove('it is not closed before it is flushed', st.attrs['shut'] == 0)
    end = cx.pick('flushing', ['done', 'never', 'peer closes'])
    w = st.attrs['written']
    said = ip.binop(__import__('ast').Add(), ip.call(ip.getattr(ip.call(ip.getattr(s.M, 'inform'), ['disconnect', why]), '__bytes__'), []), b'\n')
    i = [k for k, x in enumerate(w) if not (isinstance(x, bytes) and x in (b'\n', b'#news\n', b'#you\n'))]
    cx.prove('the reason is sent once', len(i) == 1 and same(cx, w[i[0]], said), info=len(i))
    cx.prove('as the last thing', w[i[0] + 1:] == [b'\n'], info=len(w))
    if end == 'done':
        fl = st.attrs['flushes'][-1]
        fl.m_set_result(ip, None)
    elif end == 'never':
        for tm in s.loop.active():
            s.loop.fire(ip, tm)
    else:
        ip.call(ip.getattr(st, 'close'), [])
        for tm in s.loop.active():
            s.loop.fire(ip, tm)
    for _ in range(20):
        if not s.loop.callbacks:
            break
        s.loop.run_next(ip)
    cx.prove('then it is closed', st.attrs['shut'] == 1)
    if st.attrs['cb'] is None:
        ip.call(ip.getattr(s.srv, '_stream_closed_callback'), [st])
    cx.prove('its strategies are gone', s.dev.attrs['_strategies'].find(ip, conn) is None and s.dev.attrs['_strategies'].find(ip, oc) is not None)
    cx.prove('the connection is forgotten, others are not', s.table.find(ip, st) is None and s.table.find(ip, o) is not None and o.attrs['shut'] == 0)
    cx.prove('nobody else is told', all(x == b'#news\n' for x in o.attrs['written']))


def c_hello(cx):
    """DeviceServer.on_client_connect: the announcements of the declared protocol, in order, and nothing else; the client is listed."""
    s = Srv(cx, real_device=True)
    ip = s.ip
    major = cx.pick('major', [4, 5])
    P = ip.get('katcp.core:ProtocolFlags')
    info = ip.call(P, [major, 0, [b'M']])
    v = (cx.str('kind'), cx.int('maj'), cx.int('min'))
    b = (cx.str('bname'), cx.int('bmaj'), cx.int('bmin'), cx.str('rc'))
    s.dev.attrs.update(PROTOCOL_INFO=info)
    sent = []
    cx.stubs['katcp.server:DeviceServer.version'] = lambda ip2, a, k: 'VERSION'
    cx.stubs['katcp.server:DeviceServer.build_state'] = lambda ip2, a, k: 'BUILD'
    st = s.stream('st')
    o_st, o_c = s.arbitrary_entry(ip)
    s.table.set(ip, o_st, o_c)
    s.dev.attrs['_client_conns'].add(ip, o_c)
    cx.stubs['katcp.server:KATCPServer._line_read_loop'] = lambda ip2, a, k: None
    f = ip.call(ip.getattr(s.srv, '_handle_stream'), [st, ('1.2.3.4', 567)])
    s.loop.drain(ip)
    cx.prove('it is set up', s.table.find(ip, st) is not None, info=[str(x) for x in st.attrs['written']])
    if s.table.find(ip, st) is None:
        raise PathEnd()
    conn = s.table.find(ip, st)[1]
    w = st.attrs['written']
    ok = all(isinstance(x, bytes) for x in w)
    if major == 5:
        good = ok and len(w) == 3 and w[0] == b'#version-connect katcp-protocol 5.0-M\n' and w[1].startswith(b'#version-connect katcp-library katcp-python-') and \
            len(w[1].split()) == 3 and w[2] == b'#version-connect katcp-device VERSION BUILD\n'
    else:
        good = w == [b'#version VERSION\n', b'#build-state BUILD\n']
    cx.prove('a new client is sent the announcements of the protocol, in order, and nothing else', good, info=w)
    cx.prove('it is in the client list', s.dev.attrs['_client_conns'].has(ip, conn) and s.dev.attrs['_client_conns'].has(ip, o_c))
    cx.prove('others are told nothing', o_st.attrs['written'] == [])


class AllHook(EachHook):
    def __init__(self, s, calls):
        self.s, self.calls, self.ran = s, calls, False

    def before(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)

    def begin(self, ip, env, x):
        del self.calls[:]
        self.x = x

    def end(self, ip, env, x):
        self.s.cx.prove('each connection is disconnected once, with the reason', self.calls == [(x[0], x[1], 'Device server shutting down.')])

    def after(self, ip, env, names):
        self.before(ip, env, names)
        del self.calls[:]
        self.ran = True


def c_uninstall(cx):
    s = Srv(cx)
    ip = s.ip
    calls = []
    s.table = s.srv.attrs['_connections'] = unknown_dict([], s.arbitrary_entry)

    def disc(ip2, a, k):
        calls.append((a[1], a[2], a[3]))
        f = IFuture()
        # meanwhile connections go away (they are popped from the table) before this one is done
        if cx.pick('meanwhile', ['nothing', 'closes']) == 'closes':
            s.table.delete(ip, a[1])
        f.m_set_result(ip, None)
        return f
    cx.stubs['katcp.server:KATCPServer._disconnect_client'] = disc
    ev = run_src(ip, 'class Ev(object):\n    def __init__(self):\n        self.on = None\n    def set(self):\n        self.on = True\n    def clear(self):\n        self.on = False\n'
                 'class Tcp(object):\n    def __init__(self):\n        self.n = 0\n    def stop(self):\n        self.n += 1\n')
    run, stop, tcp = [ip.call(ev[n], []) for n in ('Ev', 'Ev', 'Tcp')]
    s.srv.attrs.update(_running=run, _stopped=stop, _tcp_server=tcp)
    h = AllHook(s, calls)
    for_each(cx, {'katcp.server:KATCPServer._uninstall': h})
    f = ip.call(ip.getattr(s.srv, '_uninstall'), [])
    s.loop.drain(ip)
    cx.prove('all connections are disconnected when the server stops', h.ran and f.state == 'result', info=f.state)
    cx.prove('it listens no more', tcp.attrs['n'] == 1)
    cx.prove('it is then stopped', stop.attrs['on'] is True and run.attrs['on'] is False)


def c_uninstall_waits(cx):
    """a stopping server is stopped when the last of its clients has been told and is closed, not before; failures do not keep it running"""
    s = Srv(cx)
    ip = s.ip
    futs, order = {}, []
    entries = []
    for n in ('one', 'two'):
        st = s.stream(n)
        c = s.conn(st)
        ip.setitem(s.table, st, c)
        entries.append((st, c))

    def disc(ip2, a, k):
        cx.prove('each connection is disconnected once, with the reason', id(a[1]) not in futs and any(a[1] is x and a[2] is y for x, y in entries) and
                 a[3] == 'Device server shutting down.')
        f = futs[id(a[1])] = IFuture()
        order.append(f)
        return f
    cx.stubs['katcp.server:KATCPServer._disconnect_client'] = disc
    ev = run_src(ip, 'class Ev(object):\n    def __init__(self):\n        self.on = None\n    def set(self):\n        self.on = True\n    def clear(self):\n        self.on = False\n'
                 'class Tcp(object):\n    def __init__(self):\n        self.n = 0\n    def stop(self):\n        self.n += 1\n')
    run, stop, tcp = [ip.call(ev[n], []) for n in ('Ev', 'Ev', 'Tcp')]
    s.srv.attrs.update(_running=run, _stopped=stop, _tcp_server=tcp)
    f = ip.call(ip.getattr(s.srv, '_uninstall'), [])
    s.loop.drain(ip)
    while any(x.state == 'pending' for x in order):
        cx.prove('a server is not stopped while a client is still being told', f.state == 'pending' and stop.attrs['on'] is not True)
        left = [x for x in order if x.state == 'pending']
        x = left[cx.pick('next', list(range(len(left)))) if len(left) > 1 else 0]
        if cx.pick('meanwhile', ['nothing', 'closes']) == 'closes':
            for st, c in entries:
                if s.table.find(ip, st) is not None:
                    s.table.delete(ip, st)
                    break
        x.m_set_result(ip, None)
        s.loop.drain(ip)
    cx.prove('all connections are disconnected when the server stops', len(futs) == 2 and f.state == 'result', info=(len(futs), f.state))
    cx.prove('it is then stopped', stop.attrs['on'] is True and run.attrs['on'] is False and tcp.attrs['n'] == 1)


class ListHook(EachHook):
    def __init__(self, sent):
        self.sent, self.ran = sent, 0

    def before(self, ip, env, names):
        for nm in names:
            env.vars.pop(nm, None)

    def begin(self, ip, env, x):
        del self.sent[:]

    def end(self, ip, env, x):
        ip.cx.prove('each client is listed once, by its address', self.sent == [('addr', id(x))], info=self.sent)

    def after(self, ip, env, names):
        self.before(ip, env, names)
        del self.sent[:]
        self.ran += 1


def c_client_list(cx):
    s = Srv(cx, real_device=True)
    ip = s.ip
    sent = []
    Cn = run_src(ip, 'class Conn(object):\n    def __init__(self):\n        self.address = addr(self)\nclass Req(object):\n    def inform(self, *a):\n        sent.extend(a)\n    def make_reply(self, *a):\n        return a\n',
                 addr=ip.lib.N(lambda c: ('addr', id(c)), 'addr'), sent=sent)
    conns = s.dev.attrs['_client_conns'] = unknown_set([], lambda ip2: ip2.call(Cn['Conn'], []))
    h = ListHook(sent)
    for_each(cx, {'katcp.server:DeviceServer.request_client_list': h})
    st, r = s.call(s.dev, 'request_client_list', ip.call(Cn['Req'], []), s.msg('request', 'client-list'))
    cx.prove('all clients are listed', st == 'ok' and h.ran == 1, info=ename(r))
    cx.prove('nothing else is sent', sent == [])
    size = I.as_many(ip, conns).size
    cx.prove('the reply counts them', isinstance(r, tuple) and len(r) == 2 and r[0] == 'ok' and decimal_of(r[1]) is not None and decimal_of(r[1]) == size, info=r)


CONTRACTS = {'send': (c_send, {}), 'mass-send': (c_mass, {'expect': ['loop iteration', 'each open connection is written to once']}), 'call-from-thread': (c_thread, {}),
             'connect': (c_connect, {}), 'disconnect': (c_disconnect, {}), 'reason': (c_reason, {}), 'announcements': (c_hello, {}),
             'uninstall-waits': (c_uninstall_waits, {'bounded': 'two connections'}),
             'uninstall': (c_uninstall, {'expect': ['loop iteration']}), 'client-list': (c_client_list, {'expect': ['loop iteration']})}
