"""C25 executable contract: broadcasts, announcements, connection tables, orderly disconnections, failing writes."""
from net import *      # noqa
from msgspec import spec_parse
import katcp
from katcp import DeviceServer, ProtocolFlags, Message
from tornado import gen

RULE = 'random histories of connections, closures (orderly by the server, by the client, abortive), broadcasts, direct informs, client-list requests, slow readers, failing writes and server stop, on protocol 4 and 5'
BOUNDS = 'up to 6 clients, up to 25 operations'
FUNCTIONS = ['server.KATCPServer._handle_stream', 'server.KATCPServer._disconnect_client', 'server.KATCPServer._stream_closed_callback',
             'server.KATCPServer.send_message', 'server.KATCPServer.mass_send_message', 'server.KATCPServer.flush_on_close',
             'server.DeviceServer.on_client_connect', 'server.DeviceServer.on_client_disconnect', 'server.DeviceServer.request_client_list']
BIG = 700000


def cases(h):
    r = h.rng
    for major in (4, 5):
        for end in ('bcast', 'inform', 'none', 'slow-bcast', 'slow-inform', 'disc', 'slow-disc', 'sync-disc', 'slow-stop'):
            yield 'slow', (major, end)
        yield 'busy', (major,)
    for i in range(h.n(90, 5000)):
        ops, n = [('connect',), ('connect',)], 2
        for _ in range(r.randrange(3, 24)):
            k = r.choice(['connect', 'connect', 'bcast', 'bcast', 'bcast', 'mass', 'thread', 'inform', 'list', 'list', 'close', 'reset', 'disc', 'disc',
                          'fail', 'failinit', 'stall', 'run', 'burst'])
            if k in ('connect', 'failinit'):
                if n >= 6:
                    continue
                n += 1
                ops.append((k,))
            elif k in ('bcast', 'mass', 'thread'):
                ops.append((k,))
            elif k == 'run':
                ops.append((k, r.choice([.1, .5, 2])))
            else:
                ops.append((k, r.randrange(n)))
        if r.random() < .4:
            ops.append(('stop',))
        yield 'history', (ops, r.choice([4, 5]))


def make(major):
    class Dev(DeviceServer):
        PROTOCOL_INFO = ProtocolFlags(major, 0, [b'I', b'M'] if major > 4 else [b'M'])
        VERSION_INFO = ('adev', 1, 2)
        BUILD_INFO = ('abuild', 1, 3, 'rc1')
        fail_next = False
        conns = None

        def setup_sensors(self):
            self.conns = []

        def on_client_connect(self, conn):
            f = super(Dev, self).on_client_connect(conn)
            self.conns.append(conn)
            if self.fail_next:
                self.fail_next = False
                raise RuntimeError('no thanks')
            return f
    return Dev('127.0.0.1', 0)


def hello(major):
    if major > 4:
        return [(3, 'version-connect', [b'katcp-protocol', b'5.0-IM']),
                (3, 'version-connect', [b'katcp-library', b'katcp-python-' + katcp.__version__.encode()]),
                (3, 'version-connect', [b'katcp-device', b'adev-1.2', b'abuild-1.3rc1'])]
    return [(3, 'version', [b'adev-1.2']), (3, 'build-state', [b'abuild-1.3rc1'])]


def short(m):
    m = spec_parse(m)
    return ({2: 3, 1: 2, 0: 1}[m[0]], m[1], list(m[3]))


class Cl(object):
    def __init__(self, peer, conn, addr):
        self.p, self.conn, self.addr = peer, conn, addr
        self.want, self.got = [], []
        self.state = 'open'         # open, closing (told, still flushing), gone
        self.exact = True           # False: cut off, only a prefix (of lines) can be expected
        self.stalled = False

    def pull(self):
        self.got += [short(l) for l in self.p.lines()]


def case_slow(h, pr):
    """A client that reads late is still told why it was disconnected, whatever is sent while its buffer drains."""
    major, end = pr
    with World() as w:
        dev = w.serve(make(major))
        a, b = w.connect(dev), w.connect(dev)
        conn = dev.conns[0]
        other = dev.conns[1]
        a.lines(), b.lines()
        slow = end.startswith('slow')
        if slow:
            a.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 16384)
            conn._conn_key.socket.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 16384)
            for _ in range(5):
                conn.inform(Message.inform('big', 'x' * 100000))
        w.settle()
        conn.disconnect('because of tests')
        if end == 'sync-disc':
            conn.disconnect('again')
        if end == 'slow-stop':
            b.close()
            stopped = dev.stop()
            w.settle()
            h.check('a server is not stopped while a client is still being told', not stopped.done(), pr)
        if end.endswith('bcast'):
            w.loop.add_callback(lambda: dev.mass_inform(Message.inform('news', 'n')))
        elif end.endswith('inform'):
            w.loop.add_callback(lambda: conn.inform(Message.inform('news', 'n')))
        elif end.endswith('disc'):
            w.loop.add_callback(lambda: conn.disconnect('again'))
        w.settle()
        w.run(.1)
        if slow and end.endswith('bcast'):
            dev.mass_inform(Message.inform('news', 'm'))
        if slow and end.endswith('inform'):
            conn.inform(Message.inform('news', 'm'))
        w.settle()
        got = []
        for _ in range(1500):
            got += [short(l) for l in a.lines()]
            if a.eof:
                break
        got = [m for m in got if m[1] != 'news']
        h.nontrivial((major, end))
        h.check('an orderly disconnection tells the client why, as the last thing', got and got[-1] == (3, 'disconnect', [b'because of tests']) and
                len([m for m in got if m[1] == 'disconnect']) == 1, '%r: %d messages, last %s' % (pr, len(got), repr(got[-1:])[:200]))
        h.check('nothing sent to it before is lost', len([m for m in got if m[1] == 'big']) == (5 if slow else 0), pr)
        h.check('and is closed', a.eof, pr)
        if end == 'slow-stop':
            w.run(1)
            h.check('and then it is', stopped.done(), pr)
            return
        b.send(b'?client-list\n')
        got = [short(l) for l in b.lines()]
        addr = ('%s:%d' % b.s.getsockname()).encode()
        h.check('the client list then has the other client only', [m for m in got if m[1] == 'client-list'] == [(3, 'client-list', [addr]), (2, 'client-list', [b'ok', b'1'])], '%r: %r' % (pr, got))
        h.check('its connection is forgotten', len(dev._server._connections) == 1, pr)


def case_busy(h, pr):
    """A client that has not read everything sent to it yet is connected all the same: broadcasts reach it too, once, in order."""
    major, = pr
    with World() as w:
        dev = w.serve(make(major))
        a, b = w.connect(dev), w.connect(dev)
        a.lines(), b.lines()
        a.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 16384)
        conn = dev.conns[0]
        conn._conn_key.socket.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 16384)
        want = []
        for i in range(12):
            if i % 2:
                conn.inform(Message.inform('big', 'x' * 100000))
                want.append('big')
            else:
                m = Message.inform('news', '%d' % i)
                (dev.mass_inform if i % 4 else dev._server.mass_send_message)(m)
                want.append(b'%d' % i)
        w.settle()
        got = []
        for _ in range(1500):
            got += [short(l) for l in a.lines()]
            if len(got) >= len(want):
                break
        got = ['big' if m[1] == 'big' else m[2][0] for m in got]
        h.nontrivial(major)
        h.check('a broadcast reaches a client that is still reading', got == want, '%r: got %r, expected %r' % (pr, got, want))
        got = [short(l)[2][0] for l in b.lines()]
        h.check('and the other clients', got == [x for x in want if x != 'big'], '%r: %r' % (pr, got))


def case_history(h, pr):
    ops, major = pr
    with World() as w:
        dev = w.serve(make(major))
        srv = dev._server
        cl = []
        k = 0
        for op in ops:
            k += 1
            kind = op[0]
            c = cl[op[1]] if len(op) > 1 and kind != 'run' and op[1] < len(cl) else None
            open_ = [x for x in cl if x.state == 'open']
            if kind in ('connect', 'failinit'):
                dev.fail_next = kind == 'failinit'
                p = w.connect(dev)
                h.check('a connection is set up', len(dev.conns) == len(cl) + 1, '%r at %d' % (pr, k))
                n = Cl(p, dev.conns[-1], ('%s:%d' % p.s.getsockname()).encode())
                n.want = list(hello(major))
                if kind == 'failinit':
                    n.state = 'gone'
                    n.want.append('log')
                cl.append(n)
            elif kind in ('bcast', 'mass', 'thread'):
                m = Message.inform('news', '%d' % k)
                (dev.mass_inform if kind == 'bcast' else srv.mass_send_message if kind == 'mass' else srv.mass_send_message_from_thread)(m)
                for x in open_:
                    x.want.append((3, 'news', [b'%d' % k]))
            elif kind == 'burst':         # several things before the loop runs
                for j in range(3):
                    dev.mass_inform(Message.inform('news', '%d-%d' % (k, j)))
                    for x in cl:
                        if x.state == 'open':
                            x.want.append((3, 'news', [b'%d-%d' % (k, j)]))
                    if j == 1 and c is not None and c.state == 'open':
                        c.conn.disconnect('burst %d' % k)
                        c.state = 'closing'
                        c.burst = True
                        c.want.append((3, 'news', [b'%d-2' % k]))      # sent before the disconnection gets under way
            elif kind == 'run':
                w.run(op[1])
            elif kind == 'stop':
                f = dev.stop()
                for _ in range(20):
                    w.run(1)
                    for x in cl:
                        x.pull()
                for x in open_:
                    x.want.append((3, 'disconnect', [b'Device server shutting down.']))
                    x.state = 'gone'
            elif c is None or c.state != 'open':
                if c is not None and kind == 'inform':         # to a connection that is going or gone: harmless
                    c.conn.inform(Message.inform('late', '%d' % k))
            elif kind == 'inform':
                c.conn.inform(Message.inform('you', '%d' % k))
                c.want.append((3, 'you', [b'%d' % k]))
            elif kind == 'list':
                addrs = [x.addr for x in open_]
                n0 = len(c.want)
                c.pull()
                c.p.send(b'?client-list\n')
                c.pull()
                got = [m for m in c.got if m[1] == 'client-list']
                c.got = [m for m in c.got if m[1] != 'client-list']
                maybe = [x.addr for x in cl if x.state == 'closing']
                names = [m[2][0] for m in got if m[0] == 3]
                h.check('the client list names exactly the open connections, once each, with their number',
                        len(set(names)) == len(names) and set(addrs) <= set(names) <= set(addrs + maybe) and got[-1:] == [(2, 'client-list', [b'ok', b'%d' % len(names)])] and
                        len(got) == len(names) + 1, '%r at %d: %r, open %r' % (pr, k, got, addrs))
            elif kind == 'close':
                c.pull()
                c.p.close(settle=True)
                c.state, c.exact = 'gone', False
                c.p.eof = True
            elif kind == 'reset':
                c.pull()
                c.p.reset()
                w.settle()
                c.state, c.exact = 'gone', False
                c.p.eof = True
            elif kind == 'disc':
                c.conn.disconnect('told at %d' % k)
                c.want.append((3, 'disconnect', [b'told at %d' % k]))
                c.state = 'closing'
            elif kind == 'fail':
                stream = c.conn._conn_key

                def boom(*a, **kw):
                    raise IOError('write failed')
                stream.write = boom
                dev.mass_inform(Message.inform('news', '%d' % k))
                for x in open_:
                    if x is not c:
                        x.want.append((3, 'news', [b'%d' % k]))
                c.state = 'gone'
            elif kind == 'stall':       # more than the server is willing to queue: this client is dropped
                for x in open_:
                    x.pull()
                for j in range(14):
                    c.conn.inform(Message.inform('big', 'x' * BIG))
                dev.mass_inform(Message.inform('news', '%d' % k))
                for x in open_:
                    if x is not c:
                        x.want.append((3, 'news', [b'%d' % k]))
                c.state, c.exact = 'gone', False
            w.settle()
            if kind == 'stall' and c is not None:
                for x in cl:
                    x.pull()
                w.settle()
            for x in cl:
                if not x.p.eof:
                    x.pull()
                if x.state == 'closing' and x.p.eof:
                    x.state = 'gone'
            n_open = len([x for x in cl if x.state == 'open'])
            if kind != 'stop':
                n = len(srv._connections)
                h.check('the table has exactly the open connections', n_open <= n <= n_open + len([x for x in cl if x.state == 'closing']), '%r at %d (%s): %d in table, %d open' % (pr, k, kind, n, n_open))
                h.check('the list of clients too', len(dev._client_conns) in range(n_open, n + 1), '%r at %d (%s)' % (pr, k, kind))
        for x in cl:
            if not x.p.eof:
                x.pull()
        if kind == 'stop':
            h.check('a stopped server has no connections', not srv._connections and not dev._client_conns, pr)
        for i, x in enumerate(cl):
            h.nontrivial((x.state, len(x.want)))
            got, want = list(x.got), list(x.want)
            if want[-1:] == ['log']:
                h.check('a connection that cannot be set up is told and closed', got[:-1] == want[:-1] and got[-1][1] == 'log' and x.p.eof, '%r client %d: %r' % (pr, i, got))
                continue
            if getattr(x, 'burst', False):
                # told while being broadcast to: it hears what was sent before, then why, then nothing
                why = [m for m in got if m[1] == 'disconnect']
                h.check('an orderly disconnection tells the client why, as the last thing', len(why) == 1 and got[-1] == why[0], '%r client %d: %r' % (pr, i, got))
                got = got[:-1]
                h.check('broadcasts reach it until then', got == want[:len(got)] and len(got) >= len(want) - 1, '%r client %d: %r, expected %r' % (pr, i, got, want))
                continue
            if x.exact:
                h.check('each client gets exactly what was sent to it, in order', got == want, '%r client %d: got %r, expected %r' % (pr, i, got, want))
                if x.state == 'gone':
                    h.check('a disconnected client is closed', x.p.eof, '%r client %d' % (pr, i))
            else:
                got = [m for m in got if m[1] != 'big']
                h.check('each client gets nothing else', got == want[:len(got)], '%r client %d: got %r, expected %r' % (pr, i, got, want))
