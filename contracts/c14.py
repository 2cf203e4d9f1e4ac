"""C14: contracts on the client's protocol detection, its use of message ids and its time unit."""
import ast

from .cli import *          # noqa

MODULES = ['core', 'kattypes', 'client', 'ioloop_manager']
UNDER_CONTRACT = ['client.DeviceClient.inform_version_connect', '...inform_version', '...inform_build_state', '..._set_v4_protocol', '..._set_protocol_from_inform',
                  '...preset_protocol_flags', '...protocol_flags', '..._init_state_per_run', '..._get_mid_and_update_msg', '..._next_id', '...request', '...send_request',
                  '...convert_seconds', '...until_protocol', '...handle_inform', 'client.AsyncClient.callback_request', '...future_request', '..._next_id', 'client.request_check']
ASSUMPTIONS = ['what a version string means is the contract of ProtocolFlags.parse_version (C15)',
               'each request is a message object of its own (a message keeps the id it was given when it is sent again)',
               'what an announcement that says nothing understood does is not specified beyond being taken as the unknown version']
KINDS = [(4, ''), (5, 'MI'), (5, 'M')]


class P(object):
    """a client, and what it must know of its server"""

    def __init__(self, cx, preset='any', cls=None):
        self.cx, self.ip = cx, cx.interp
        self.cls = cls or cx.pick('client', ['AsyncClient', 'DeviceClient'])
        self.cli = Cli(cx, cls=self.cls, start=False)
        self.c = self.cli.c
        self.flags, self.preset, self.live = None, None, True
        self.auto_reconnect = True
        self.n = 0
        self.parsed = []
        cx.stubs['katcp.core:ProtocolFlags.parse_version'] = self.parse
        cx.stubs['katcp.compat:ensure_native_str'] = self.native
        self.PF = self.ip.get('katcp.core:ProtocolFlags')
        self.bad = False
        if (cx.pick('preset', ['no', 'before start', 'running']) if preset == 'any' else preset) == 'before start':
            self.set_preset()
        self.cli.start()
        if cx.choices.get('choice:preset') == 2 and preset == 'any':
            self.set_preset()

    def set_preset(self):
        self.preset = self.flags = self.version('preset')
        st, x = self.cli.m('preset_protocol_flags', self.preset)
        self.cx.prove('presetting never fails', st == 'ok', info=ename(x))

    def version(self, label):
        cx = self.cx
        self.n += 1
        major, flags = cx.pick(label, KINDS)
        M, m = cx.int('major%d' % self.n), cx.int('minor%d' % self.n)
        cx.assume(z3.And(M.t == 4 if major == 4 else M.t >= 5, m.t >= 0))
        r = IObj(self.PF)
        r.attrs.update(major=M, minor=m, flags=ISet([x.encode() for x in flags]))
        r.ids = 'I' in flags and major >= 5
        return r

    def parse(self, ip, a, k):
        x = k['version_str'] if 'version_str' in k else a[-1]
        self.parsed.append((x, self.coming))
        return self.coming

    def native(self, ip, a, k):
        """contract of ensure_native_str: the text, or an error for bytes that are not UTF-8"""
        if not isinstance(a[0], SBytes):
            return a[0].decode('utf-8') if isinstance(a[0], bytes) else a[0]
        if self.bad:
            raise PyExc(UnicodeDecodeError('utf-8', b'?', 0, 1, 'not UTF-8'))
        return SStr(z3.String(self.cx.name('text')))

    def announce(self, kind, label='announced', few=False):
        cx, ip = self.cx, self.ip
        self.coming = None
        if kind == 'katcp':
            n = 2 if few else cx.pick('arguments', [1, 2, 3])
            self.coming = self.version(label)
            args = [b'katcp-protocol'] + [cx.bytes('text%d_%d' % (self.n, i)) for i in range(n - 1)]
            name = 'version-connect'
            new = self.coming if n > 1 else None
        elif kind == 'other':
            n = 2 if few else cx.pick('arguments', [0, 1, 2, 3])
            args = [cx.bytes('text%d_%d' % (self.n, i)) for i in range(n)]
            if args:
                cx.assume(args[0].t != z3.StringVal('katcp-protocol'))
            name, new = 'version-connect', None
        else:
            name = kind
            args = [cx.bytes('text%d_%d' % (self.n, i)) for i in range(0 if few else cx.pick('arguments', [0, 1]))]
            new = IObj(self.PF)
            new.attrs.update(major=4, minor=0, flags=ISet([]))
            new.ids = False
        before = list(self.parsed)
        self.bad = bool(args) and name == 'version-connect' and few in (False, 'text') and self.cx.pick('text', ['UTF-8', 'not UTF-8']) != 'UTF-8'
        self.cli.not_utf8 = self.bad
        m = self.cli.msg('inform', name, *args)
        # (the wire form of a message always exists: C01)
        cx.stubs['katcp.core:Message.__bytes__'] = lambda ip2, a, k: SBytes(z3.String(cx.name('line')))
        st, x = self.cli.m('handle_message', m)
        del cx.stubs['katcp.core:Message.__bytes__']
        cx.prove('no announcement makes the client fail', st == 'ok', info=ename(x))
        if kind == 'katcp' and new is not None:
            cx.prove('the version is read from the announcement', all(p[0] is args[1] for p in self.parsed[len(before):]) and len(self.parsed) > len(before))
        if new is None or self.preset is not None:
            return
        if self.flags is not None:
            same = ip.eq(self.flags, new)
            same = same if isinstance(same, bool) else cx.branch(same)
            if same:
                return
            self.auto_reconnect = False
            self.live = False
        self.flags = new

    def check(self, why):
        cx, ip = self.cx, self.ip
        f = ip.getattr(self.c, 'protocol_flags')
        info = (why, self.preset is not None)
        if self.flags is None:
            cx.prove('no protocol is known before the server announced one', f is None, info=info)
        else:
            e = ip.eq(f, self.flags) if f is not None else False
            cx.prove('the protocol known is the one announced or preset', e if isinstance(e, bool) else e.t if hasattr(e, 't') else e, info=info)
        st, u = self.cli.m('until_protocol')
        cx.prove('the protocol is received exactly once it is known', st == 'ok' and (u.state == 'result') == (self.flags is not None) and u.state != 'exc', info=info)
        cx.prove('announcements only close connections they contradict', (not ip.truth(ip.call(ip.getattr(self.cli.stream, 'closed'), []))) == self.live, info=info)
        cx.prove('and then there is no reconnecting', ip.truth(self.c.attrs.get('_auto_reconnect', True)) is self.auto_reconnect, info=info)

    def ids(self):
        return self.flags is not None and self.flags.ids


INFORMS = ['katcp', 'other', 'version', 'build-state']


def c_detect(cx, part):
    first, preset = part
    p = P(cx, cls='DeviceClient', preset=preset)
    if preset == 'running':
        p.set_preset()
    p.check('start')
    p.announce(first)
    p.check('first')
    if p.live:
        p.announce(cx.pick('second', ['katcp', 'other', 'version', 'build-state']), 'again', few='text')
        p.check('second')
    p.cli.drain()
    if p.live and len(p.cli.streams) == 1:
        send(p, 'x', 'after', api='request', mid='no', use='default')


def c_detect_async(cx):
    """AsyncClient looks at informs first"""
    p = P(cx, cls='AsyncClient')
    p.announce(cx.pick('first', INFORMS))
    p.check('first')
    send(p, 'x', 'after', api='future_request', mid='no', use='default')


def c_preset_later(cx):
    """a preset after a server has announced itself replaces what it said"""
    p = P(cx, preset='no')
    p.announce('katcp', few=True)
    p.set_preset()
    p.check('preset')
    send(p, 'x', 'preset', api='request', mid='no')
    p.announce('version', few=True)
    p.check('announced again')


def c_restart(cx, part):
    cls, preset = part
    p = P(cx, cls=cls, preset=preset)
    p.announce(cx.pick('kind', ['katcp', 'version']), few=True)
    st, x = p.cli.m('stop')
    cx.prove('stopping never fails', st == 'ok', info=ename(x))
    p.cli.drain()
    for h in list(p.cli.loop.active()):
        p.cli.fire(h)
        p.cli.drain()
    p.cli.start()
    p.flags, p.live = p.preset, True
    p.check('started again')
    st, x = p.cli.m('request', p.cli.msg('request', 'x'))
    cx.prove('after a restart ids are used again only once known', st == 'ok')
    wire_check(p, 'x', p.ids(), x)
    p.announce('katcp', 'announced to the second run', few=True)
    p.check('announced again')


def wire_check(p, name, with_id, returned=None):
    """what was written last: '?name[id] ...'"""
    cx, ip = p.cx, p.ip
    cx.prove('the request is written', len(p.cli.wire) >= 1)
    w = t(p.cli.wire[-1])
    plain = z3.Or(w == z3.StringVal('?%s\n' % name), z3.PrefixOf(z3.StringVal('?%s ' % name), w))
    if with_id:
        cx.prove('ids are sent to servers that know them', z3.PrefixOf(z3.StringVal('?%s[' % name), w))
    else:
        cx.prove('no ids are sent to servers not known to support them, or if declined', plain)


def send(p, name, why, api=None, mid=None, use=None, extra=()):
    """one request by any api; checks what is written"""
    cx, ip, cli = p.cx, p.ip, p.cli
    apis = ['request', 'callback_request', 'future_request'] if p.cls == 'AsyncClient' else ['request']
    api = api or (cx.pick('api', apis) if len(apis) > 1 else apis[0])
    use = use or cx.pick('use_mid', ['default', 'yes', 'no'])
    kw = {} if use == 'default' else {'use_mid': use == 'yes'}
    own = None
    if (mid or cx.pick('own id', ['no', 'yes'])) == 'yes':
        n = cx.int('own_id')
        cx.assume(n.t > 0)
        own = ip.binop(ast.Mod(), b'%d', n)
    msg = cli.msg('request', name, *extra, **({} if own is None else {'mid': own}))
    before = len(cli.wire)
    got = []
    if api == 'callback_request':
        kw['reply_cb'] = ip.lib.N(lambda m: got.append(m), 'reply_cb')
    st, x = cli.m(api, msg, **kw)
    ids = p.ids()
    demanded = own is not None or use == 'yes'
    sent = cli.wire[before:]
    info = (why, api, use, own is not None, ids)
    if demanded and not ids:
        if api == 'request':
            cx.prove('an id that cannot be honoured is refused', st == 'raise' and is_exc(ip, x, 'katcp.client:KatcpVersionError') if st == 'raise' else False, info=info)
        else:
            m = got[0] if got else (ip.items_of(x.value)[0] if st == 'ok' and api == 'future_request' and x.state == 'result' else None)
            cx.prove('an id that cannot be honoured is refused', st == 'ok' and m is not None and ip.call(ip.getattr(m, 'reply_ok'), []) is False, info=info)
        cx.prove('and nothing is sent', not sent, info=info)
        return None
    cx.prove('the request is sent', st == 'ok' and len(sent) == 1, info=info + (ename(x) if st != 'ok' else '',))
    w = t(sent[0])
    if own is not None:
        cx.prove('with the id the caller chose', z3.PrefixOf(z3.Concat(z3.StringVal('?%s[' % name), own.t, z3.StringVal(']')), w), info=info)
        mid = own
    elif ids and use != 'no':
        mid = msg.attrs['mid']
        cx.prove('ids are sent to servers that know them', mid is not None and
                 z3.And(z3.PrefixOf(z3.Concat(z3.StringVal('?%s[' % name), t(mid), z3.StringVal(']')), w), z3.InRe(t(mid), z3.Plus(z3.Range('0', '9')))), info=info)
    else:
        cx.prove('no ids are sent to servers not known to support them, or if declined',
                 z3.Or(w == z3.StringVal('?%s\n' % name), z3.PrefixOf(z3.StringVal('?%s ' % name), w)), info=info)
        mid = None
    if api == 'request':
        e = ip.eq(x, mid) if mid is not None else (x is None)
        cx.prove('request() tells the id used', e, info=info)
    return mid


def c_mids(cx, cls):
    p = P(cx, preset='no', cls=cls)
    if cx.pick('announced', ['yes', 'no']) == 'yes':
        p.announce('katcp')
    send(p, 'x', 'mids', extra=(b'argument',) if cx.pick('with argument', [0, 1]) else ())


def c_unique(cx, cls):
    """automatic ids: each is beyond the counter, the counter never goes back"""
    p = P(cx, preset='before start', cls=cls)
    cx.assume(p.flags.ids)
    need(p.c, '_last_msg_id')
    N = cx.int('issued')
    cx.assume(N.t >= 0)
    p.c.attrs['_last_msg_id'] = N
    other = None
    if cls == 'AsyncClient' and cx.pick('outstanding', ['no', 'yes']) == 'yes':
        other = send(p, 'y', 'own', api='callback_request', mid='yes', use='default')
    a = send(p, 'x', 'first', mid='no', use=cx.pick('use', ['default', 'yes']))
    between = cx.pick('between', ['nothing', 'declined', 'reconnect', 'restart'])
    if between == 'declined':
        send(p, 'x', 'declined', mid='no', use='no')
    elif between == 'reconnect':
        p.cli.close()
        p.cli.drain()
        for h in [h for h in p.cli.loop.active()][-1:]:
            p.cli.fire(h)
        p.cli.drain()
    elif between == 'restart':
        p.cli.m('stop')
        p.cli.drain()
        for h in list(p.cli.loop.active()):
            p.cli.fire(h)
            p.cli.drain()
        p.cli.start()
    b = send(p, 'x', 'second', mid='no', use='default')
    if not all(isinstance(x, SBytes) and x.info and x.info[0] == 'int' for x in (a, b)):
        raise Unsupported('ids that are not made from numbers')
    ia, ib = a.info[1], b.info[1]
    last = p.c.attrs['_last_msg_id']
    cx.prove('automatic ids are never reused', z3.And(ia > N.t, ib > ia, t(last) >= ib), info=between)
    if other is not None and between in ('nothing', 'declined'):
        cx.prove('nor are they those of outstanding requests', z3.And(ia != other.info[1], ib != other.info[1]))


def c_seconds(cx):
    p = P(cx, preset='no', cls='DeviceClient')
    f = IObj(p.PF)
    M = cx.int('major')
    f.attrs.update(major=M, minor=0, flags=ISet([]))
    cx.assume(M.t >= 1)
    p.ip.setattr(p.c, 'protocol_flags', f)
    s = cx.real('seconds')
    cx.assume(s.t >= 0)
    st, x = p.cli.m('convert_seconds', s)
    cx.prove('times can be converted', st == 'ok', info=ename(x))
    v = t(x)
    v = z3.ToReal(v) if v.sort() == z3.IntSort() else v
    if cx.branch(M.t >= 5):
        cx.prove('seconds from version 5 on', v == s.t)
    elif cx.branch(M.t == 4):
        cx.prove('milliseconds before', v == s.t * 1000)
    else:
        cx.prove('whole milliseconds before version 4', v == z3.ToReal(z3.ToInt(s.t * 1000)))


def c_until(cx):
    """until_protocol resolves when the protocol becomes known, not before"""
    p = P(cx, preset='no')
    st, f = p.cli.m('until_protocol')
    cx.prove('the wait is pending', st == 'ok' and f.state == 'pending')
    p.announce(cx.pick('kind', ['katcp', 'other', 'version', 'build-state']))
    p.cli.drain()
    cx.prove('it ends when the protocol is known', (f.state == 'result') == (p.flags is not None) and f.state != 'exc')


def c_request_check(cx):
    """request_check makes the request it is asked for"""
    p = P(cx, preset='no', cls='AsyncClient')
    ip = p.ip
    calls = []
    ok = cx.pick('reply', [True, False])

    def blocking(msg, **k):
        calls.append((msg, k))
        return (p.cli.msg('reply', 'x', b'ok' if ok else b'fail', b'text'), [])
    ns = run_src(ip, 'class Client(object):\n    def __init__(self, f):\n        self.blocking_request = f\n')
    client = ip.call(ns['Client'], [ip.lib.N(blocking, 'blocking_request')])
    mid = None
    kw = {}
    if cx.pick('mid', ['no', 'yes']) == 'yes':
        mid = kw['mid'] = cx.bytes('own_id')
        cx.assume(z3.And(z3.InRe(mid.t, R('digits')), z3.Length(mid.t) > 0))
    st, x = attempt(ip, ip.get('katcp.client:request_check'), client, ValueError, 'x', b'argument', **kw)
    cx.prove('one request', len(calls) == 1)
    m = calls[0][0]
    e = ip.eq(m.attrs['mid'], mid) if mid is not None else m.attrs['mid'] is None
    cx.prove('with the id asked for', e)
    cx.prove('what is refused raises', (st == 'ok') == ok)


CLS = ['AsyncClient', 'DeviceClient']
CONTRACTS = {
    'detect': (c_detect, {'split': [(i, p) for i in INFORMS for p in ('no', 'before start', 'running')]}), 'detect-async': (c_detect_async, {}),
    'preset-later': (c_preset_later, {}), 'restart': (c_restart, {'split': [(c, p) for c in CLS for p in ('no', 'before start')]}), 'mids': (c_mids, {'split': CLS}),
    'unique': (c_unique, {'split': CLS}), 'seconds': (c_seconds, {}), 'until': (c_until, {}), 'request-check': (c_request_check, {}),
}
