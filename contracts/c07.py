"""C07: contracts on ClientRequestConnection: everything sent through a request handle belongs to that request."""
from .srv import *          # noqa
from . import c06

MODULES = ['core', 'kattypes', 'server']
UNDER_CONTRACT = ['server.ClientRequestConnection.' + f for f in ('__init__', 'inform', 'reply', 'reply_with_message', 'make_reply',
                  '_post_reply', 'reply_again', 'inform_after_reply')] + \
    ['server.ClientConnection.__init__/inform/reply/reply_inform/mass_inform', 'server.ThreadsafeClientConnection.__init__',
     'core.Message.reply_to_request', 'core.Message.reply_inform', 'server.DeviceServerBase.reply/inform/reply_inform']
ASSUMPTIONS = ['assertions are enabled', 'handlers use the documented operations of the handle and do not modify its attributes or the request',
               'the transport (KATCPServer.send_message) delivers to the stream it is given; see C08 and C25']


def arg(cx, base):
    k = cx.pick(base + ' kind', ['bytes', 'str', 'int', 'bool'])
    if k == 'bytes':
        v = cx.bytes(base)
        return v, v.t
    if k == 'str':
        v = cx.str(base)
        cx.assume(z3.InRe(v.t, R('ascii*')))
        return v, v.t
    if k == 'int':
        n = cx.pick(base, [0, 1, -17, 10 ** 20])
        return n, zs(b'%d' % n)
    b = cx.pick(base, [True, False])
    return b, zs(b'1' if b else b'0')


def args_(cx):
    """No argument, one of any kind, or three byte strings."""
    n = cx.pick('number of arguments', [0, 1, 3])
    pairs = [arg(cx, 'v0')] if n == 1 else [(v, v.t) for v in [cx.bytes('v%d' % i) for i in range(n)]]
    return [p[0] for p in pairs], [p[1] for p in pairs]


def handle(rig, stream, name='do-it', mid=None, conn=None):
    msg = rig.ip.call(rig.M, [rig.REQUEST, name, [rig.cx.bytes('request argument')], mid])
    return rig.ip.call(rig.ip.get('katcp.server:ClientRequestConnection'), [conn or rig.conn(stream), msg]), msg


def mid_(cx, tag):
    m = None if cx.pick(tag, ['absent', 'present']) == 'absent' else cx.bytes(tag)
    if m is not None:
        cx.assume(z3.InRe(m.t, R('digits')))
    return m


def check(cx, rig, e, stream, mt, name, mid, exp):
    s, m, n, i, a, _ = e
    cx.prove('it goes to the requesting client', s == stream)
    cx.prove('as the right kind of message', m == mt)
    cx.prove("with the request's name", n == name if isinstance(n, str) else t(n) == zs(name))
    cx.prove("with the request's id", same_id(i, mid))
    cx.prove('with the given arguments in the given order', len(a) == len(exp) and z3.And([t(x) == y for x, y in zip(a, exp)] + [z3.BoolVal(True)]),
             info=(a, exp))


def operate(cx, rig, rc, name, via):
    """One operation on a handle: (kind, status, expected argument terms)."""
    ip = rig.ip
    op = cx.pick('operation', ['inform', 'reply', 'reply_with_message', 'make_reply'])
    vals, exp = args_(cx)
    if op == 'reply_with_message':
        own = cx.pick('id in the reply message', [None, b'31415'])
        vals = [rig.msg('reply', name, *vals, **({} if own is None else {'mid': own}))]
    f = via[op] if via else ip.getattr(rc, op)
    st, x = attempt(ip, f, *vals)
    return op, st, x, exp


def c_handle(cx):
    """From a fresh handle and from one whose reply was sent: the effect of every operation, by attribute or by a method saved earlier."""
    rig = Rig(cx)
    ip = rig.ip
    mid = mid_(cx, 'mid')
    rc, msg = handle(rig, 'S1', 'do-it', mid)
    saved = dict((op, ip.getattr(rc, op)) for op in ('inform', 'reply', 'reply_with_message', 'make_reply')) \
        if cx.pick('methods', ['attribute', 'saved before']) == 'saved before' else None
    state = cx.pick('state', ['fresh', 'informed', 'replied', 'replied with message'])
    if state == 'informed':
        ip.call(ip.getattr(rc, 'inform'), [b'x'])
    elif state == 'replied':
        ip.call(ip.getattr(rc, 'reply'), [b'ok'])
    elif state == 'replied with message':
        ip.call(ip.getattr(rc, 'reply_with_message'), [rig.msg('reply', 'do-it', b'ok')])
    done = state.startswith('replied')
    before = len(rig.sent())
    op, st, x, exp = operate(cx, rig, rc, 'do-it', saved)
    new = rig.sent()[before:]
    if op == 'make_reply':
        cx.prove('making a reply sends nothing', st == 'ok' and new == [])
        e = ('S1', x.attrs['mtype'], x.attrs['name'], x.attrs['mid'], list(ip.items_of(x.attrs['arguments'])), x)
        check(cx, rig, e, 'S1', rig.REPLY, 'do-it', mid, exp)
        return
    if done:
        cx.prove('after the reply it is refused', st == 'raise' and is_exc(ip, x, RuntimeError), info=(op, ename(x)))
        cx.prove('and nothing reaches the client', new == [], info=new)
        return
    cx.prove('it is sent', st == 'ok' and len(new) == 1, info=(op, ename(x), new))
    if len(new) != 1:
        raise PathEnd('reported')
    check(cx, rig, new[0], 'S1', rig.INFORM if op == 'inform' else rig.REPLY, 'do-it', mid, exp)
    cx.prove('nothing is broadcast', rig.net.attrs['mass'] == [])
    # the state it leaves behind
    op2 = cx.pick('then', ['inform', 'reply', 'reply_with_message'])
    f = saved[op2] if saved else ip.getattr(rc, op2)
    st2, x2 = attempt(ip, f, rig.msg('reply', 'do-it', b'fail') if op2 == 'reply_with_message' else b'again')
    if op == 'inform':
        cx.prove('an inform leaves the handle open', st2 == 'ok' and len(rig.sent()) == before + 2)
        check(cx, rig, rig.sent()[-1], 'S1', rig.INFORM if op2 == 'inform' else rig.REPLY, 'do-it', mid,
              [zs(b'fail' if op2 == 'reply_with_message' else b'again')])
    else:
        cx.prove('a reply closes the handle', st2 == 'raise' and is_exc(ip, x2, RuntimeError) and len(rig.sent()) == before + 1, info=(op2, st2))
    cx.cover('operated')


def c_two(cx):
    """Two requests in progress, of the same or of different clients and names: neither affects the other."""
    rig = Rig(cx, threadsafe=False)
    ip = rig.ip
    m1, m2 = mid_(cx, 'mid one'), mid_(cx, 'mid two')
    c1 = rig.conn('S1')
    same = cx.pick('clients', ['same', 'different']) == 'same'
    s2 = 'S1' if same else 'S2'
    n2 = cx.pick('second request', ['do-it', 'do-other'])
    a, _ = handle(rig, 'S1', 'do-it', m1, c1)
    b, _ = handle(rig, s2, n2, m2, c1 if same else None)
    who = [('S1', 'do-it', m1, a), (s2, n2, m2, b)]
    ops = {'inform': rig.INFORM, 'reply': rig.REPLY, 'reply_with_message': rig.REPLY}
    done = [False, False]
    shared = n2 == 'do-it' and cx.pick('reply message object', ['own', 'shared']) == 'shared'
    one = rig.msg('reply', 'do-it', b'1')
    for step in range(3):
        k = cx.pick('step %d acts on' % step, [0, 1])
        op = cx.pick('step %d' % step, sorted(ops))
        stream, name, mid, rc = who[k]
        before = len(rig.sent())
        v = b'%d' % step
        st, x = attempt(ip, ip.getattr(rc, op), (one if shared else rig.msg('reply', name, v)) if op == 'reply_with_message' else v)
        new = rig.sent()[before:]
        if done[k]:
            cx.prove('its own reply having been sent, it is refused', st == 'raise' and new == [])
            continue
        cx.prove('unaffected by the other request', st == 'ok' and len(new) == 1, info=(ename(x), op))
        if len(new) != 1:
            raise PathEnd('reported')
        check(cx, rig, new[0], stream, ops[op], name, mid, [zs(b'1' if op == 'reply_with_message' and shared else v)])
        done[k] = op != 'inform'


def c_wrong(cx):
    """A message that is not the reply of this request is not sent; nor can a handle be made for anything but a request."""
    rig = Rig(cx)
    ip = rig.ip
    mid = mid_(cx, 'mid')
    rc, msg = handle(rig, 'S1', 'do-it', mid)
    kind = cx.pick('message', ['other name', 'inform', 'request'])
    m = rig.msg('reply', 'do-other', b'ok') if kind == 'other name' else rig.msg(kind, 'do-it', b'ok')
    st, x = attempt(ip, ip.getattr(rc, 'reply_with_message'), m)
    cx.prove('a message that does not answer the request is refused and not sent', st == 'raise' and rig.sent() == [], info=kind)
    for kind in ('inform', 'reply'):
        st, x = attempt(ip, ip.get('katcp.server:ClientRequestConnection'), rig.conn('S1'), rig.msg(kind, 'do-it'))
        cx.prove('only requests have handles', st == 'raise')


CONTRACTS = {'connection': (c06.c_deprecated, {}), 'handle': (c_handle, {'expect': ['operated']}), 'two': (c_two, {}), 'wrong': (c_wrong, {})}
