"""C05 executable contract: typed handlers of a running server get exactly their declared arguments, typed results are encoded."""
import re
from net import *      # noqa
from msgspec import spec_parse
from katcp import DeviceServer, ProtocolFlags, Message
from katcp import kattypes as K
import tornado.gen

RULE = 'random signatures (0-4 parameters of five types, defaults, optional, repeated last) and argument lists around them; random declared results; handlers returning directly or a future, decorators in both orders'
BOUNDS = 'up to 4 declared parameters, up to 7 arguments, up to 6 results'
FUNCTIONS = ['kattypes.request', 'kattypes.return_reply', 'kattypes.unpack_types', 'kattypes.pack_types', 'kattypes.make_reply',
             'kattypes.async_make_reply', 'kattypes.send_reply']
NO = '<no>'
KINDS = ['int', 'float', 'bool', 'str', 'disc', 'pos']


def mk(spec):
    kind, default, optional, multiple = spec
    kw = {}
    if default != NO:
        kw['default'] = default
    if optional:
        kw['optional'] = True
    if multiple:
        kw['multiple'] = True
    return {'int': lambda: K.Int(**kw), 'float': lambda: K.Float(**kw), 'bool': lambda: K.Bool(**kw), 'str': lambda: K.Str(**kw),
            'disc': lambda: K.Discrete(['on', 'off'], **kw), 'pos': lambda: K.Int(min=1, max=9, **kw)}[kind]()


def read(kind, b):
    """independent reading of well-formed literals: ('ok', v) | None (refused)"""
    if kind in ('int', 'pos'):
        if not re.match(br'-?[0-9]+\Z', b):
            return None
        v = int(b.decode())
        return ('ok', v) if kind == 'int' or 1 <= v <= 9 else None
    if kind == 'float':
        return ('ok', float(b.decode())) if re.match(br'-?[0-9]+(\.[0-9]+)?\Z', b) else None
    if kind == 'bool':
        return ('ok', b == b'1') if b in (b'0', b'1') else None
    try:
        s = b.decode('utf8')
    except UnicodeDecodeError:
        return None
    if kind == 'disc':
        return ('ok', s) if s in ('on', 'off') else None
    return ('ok', s)


def write(kind, v):
    if kind in ('int', 'pos'):
        return b'%d' % v if kind == 'int' or 1 <= v <= 9 else None
    if kind == 'float':
        return repr(float(v)).encode()
    if kind == 'bool':
        return b'1' if v else b'0'
    if kind == 'disc':
        return v.encode() if v in ('on', 'off') else None
    return v.encode('utf8')


DEFAULTS = {'int': [0, 7, -3], 'float': [0.0, 2.5], 'bool': [True], 'str': ['', 'dflt'], 'disc': ['on'], 'pos': [3]}
GOOD = {'int': [b'0', b'-12', b'99999999999999999999'], 'float': [b'1.5', b'-2', b'0.25'], 'bool': [b'0', b'1'],
        'str': [b'', b'a b', b'\xc3\xa9', b'1'], 'disc': [b'on', b'off'], 'pos': [b'1', b'9', b'5']}
BAD = {'int': [b'x', b'1.5', b''], 'float': [b'x', b'', b'1,5'], 'bool': [b'2', b'true', b''], 'str': [b'\xff'],
       'disc': [b'maybe', b'', b'ON'], 'pos': [b'0', b'10', b'q']}
VALUES = {'int': [0, -5, 10 ** 20], 'float': [1.5, 0.0, -2.25], 'bool': [True, False], 'str': ['', 'x y', u'\u00e9', 'None'],
          'disc': ['on', 'off'], 'pos': [1, 9, 4]}
BADV = {'int': ['x'], 'float': ['y'], 'bool': [], 'str': [], 'disc': ['nope', ''], 'pos': [0, 10]}


def rand_spec(r, last):
    kind = r.choice(KINDS)
    return (kind, r.choice([NO, NO, r.choice(DEFAULTS[kind])]), r.random() < .3, last and r.random() < .35)


def cases(h):
    r = h.rng
    for i in range(h.n(700, 20000)):
        n = r.randrange(0, 5)
        specs = [rand_spec(r, j == n - 1) for j in range(n)]
        k = max(0, min(7, n + r.choice([0, 0, 0, -1, -2, 1, 2, 3])))
        args = []
        for j in range(k):
            kind = specs[min(j, n - 1)][0] if n else 'str'
            args.append(r.choice(GOOD[kind]) if r.random() < .85 else r.choice(BAD[kind]))
        n2 = r.randrange(0, 4)
        rspecs = [rand_spec(r, j == n2 - 1) for j in range(n2)]
        k2 = max(0, n2 + r.choice([0, 0, 0, -1, 1, 2]))
        res = []
        for j in range(k2):
            kind = rspecs[min(j, n2 - 1)][0] if n2 else 'str'
            v = r.choice(VALUES[kind]) if r.random() < .88 or not BADV[kind] else r.choice(BADV[kind])
            res.append(None if r.random() < .05 else v)
        status = r.choice(['ok'] * 6 + ['fail', 'bogus'])
        if status == 'fail':
            res = r.choice([['why not'], ['why'], [], ['a', 'b']])
        yield 'call', (specs, args, rspecs, [status] + res, r.choice(['plain', 'future', 'concurrent']), r.choice([0, 1]),
                       r.random() < .3, r.random() < .5, r.choice([4, 5]))
    for i in range(h.n(60, 1000)):
        n = r.randrange(0, 3)
        specs = [rand_spec(r, j == n - 1) for j in range(n)]
        yield 'send', (specs, [r.choice(['ok', 'fail'])] + [r.choice(VALUES[s[0]]) for s in specs] if r.random() < .7 else ['fail', 'boo'])


def expected_args(specs, args):
    n = len(specs)
    rep = bool(specs) and specs[-1][3]
    if len(args) > n and not rep:
        return 'count', None
    vals, bad = [], []
    for j in range(max(n, len(args))):
        kind, default, optional, _ = specs[min(j, n - 1)]
        if j < len(args):
            v = read(kind, args[j])
            if v is None:
                bad.append(j)
            else:
                vals.append(v[1])
        elif default != NO:
            vals.append(default)
        elif optional:
            vals.append(None)
        else:
            bad.append(j)
    return ('bad', bad) if bad else ('ok', vals)


def expected_reply(rspecs, result):
    status, vals = result[0], result[1:]
    if status == 'fail':
        return [b'fail', str(vals[0]).encode()] if len(vals) == 1 else None
    if status != 'ok':
        return None
    n = len(rspecs)
    rep = bool(rspecs) and rspecs[-1][3]
    if len(vals) > n and not rep:
        return None
    out = [b'ok']
    for j in range(max(n, len(vals))):
        kind, default, optional, _ = rspecs[min(j, n - 1)]
        v = vals[j] if j < len(vals) and vals[j] is not None else (default if default != NO else None)
        if v is None or v in BADV[kind] and not (kind == 'float' and not isinstance(v, str)):
            return None
        w = write(kind, v)
        if w is None:
            return None
        out.append(w)
    return out


def case_call(h, p):
    specs, args, rspecs, result, mode, order, incl, astuple, major = p
    calls = []
    types, rtypes = [mk(s) for s in specs], [mk(s) for s in rspecs]

    def body(self, got):
        calls.append(got)
        res = tuple(result) if astuple else list(result)
        if mode == 'plain':
            return res
        f = tornado.gen.Future()
        tornado.ioloop.IOLoop.current().call_later(0.5, f.set_result, res)
        return f
    if incl:
        def request_do_it(self, req, msg, alpha=None, beta=None, gamma=None, delta=None, *rest):
            "do"
            calls.append(('msg', [bytes(x) for x in msg.arguments]))
            return body(self, (alpha, beta, gamma, delta) + rest)
    else:
        def request_do_it(self, req, alpha=None, beta=None, gamma=None, delta=None, *rest):
            "do"
            return body(self, (alpha, beta, gamma, delta) + rest)
    f = request_do_it
    if order:
        f = K.return_reply(*rtypes, major=major)(f)
        f = K.request(*types, include_msg=incl, major=major)(f)
    else:
        f = K.request(*types, include_msg=incl, major=major)(f)
        f = K.return_reply(*rtypes, major=major)(f)
    if mode == 'concurrent':
        f = K.concurrent_reply(f)
    Dev = type('Dev', (DeviceServer,), {'request_do_it': f, 'PROTOCOL_INFO': ProtocolFlags(5, 0, [b'I', b'M']),
                                        'setup_sensors': lambda self: None, 'VERSION_INFO': ('a', 1, 0), 'BUILD_INFO': ('b', 1, 0, '')})
    names = ['alpha', 'beta', 'gamma', 'delta']
    with World() as w:
        dev = w.serve(Dev('127.0.0.1', 0))
        c = w.connect(dev)
        w.settle()
        c.msgs()
        c.send(Message.request('do-it', *args, mid=17).__bytes__() + b'\n?watchdog[18]\n')
        w.settle()
        w.run(2)
        ms = [spec_parse(l) for l in c.lines()]
    rep = [m for m in ms if m is not None and m[1] == 'do-it']
    h.check('exactly one reply', len(rep) == 1 and rep[0][0] == 1 and rep[0][2] == b'17', '%r %r' % (p, ms))
    got = rep[0][3]
    what, exp = expected_args(specs, args)
    msgs = [c[1] for c in calls if c and c[0] == 'msg']
    calls = [c for c in calls if not (c and c[0] == 'msg')]
    h.nontrivial((what, len(specs), len(args), len(rspecs), mode))
    if what != 'ok':
        h.check('the handler body does not run', not calls, '%r %r' % (p, calls))
        h.check('the caller gets a failure', got[0] == b'fail' and len(got) == 2, '%r %r' % (p, got))
        if what == 'bad':
            txt = got[1].decode('utf8', 'replace')
            h.check('naming an offending parameter', any(('parameter %d ' % (j + 1)) in txt and (j >= 4 or names[j] in txt or names[min(j, len(specs) - 1)] in txt)
                                                         for j in exp), '%r %r' % (p, txt))
        return
    h.check('the handler is called once', len(calls) == 1, '%r %r' % (p, calls))
    want = tuple(exp) + (None,) * (4 - len(exp))
    h.check('with exactly its declared arguments', calls[0] == want and [type(x) for x in calls[0]] == [type(x) for x in want],
            '%r called with %r, expected %r' % (p, calls[0], want))
    if incl:
        h.check('and the message, where declared', msgs == [args], '%r %r' % (p, msgs))
    er = expected_reply(rspecs, result)
    if er is None:
        h.check('an unacceptable result becomes a failure', got[0] == b'fail' and len(got) == 2, '%r %r' % (p, got))
    else:
        h.check('the declared results in the reply', got == er, '%r replied %r, expected %r' % (p, got, er))


def case_send(h, p):
    specs, result = p
    sent = []

    class Req(object):
        msg = Message.request('do-it', mid=4)

        def reply_with_message(self, m):
            sent.append(m)

    @K.send_reply(*[mk(s) for s in specs])
    def cb(self, req):
        return [req] + list(result)
    er = expected_reply(specs, result)
    h.nontrivial(repr(p))
    try:
        cb(None, Req())
    except Exception as e:
        h.check('a good result is sent', er is None, '%r %r' % (p, e))
        h.check('nothing is sent', not sent, p)
        return
    h.check('exactly one reply is sent', len(sent) == 1 and sent[0].name == 'do-it' and sent[0].arguments == er, '%r %r' % (p, sent))
