"""C24 executable contract: random class hierarchies of device servers over real connections; help and dispatch agree
with an independent evaluation of each handler's requirement."""
from net import *      # noqa
from katcp import DeviceServer, ProtocolFlags, DeviceServerBase
from katcp.kattypes import minimum_katcp_version, has_katcp_protocol_flags, request, return_reply, concurrent_reply, \
    request_timeout_hint

RULE = 'random class chains (redefine / disable / inherit / other protocol, version and flag requirements) x protocols'
BOUNDS = 'chains of up to 4 classes, 6 handlers'
FUNCTIONS = ['core.DeviceMetaclass', 'core.DeviceServerMetaclass', 'kattypes.minimum_katcp_version',
             'kattypes.has_katcp_protocol_flags', 'server.DeviceServer.request_help', 'handle_request']
PROTOS = [(4, 0, ''), (4, 0, 'M'), (5, 0, ''), (5, 0, 'M'), (5, 0, 'MI'), (5, 1, 'IMT'), (5, 1, 'IMTB'), (5, 3, 'BM'), (5, 1, 'MI'),
          (5, 2, 'MI'), (4, 9, 'M'), (4, 1, '')]
REQS = [None, (5, 0), (5, 1), (5, None), (4, 0), (6, 0), (4, 9), (5, 2)]
NAMES = ['aa', 'ab_cd', 'x1', 'help_me', 'watchdog', 'sensor_sampling_clear']


def cases(h):
    r = h.rng
    for p in PROTOS:
        for v in REQS:
            for f in (None, 'M', 'I', 'MI', 'T', 'BMT'):
                yield 'chain', ([('proto', p, [('aa', v, f, r.random() < .5)])],)
    for _ in range(h.n(250, 8000)):
        chain = []
        for lvl in range(r.randrange(1, 5)):
            acts = []
            for n in NAMES:
                k = r.random()
                if k < .4:
                    acts.append((n, r.choice(REQS), r.choice([None, None, 'M', 'I', 'T', 'MI', 'B']), r.random() < .4))
                elif k < .5:
                    acts.append((n, 'disable', None, False))
            chain.append(('proto', r.choice(PROTOS) if lvl == 0 or r.random() < .3 else None, acts))
        yield 'chain', (chain,)
    for kind in ('request', 'inform', 'reply'):
        for doc in (None, 'd'):
            yield 'doc', (kind, doc)


def mk(n, v, f, wrapped, lvl):
    def req(self, req, msg):
        return req.make_reply('ok', 'lvl%d' % lvl)
    req.__name__ = 'request_' + n
    req.__doc__ = 'Doc of %s at %d.' % (n, lvl)
    if wrapped:
        def req2(self, req):
            return ('ok', 'lvl%d' % lvl)
        from katcp.kattypes import Str
        req2.__name__, req2.__doc__ = req.__name__, req.__doc__
        req = request()(return_reply(Str())(req2))
    if v:
        req = (minimum_katcp_version(v[0]) if v[1] is None else minimum_katcp_version(*v))(req)
    if f is not None:
        req = has_katcp_protocol_flags([x.encode() for x in f])(req)
    if wrapped and lvl % 2:
        req = request_timeout_hint(3)(concurrent_reply(req))
    return req


def case_chain(h, p):
    cls, builtin = DeviceServer, {}
    proto = None
    state = {}
    for n in ('client-list', 'halt', 'help', 'log-level', 'restart', 'sensor-list', 'sensor-sampling', 'sensor-value',
              'sensor-sampling-clear', 'watchdog'):
        state[n] = (None, None, 'lib')
    state['version-list'] = ((5, 0), None, 'lib')
    state['request-timeout-hint'] = (None, 'T', 'lib')
    classes = []
    for lvl, (_, pr, acts) in enumerate(p[0]):
        ns = {'VERSION_INFO': ('x', 1, 0), 'BUILD_INFO': ('x', 1, 0, 'r'), 'setup_sensors': lambda self: None}
        if pr:
            ns['PROTOCOL_INFO'] = ProtocolFlags(pr[0], pr[1], {x.encode() for x in pr[2]})
            proto = pr
        for n, v, f, w in acts:
            if v == 'disable':
                ns['request_' + n] = None
                state[n.replace('_', '-')] = None
            else:
                ns['request_' + n] = mk(n, v, f, w, lvl)
                state[n.replace('_', '-')] = (v, f, 'lvl%d' % lvl)
        cls = type(DeviceServer)('C%d' % lvl, (cls,), ns)
        classes.append((cls, dict(state), proto))
    h.nontrivial(repr(p))
    # intermediate classes are judged after all subclasses exist: they must be unaffected
    for cls, st, pr in classes[-1:] + ([classes[0]] if len(classes) > 1 else []):
        want = {}
        for n, s in st.items():
            if s is None:
                continue
            v, f, tag = s
            if v is not None and (pr[0], pr[1]) < (v[0], v[1] or 0):
                continue
            if f is not None and not set(f) <= set(pr[2]):
                continue
            want[n] = tag
        with World() as w:
            dev = w.serve(cls('127.0.0.1', 0))
            c = w.connect(dev)
            c.lines()
            if 'help' in want:
                c.send(b'?help\n')
                ms = c.msgs()
                got = [m.arguments[0].decode() for m in ms if m.mtype == m.INFORM and m.name == 'help']
                h.check('help offers exactly the permitted requests', sorted(got) == sorted(want),
                        lambda: (p, sorted(set(got) ^ set(want)), got))
                h.check('help informs carry documentation',
                        all(m.arguments[1].strip() for m in ms if m.mtype == m.INFORM and m.name == 'help'), p)
            for n in sorted(st) + ['no-such']:
                if n in ('halt', 'restart') or (want.get(n) == 'lib'):
                    continue
                c.send(('?%s\n' % n).encode())
                ms = [m for m in c.msgs() if m.mtype == m.REPLY]
                h.check('one reply', len(ms) == 1, lambda: (p, n, [str(m) for m in ms]))
                if n in want:
                    h.check('a permitted request is dispatched to its most derived definition',
                            ms[0].arguments == [b'ok', want[n].encode()], lambda: (p, n, str(ms[0])))
                else:
                    h.check('a request that is not permitted is invalid', ms[0].arguments[0] == b'invalid',
                            lambda: (p, n, str(ms[0])))


def case_doc(h, p):
    kind, doc = p
    def f(self, req, msg):
        pass
    f.__doc__ = doc
    try:
        type(DeviceServer)('D', (DeviceServer,), {kind + '_thing': f})
        h.check('a handler without documentation is refused', doc is not None, p)
    except AssertionError:
        h.check('a documented handler is accepted', not doc, p)


def from_witness(h, w):
    for p in PROTOS:
        for v in REQS:
            for f in (None, 'M', 'T'):
                yield 'chain', ([('proto', p, [('aa', v, f, False), ('ab_cd', None, None, True)]),
                                 ('proto', None, [('ab_cd', 'disable', None, False)])],)
                yield 'chain', ([('proto', (5, 1, 'MI'), [('aa', v, f, False)]), ('proto', p, [])],)
