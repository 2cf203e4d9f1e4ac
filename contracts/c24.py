"""C24: contracts on the handler-collecting metaclasses and the requirement decorators."""
from .common import *          # noqa

MODULES = ['core', 'kattypes', 'server']
UNDER_CONTRACT = ['core.DeviceMetaclass.__init__', 'core.DeviceMetaclass.check_protocol',
                  'core.DeviceServerMetaclass.check_protocol', 'core.convert_method_name',
                  'kattypes.minimum_katcp_version', 'kattypes.has_katcp_protocol_flags',
                  'kattypes.request_timeout_hint', 'server.DeviceServerBase.handle_request (dispatch lookup)']
ASSUMPTIONS = ['dir() and attribute lookup on classes follow the method resolution order']
SRC = '''
class Base(object, metaclass=Meta):
    PROTOCOL_INFO = info0
    def request_plain(self, req, msg):
        "doc"
    def request_two_words(self, req, msg):
        "doc"
    def inform_note_it(self, msg):
        "doc"
    def reply_some_thing(self, msg):
        "doc"
    def reply_inform(self, *a):
        pass
    def helper(self):
        pass
'''


def flagset(cx, base):
    f = cx.bytes(base)
    return f, CharSet(f.t, SBytes)


def mkinfo(cx, base):
    """protocol flags object with unknown version and flags (unchecked legality: more general)."""
    ip = cx.interp
    o = ip.call(ip.get('katcp.core:ProtocolFlags'), [5, 1, ISet()])
    major, minor = cx.int(base + '_major'), cx.int(base + '_minor')
    need(o, 'major', 'minor', 'flags')
    f, cs = flagset(cx, base + '_flags')
    o.attrs.update(major=major, minor=minor, flags=cs)
    return o, major, minor, f


def c_requirement(cx):
    """A handler is offered iff the declared protocol meets its requirement (any versions, any flags)."""
    ip = cx.interp
    K = 'katcp.kattypes:'
    info, major, minor, f = mkinfo(cx, 'server')
    h = run_src(ip, 'def request_x(self, req, msg):\n    "doc"\n')['request_x']
    want = z3.BoolVal(True)
    minv = cx.pick('min version', [False, True, 'major only'])
    if minv:
        rmaj, rmin = cx.int('need_major'), cx.int('need_minor')
        if minv == 'major only':
            h = ip.call(ip.call(ip.get(K + 'minimum_katcp_version'), [rmaj]), [h])
            rmin = SInt(z3.IntVal(0))
        else:
            h = ip.call(ip.call(ip.get(K + 'minimum_katcp_version'), [rmaj, rmin]), [h])
        want = z3.And(want, z3.Or(major.t > rmaj.t, z3.And(major.t == rmaj.t, minor.t >= rmin.t)))
    nflags = cx.pick('flags needed', [None, 0, 1, 2, 3])
    if nflags is not None:
        fl = []
        for i in range(nflags):
            c = cx.bytes('need_flag')
            cx.assume(z3.Length(c.t) == 1)
            fl.append(c)
        h = ip.call(ip.call(ip.get(K + 'has_katcp_protocol_flags'), [fl]), [h])
        for c in fl:
            want = z3.And(want, I.charin(cx, f.t, c.t))
    if cx.pick('timeout hint', [False, True]):
        h = ip.call(ip.call(ip.get(K + 'request_timeout_hint'), [15]), [h])
    ns = run_src(ip, 'class S(object, metaclass=Meta):\n    PROTOCOL_INFO = info\n    request_x = h\n'
                     '    def request_free(self, req, msg):\n        "doc"\n',
                 Meta=ip.get('katcp.core:DeviceServerMetaclass'), info=info, h=h)
    got = handlers(ip, ns['S'])
    cx.prove('offered exactly when the protocol requirement is met', z3.BoolVal('x' in got) == want)
    cx.prove('handlers without a requirement are always offered', 'free' in got)


def handlers(ip, cls, kind='_request_handlers'):
    d = ip.getattr(cls, kind)
    return {k: v for k, v in d.items}


def c_names(cx):
    """which methods become handlers of which kind, under which names."""
    ip = cx.interp
    info, _, _, _ = mkinfo(cx, 'server')
    meta = cx.pick('metaclass', ['DeviceServerMetaclass', 'DeviceMetaclass'])
    ns = run_src(ip, SRC, Meta=ip.get('katcp.core:' + meta), info0=info)
    B = ns['Base']
    cx.prove('requests are the request_ methods', set(handlers(ip, B)) == {'plain', 'two-words'})
    cx.prove('informs are the inform_ methods', set(handlers(ip, B, '_inform_handlers')) == {'note-it'})
    cx.prove('replies are the reply_ methods', set(handlers(ip, B, '_reply_handlers')) == {'some-thing'})
    kind = cx.pick('kind', ['request', 'inform', 'reply'])
    st, x = attempt(ip, lambda_src(ip, B, kind, ns))
    cx.prove('a handler without documentation is refused at class definition', st == 'raise')


def lambda_src(ip, B, kind, ns):
    return Native(lambda ip2, a, k: run_src(ip, 'class N(Base):\n    def %s_undocumented(self, *a):\n        pass\n' % kind,
                                            Base=B), 'define')


LEVEL = {'inherit': '    pass\n', 'redefine': '    def request_a(self, req, msg):\n        "doc{0}"\n',
         'disable': '    request_a = None\n',
         'redefine with requirement': '    @minv(rmaj{0}, rmin{0})\n    def request_a(self, req, msg):\n        "doc{0}"\n',
         'new protocol': '    PROTOCOL_INFO = info{0}\n'}


def c_hierarchy(cx, first):
    """Chain of three classes: per class redefine / disable / inherit / other protocol; plus an untouched sibling."""
    ip = cx.interp
    env = {'Meta': ip.get('katcp.core:DeviceServerMetaclass'), 'minv': ip.get('katcp.kattypes:minimum_katcp_version')}
    infos = {}
    info, major, minor, f = mkinfo(cx, 'base')
    env['info0'] = info
    src = ('class C0(object, metaclass=Meta):\n    PROTOCOL_INFO = info0\n    @minv(rmaj0, rmin0)\n'
           '    def request_a(self, req, msg):\n        "doc0"\n    def request_b(self, req, msg):\n        "doc"\n')
    for i in range(3):
        env['rmaj%d' % i], env['rmin%d' % i] = cx.int('need_major'), cx.int('need_minor')
    cur_info = (major, minor)
    state = ('def', 0, True)                     # which definition is current
    expect = []

    def met(state, inf):
        if state[0] == 'none':
            return z3.BoolVal(False)
        if not state[2]:
            return z3.BoolVal(True)
        a, b = env['rmaj%d' % state[1]].t, env['rmin%d' % state[1]].t
        return z3.Or(inf[0].t > a, z3.And(inf[0].t == a, inf[1].t >= b))
    expect.append((met(state, cur_info), state))
    for i in (1, 2):
        k = first if i == 1 else cx.pick('level', sorted(LEVEL))
        src += 'class C%d(C%d):\n%s' % (i, i - 1, LEVEL[k].format(i))
        if k == 'redefine':
            state = ('def', i, False)
        elif k == 'disable':
            state = ('none', i, False)
        elif k == 'redefine with requirement':
            state = ('def', i, True)
        elif k == 'new protocol':
            inf, a, b, _ = mkinfo(cx, 'sub')
            env['info%d' % i] = inf
            cur_info = (a, b)
        expect.append((met(state, cur_info), state))
    src += 'class Sibling(C0):\n    pass\n'
    expect.append(expect[0])
    ns = run_src(ip, src, **env)
    for c, (w, state) in zip(['C0', 'C1', 'C2', 'Sibling'], expect):
        got = handlers(ip, ns[c])
        cx.prove('offered through subclasses exactly when the requirement is met', z3.BoolVal('a' in got) == w)
        cx.prove('the offered handler is the most derived definition', 'a' not in got or
                 ip.getattr(got['a'], '__doc__') == 'doc%d' % state[1])
        cx.prove('handlers nobody touched stay offered', 'b' in got)


def c_builtin(cx):
    """The library's own servers: offered iff requirement met, documented, and subclasses do not disturb them."""
    ip = cx.interp
    S = ip.get('katcp.server:DeviceServer')
    before = dict(handlers(ip, S))
    info, major, minor, f = mkinfo(cx, 'server')
    ns = run_src(ip, 'class Sub(S):\n    PROTOCOL_INFO = info\n    request_halt = None\n', S=S, info=info)
    got = handlers(ip, ns['Sub'])
    everything = {k[len('request_'):].replace('_', '-'): ip.getattr(S, k) for k in
                  [n for c in S.mro if isinstance(c, IClass) for n in c.ns] if k.startswith('request_')}
    for name, h in sorted(everything.items()):
        if name == 'halt':
            continue
        w = z3.BoolVal(True)
        mv = attempt(ip, Native(lambda ip2, a, k, h=h: ip.getattr(h, '_minimum_katcp_version'), 'g'))
        if mv[0] == 'ok':
            a, b = mv[1]
            w = z3.Or(major.t > a, z3.And(major.t == a, minor.t >= b))
        fl = attempt(ip, Native(lambda ip2, a, k, h=h: ip.getattr(h, '_has_katcp_protocol_flags'), 'g'))
        if fl[0] == 'ok':
            for c in fl[1]:
                w = z3.And(w, I.charin(cx, f.t, zs(c)))
        cx.prove('library request %s offered iff its requirement is met' % name, z3.BoolVal(name in got) == w)
        w2 = {'version-list': z3.Or(major.t > 5, z3.And(major.t == 5, minor.t >= 0)),
              'request-timeout-hint': I.charin(cx, f.t, zs(b'T'))}.get(name, z3.BoolVal(True))
        cx.prove('library request %s needs what the protocol says it needs' % name, z3.BoolVal(name in got) == w2)
        if name in got:
            d = ip.getattr(got[name], '__doc__')
            cx.prove('every offered handler has documentation', isinstance(d, str) and bool(d))
    cx.prove('a disabled handler is not offered', 'halt' not in got)
    cx.prove('a subclass does not disturb its base', handlers(ip, S) == before and 'halt' in before)


CONTRACTS = {'requirement': (c_requirement, {}), 'names': (c_names, {}),
             'hierarchy': (c_hierarchy, {'split': sorted(LEVEL)}), 'library requests': (c_builtin, {})}
