"""C05: contracts on unpack_types/pack_types and on the request/inform/unpack_message/return_reply/send_reply decorators.

Parameter types are ghost types: whether a type accepts a value, and what the value decodes to, is
arbitrary (chosen by the prover); C03/C04 relate the library's own types to their bytes.
"""
from .common import *          # noqa
from .c04 import same, str_of

MODULES = ['core', 'kattypes']
UNDER_CONTRACT = ['kattypes.' + f for f in ('unpack_types', 'pack_types', 'request', 'inform', 'unpack_message', 'return_reply',
                                            'send_reply', 'make_reply', 'async_make_reply', 'Parameter.unpack', 'Parameter.__init__')]
ASSUMPTIONS = ['signatures of up to three declared parameters (the last one repeated or not) and up to five supplied arguments; '
               'argument bytes, decoded values and accept/refuse outcomes are arbitrary',
               'inspect.getfullargspec and functools.wraps/update_wrapper by their documented contracts',
               'message construction by the contracts of C01']

GHOST = '''
class Typ(Base):
    def __init__(self, i, multiple=False):
        Base.__init__(self, multiple=multiple)
        self.i = i
    def get_default(self):
        return deflt(self.i)
    def check(self, value, major):
        if refuses(self.i, value):
            raise ValueError('refused')
    def encode(self, value, major):
        return enc(self.i, value, major)
    def decode(self, value, major):
        return dec(self.i, value, major)
'''


class World(object):
    """n ghost types and what each of them does with each value (decided lazily, consistently)."""

    def __init__(self, cx, n, multiple):
        self.cx, self.ip, self.n, self.multiple = cx, cx.interp, n, multiple
        self.dec, self.enc, self.defaults, self.bad = [], [], {}, []
        ip = cx.interp

        names = {'deflt': self._deflt, 'refuses': lambda i, v: False, 'enc': self._enc, 'dec': self._dec}
        wrap = lambda f: ip.lib.N(f, 'ghost')
        self.ns = run_src(ip, GHOST, Base=ip.get('katcp.kattypes:KatcpType'), **{k: wrap(f) for k, f in names.items()})
        self.types = tuple(ip.call(self.ns['Typ'], [i, multiple and i == n - 1], {}) for i in range(n))

    def _deflt(self, i):
        if i not in self.defaults:
            k = self.cx.pick('default of %d' % i, ['none', 'optional', 'value'])
            self.defaults[i] = (k, self.cx.int('default%d' % i) if k == 'value' else None)
        k, v = self.defaults[i]
        if k == 'none':
            raise PyExc(ValueError('No value or default given'))
        return v

    def _dec(self, i, v, m):
        ok = self.cx.pick('decode %d' % len(self.dec), [True, False])
        r = self.cx.int('val%d' % len(self.dec))
        self.dec.append((i, v, m, ok, r))
        if not ok:
            raise PyExc(ValueError('bad value'))
        return r

    def _enc(self, i, v, m):
        ok = self.cx.pick('encode %d' % len(self.enc), [True, False])
        r = self.cx.bytes('wire%d' % len(self.enc))
        self.enc.append((i, v, m, ok, r))
        if not ok:
            raise PyExc(ValueError('bad result'))
        return r

    def tix(self, k):
        return min(k, self.n - 1)

    def expect(self, values, log):
        """For the given arguments: ('count',) | ('bad', positions) | ('ok', expected list of (what, ...))."""
        n = self.n
        if len(values) > n and not self.multiple:
            return ('count',)
        out, bad = [], []
        for k in range(max(n, len(values))):
            if k < len(values) and values[k] is not None:
                es = [e for e in log if e[0] == self.tix(k) and same(e[1], values[k])]
                if any(not e[3] for e in es):
                    bad.append(k)
                out.append(('coded', es))
            else:
                d = self.defaults.get(self.tix(k))
                if d is not None and d[0] == 'none':
                    bad.append(k)
                out.append(('default', d))
        return ('bad', bad) if bad else ('ok', out)


def check_ok(cx, w, exp, got, m):
    """got: list of decoded values for every position"""
    cx.prove('accepted only with the declared parameters, all acceptable', exp[0] == 'ok', info=exp)
    if exp[0] != 'ok':
        raise PathEnd('reported')
    cx.prove('one value per parameter', len(got) == len(exp[1]), info=(len(got), len(exp[1])))
    for k, (what, d) in enumerate(exp[1]):
        if k >= len(got):
            break
        if what == 'coded':
            cx.prove('each argument decoded by the type of its own position', any(same(got[k], e[4]) for e in d), info=(k, got[k], d))
            cx.prove('under the declared version', all(same(e[2], m) for e in d))
        else:
            cx.prove('an omitted parameter gets its default', d is not None and
                     (got[k] is None if d[1] is None else same(got[k], d[1])), info=(k, got[k], d))


def check_failure(cx, w, exp, x, nargs, names):
    ip = cx.interp
    cx.prove('refused only for a wrong count or an unacceptable value', exp[0] != 'ok', info=(ename(x), str_of(ip, x)))
    cx.prove('as a declared failure', is_exc(ip, x, 'katcp.core:FailReply'), info=ename(x))
    msg = str_of(ip, x)
    if exp[0] == 'bad':
        cx.prove('naming the offending parameter', any('%d' % (k + 1) in msg and (k >= len(names) or names[k] in msg) for k in exp[1]),
                 info=(msg, exp))
    elif exp[0] == 'count':
        cx.prove('naming the wrong count', any(s in msg.lower() for s in ('many', 'few', 'number', 'count', 'expect')), info=msg)


def shape(cx, lo=0):
    n = cx.pick('declared', list(range(lo, 4)))
    multiple = cx.pick('repeated', [False, True]) if n else False
    return n, multiple


def c_unpack(cx):
    ip = cx.interp
    n, multiple = shape(cx)
    w = World(cx, n, multiple)
    k = cx.pick('supplied', list(range(0, 6 if multiple else 5)))
    if k > n + 2:
        raise PathEnd('skipped')
    args = [cx.bytes('a%d' % i) for i in range(k)]
    names = ['alpha', 'beta', 'gamma'][:cx.pick('names', [n, 0])]
    m = cx.int('major')
    cx.assume(m.t >= 4)
    given = args if cx.pick('as', ['list', 'tuple']) == 'list' else tuple(args)
    st, x = attempt(ip, ip.get('katcp.kattypes:unpack_types'), w.types, given, names, m)
    exp = w.expect(args, w.dec)
    if st == 'ok':
        cx.cover('accepted')
        check_ok(cx, w, exp, list(ip.items_of(x)), m)
    else:
        cx.cover('refused')
        check_failure(cx, w, exp, x, k, names)


def c_pack(cx):
    ip = cx.interp
    n, multiple = shape(cx)
    w = World(cx, n, multiple)
    k = cx.pick('supplied', list(range(0, 6 if multiple else 5)))
    if k > n + 2:
        raise PathEnd('skipped')
    none = cx.pick('none at', [None] + list(range(k)))
    args = [None if i == none else cx.int('a%d' % i) for i in range(k)]
    m = cx.int('major')
    cx.assume(m.t >= 4)
    given = list(args) if cx.pick('as', ['list', 'tuple']) == 'list' else tuple(args)
    st, x = attempt(ip, ip.get('katcp.kattypes:pack_types'), w.types, given, m)
    if st == 'ok':
        cx.cover('accepted')
        pack_ok(cx, w, args, list(ip.items_of(x)), m)
    else:
        cx.cover('refused')
        pack_failed(cx, w, args, x)


def pack_ok(cx, w, args, got, m):
    n = w.n
    cx.prove('only results of the declared count are packed', len(args) <= n or w.multiple)
    cx.prove('one packed value per declared result', len(got) == max(n, len(args)), info=(len(got), n, len(args)))
    for k in range(min(len(got), max(n, len(args)))):
        i = w.tix(k)
        d = w.defaults.get(i)
        v = args[k] if k < len(args) and args[k] is not None else (d[1] if d else None)
        es = [e for e in w.enc if e[0] == i and same(e[1], v)]
        cx.prove('each result encoded by the type of its own position', v is not None and any(e[3] and same(got[k], e[4]) for e in es),
                 info=(k, v, w.enc))
        cx.prove('under the declared version', all(same(e[2], m) for e in es))


def pack_failed(cx, w, args, x):
    """a refusal needs a reason"""
    reasons = []
    if len(args) > w.n and not w.multiple:
        reasons.append('count')
    if any(not e[3] for e in w.enc):
        reasons.append('value')
    for k in range(max(w.n, len(args))):
        d = w.defaults.get(w.tix(k)) if w.n else None
        if (k >= len(args) or args[k] is None) and d is not None and d[1] is None:
            reasons.append('missing')
    cx.prove('refused only for a wrong count or an unacceptable result', bool(reasons), info=(ename(x), w.defaults))


HANDLERS = '''
def build(kind, order, types, rtypes, opts, ropts, log, result, request, inform, unpack_message, return_reply):
    if kind == 'req':
        def request_do_it(self, req, alpha, beta=None, *gamma):
            """doc"""
            log.append((self, req, None, (alpha, beta) + gamma))
            return result()
    elif kind == 'req+msg':
        def request_do_it(self, req, msg, alpha, beta=None, *gamma):
            """doc"""
            log.append((self, req, msg, (alpha, beta) + gamma))
            return result()
    elif kind in ('inform', 'unpack'):
        def request_do_it(self, alpha, beta=None, *gamma):
            """doc"""
            log.append((self, None, None, (alpha, beta) + gamma))
            return result()
    else:
        def request_do_it(self, msg, alpha, beta=None, *gamma):
            """doc"""
            log.append((self, None, msg, (alpha, beta) + gamma))
            return result()
    rq = {'req': request, 'req+msg': request, 'inform': inform, 'inform+msg': inform, 'unpack': unpack_message}[kind]
    h = request_do_it
    if order == 'inside':
        h = return_reply(*rtypes, **ropts)(h)
    h = rq(*types, **opts)(h)
    if order == 'outside':
        h = return_reply(*rtypes, **ropts)(h)
    return h
'''


class _Msg(object):
    pass


def handler(cx, kind, order, w, rw, m, result, log):
    ip = cx.interp
    g = lambda n: ip.get('katcp.kattypes:' + n)
    ns = run_src(ip, HANDLERS)
    opts = {} if m is None else {'major': m}
    if '+msg' in kind:
        opts['include_msg'] = True
    res = ip.lib.N(result, 'result')
    I_opts = IDict(list(opts.items()))
    I_ropts = IDict([] if m is None else [('major', m)])
    return ip.call(ns['build'], [kind, order, w.types, rw.types if rw else (), I_opts, I_ropts, log, res,
                                 g('request'), g('inform'), g('unpack_message'), g('return_reply')], {})


def c_handler(cx):
    """Every kind of decorated handler: called exactly with the declared parameters."""
    ip = cx.interp
    kind = cx.pick('kind', ['req', 'req+msg', 'inform', 'inform+msg', 'unpack'])
    order = cx.pick('return_reply', ['absent', 'inside', 'outside'] if kind.startswith('req') else ['absent'])
    multiple = cx.pick('repeated', [False, True])
    w = World(cx, 2, multiple)
    rw = World(cx, 0, False)
    m = cx.pick('major', [None, 4])
    k = cx.pick('supplied', [0, 1, 2, 3, 4] if multiple else [0, 1, 2, 3])
    args = [cx.bytes('a%d' % i) for i in range(k)]
    log = []
    out = object()
    h = handler(cx, kind, order, w, rw, m, lambda: (('ok',) if order != 'absent' else 'RESULT'), log)
    dev, req = 'DEVICE', 'REQ'
    msg = run_src(ip, 'class Msg(object):\n  pass\nm = Msg()\n')['m']
    msg.attrs['arguments'] = list(args)
    msg.attrs['name'] = 'do-it'
    st, x = attempt(ip, h, *([dev] + ([req] if kind.startswith('req') else []) + [msg]))
    exp = w.expect(args, w.dec)
    if st != 'ok':
        cx.cover('refused')
        cx.prove('the handler body does not run', log == [])
        check_failure(cx, w, exp, x, k, ['alpha', 'beta', 'gamma'] if k < 3 else ['alpha', 'beta'])
        return
    cx.cover('called')
    cx.prove('the handler runs once', len(log) == 1)
    s, r, mg, got = log[0]
    cx.prove('as a method of its device', s == dev)
    if kind.startswith('req'):
        cx.prove('with the request', r == req)
    if '+msg' in kind:
        cx.prove('with the message, where declared', mg is msg)
    check_ok(cx, w, exp, list(got), 5 if m is None else m)
    if order == 'absent':
        cx.prove('and its result is returned', x == 'RESULT')
    cx.prove('the arguments of the message are left alone', len(msg.attrs['arguments']) == k)


def c_reply(cx):
    """return_reply / async_make_reply / send_reply: declared results encoded by position, or a failure."""
    ip = cx.interp
    n, multiple = shape(cx)
    w = World(cx, n, multiple)
    via = cx.pick('via', ['return_reply', 'future', 'send_reply'])
    status = cx.pick('status', ['ok', 'fail', 'other', 'bytes', 'empty', 'none'])
    m = cx.pick('major', [None, 4])
    k = cx.pick('results', list(range(0, n + 2)) if status == 'ok' else [0, 1, 2])
    if status in ('other', 'bytes', 'empty', 'none'):
        k = 0
    text = cx.str('reason')
    cx.assume(STR.UF['nosurr'](text.t))
    args = [cx.int('r%d' % i) for i in range(k)]
    if status == 'fail':
        args = [text, 'extra'][:k]
    head = {'ok': ['ok'], 'fail': ['fail'], 'other': ['okay'], 'bytes': [b'ok'], 'empty': [], 'none': None}[status]
    result = None if head is None else head + args
    if result is not None and cx.pick('as', ['tuple', 'list']) == 'tuple':
        result = tuple(result)
    g = lambda nm: ip.get('katcp.kattypes:' + nm)
    opts = {} if m is None else {'major': m}
    sent = []
    if via == 'send_reply':
        ns = run_src(ip, '''
class Req(object):
    def __init__(self):
        self.msg = Msg()
    def reply_with_message(self, m):
        sent.append(m)
class Msg(object):
    name = 'do-it'
def cb(self, *args):
    return result()
''', sent=sent, result=ip.lib.N(lambda: full(), 'result'))
        req = ip.call(ns['Req'], [], {})

        def full():
            return None if result is None else (req,) + tuple(result)
        h = ip.call(ip.call(g('send_reply'), list(w.types), dict(opts)), [ns['cb']], {})
        st, x = attempt(ip, h, 'DEV', req)
        if st == 'ok':
            cx.prove('the reply is sent once', len(sent) == 1)
            x = sent[0]
        else:
            cx.prove('nothing is sent on a failure', sent == [])
    else:
        fut = IFuture() if via == 'future' else None

        def res():
            return result if via != 'future' else fut
        ns = run_src(ip, '''
def request_do_it(self, req, msg):
    """doc"""
    return result()
''', result=ip.lib.N(res, 'result'))
        if fut is not None:
            fut.state, fut.value = 'result', result
        h = ip.call(ip.call(g('return_reply'), list(w.types), dict(opts)), [ns['request_do_it']], {})
        st, x = attempt(ip, h, 'DEV', 'REQ', 'MSG')
        if via == 'future' and st == 'ok':
            cx.prove('a pending result gives a pending reply', isinstance(x, IFuture))
            st, x = ('ok', x.value) if x.state == 'result' else ('raise', x.value)
    major = 5 if m is None else m
    if st == 'ok':
        cx.cover('replied')
        cx.prove('only "ok" and "fail" results become replies', status in ('ok', 'fail'))
        need(x, 'arguments', 'name', 'mtype')
        M = ip.get('katcp.core:Message')
        cx.prove('a reply', x.attrs['mtype'] == ip.getattr(M, 'REPLY'))
        cx.prove('named after the request', x.attrs['name'] == 'do-it', info=x.attrs['name'])
        got = list(ip.items_of(x.attrs['arguments']))
        cx.prove('with the status first', len(got) >= 1 and got[0] == status.encode())
        if status == 'ok':
            pack_ok(cx, w, args, got[1:], major)
        else:
            cx.prove('a failure carries exactly its reason', k == 1 and len(got) == 2 and
                     (isinstance(got[1], Sym) and True), info=got)
            if isinstance(got[1], Sym):
                cx.prove('the reason given', got[1].t == STR.UF['u8enc'](text.t))
    else:
        cx.cover('failed')
        if status == 'ok':
            pack_failed(cx, w, args, x)
        elif status == 'fail':
            cx.prove('a failure with its reason is never refused', k != 1, info=str_of(ip, x))


def c_declare(cx):
    """Only the last type may be repeated; unknown options are refused."""
    ip = cx.interp
    which = cx.pick('decorator', ['request', 'inform', 'unpack_message', 'return_reply'])
    n = cx.pick('declared', [0, 1, 2, 3])
    at = cx.pick('repeated', [None] + list(range(n)))
    opt = cx.pick('option', [None, 'bogus'])
    T = ip.get('katcp.kattypes:Int')
    types = [ip.call(T, [], {'multiple': i == at}) for i in range(n)]
    st, x = attempt(ip, ip.get('katcp.kattypes:' + which), *types, **({'bogus': 1} if opt else {}))
    ok = (at is None or at == n - 1) and not opt
    cx.prove('a repeated parameter that is not the last, or an unknown option, is refused; others are not', (st == 'ok') == ok)
    if st != 'ok':
        cx.prove('with a type error', is_exc(ip, x, TypeError), info=ename(x))


CONTRACTS = {'unpack': (c_unpack, {'bounded': 'up to three declared parameters and five arguments', 'expect': ['accepted', 'refused']}), 'pack': (c_pack, {'bounded': 'up to three declared parameters and five arguments', 'expect': ['accepted', 'refused']}),
             'handler': (c_handler, {'bounded': 'up to three declared parameters and five arguments', 'expect': ['called', 'refused']}), 'reply': (c_reply, {'bounded': 'up to three declared parameters and five arguments', 'expect': ['replied', 'failed']}),
             'declarations': (c_declare, {})}
