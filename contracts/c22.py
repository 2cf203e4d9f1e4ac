"""C22: contracts on server.DeviceLogger and the log-level request."""
from .common import *          # noqa

MODULES = ['core', 'kattypes', 'server']
UNDER_CONTRACT = ['server.DeviceLogger.__init__', '...level_name', '...level_from_name', '...set_log_level',
                  '...set_log_level_by_name', '...log', '...trace/debug/info/warn/error/fatal', '...log_to_python',
                  'server.DeviceServer.request_log_level', 'server.DeviceServerBase.create_log_inform']
ASSUMPTIONS = ['Logger.setLevel raises for anything that is not an int or str (documented behaviour of the logging module)',
               'text is UTF-8 encodable (no lone surrogates)', 'text formatting (msg % args) is proved for literal texts without arguments and with one %s argument']
NAMES = ['all', 'trace', 'debug', 'info', 'warn', 'error', 'fatal', 'off']
PY = {'all': 0, 'trace': 0, 'debug': 10, 'info': 20, 'warn': 30, 'error': 40, 'fatal': 50}
SRC = '''
class PyLog(object):
    def __init__(self):
        self.level = 'unset'
        self.calls = []
    def setLevel(self, level):
        if not isinstance(level, (int, str)):
            raise TypeError('Level not an integer or a valid string')
        self.level = level
    def log(self, level, msg, *args, **kw):
        self.calls.append((level, msg, args))

class Dev(object):
    def __init__(self):
        self.sent = []
    def mass_inform(self, msg):
        self.sent.append(msg)
    def create_log_inform(self, level_name, msg, name, timestamp=None):
        return ('inform', level_name, msg, name, timestamp)
'''


def mk(cx, python=None):
    ip = cx.interp
    ns = run_src(ip, SRC)
    dev = ip.call(ns['Dev'], [])
    py = ip.call(ns['PyLog'], []) if (python if python is not None else cx.pick('python logger', [True, False])) else None
    L_ = ip.get('katcp.server:DeviceLogger')
    lg = ip.call(L_, [dev], {'python_logger': py})
    need(lg, '_log_level')
    return L_, lg, dev, py


def c_levels(cx):
    """level names and numbers map one to one."""
    ip = cx.interp
    L_, lg, dev, py = mk(cx, False)
    consts = [ip.getattr(L_, n.upper()) for n in NAMES]
    cx.prove('level numbers are distinct and ordered', consts == sorted(set(consts)) and len(consts) == 8)
    i = cx.pick('level', range(8))
    nm = ip.call(ip.getattr(lg, 'level_name'), [consts[i]])
    cx.prove('each number has its own name', nm == NAMES[i])
    for v in (NAMES[i], NAMES[i].encode()):
        back = ip.call(ip.getattr(lg, 'level_from_name'), [v])
        cx.prove('each name has its own number', back == consts[i])
    lg.attrs['_log_level'] = consts[i]
    cx.prove('the current level is named', ip.call(ip.getattr(lg, 'level_name'), []) == NAMES[i])


def anylevel(cx, base):
    v = cx.int(base)
    cx.assume(z3.And(v.t >= 0, v.t <= 7))
    return v


def c_set(cx):
    """Setting the level by any byte string or text."""
    ip = cx.interp
    L_, lg, dev, py = mk(cx)
    old = anylevel(cx, 'old')
    lg.attrs['_log_level'] = old
    arg = cx.bytes('name') if cx.pick('bytes', [True, False]) else cx.str('name')
    valid = z3.Or(*[arg.t == zs(n) for n in NAMES])
    st, x = attempt(ip, ip.getattr(lg, 'set_log_level_by_name'), arg)
    new = t(lg.attrs['_log_level'])
    if st == 'ok':
        cx.cover('accepted')
        cx.prove('only valid names are accepted', valid)
        for i, n in enumerate(NAMES):
            cx.prove('a valid name takes effect', z3.Implies(arg.t == zs(n), new == i))
        if py is not None:
            cx.prove('the Python logger gets a level', not isinstance(py.attrs['level'], str) and py.attrs['level'] is not None)
            for n, p in PY.items():
                cx.prove('the Python logger gets the matching level',
                         z3.Implies(arg.t == zs(n), t(py.attrs['level']) == p))
            cx.prove('level off silences every Python severity',
                     z3.Implies(arg.t == zs('off'), t(py.attrs['level']) > 50))
    else:
        cx.cover('refused')
        cx.prove('valid names are not refused', z3.Not(valid))
        cx.prove('refused with a value error', is_exc(ip, x, ValueError))
        cx.prove('a refused name changes nothing', new == old.t)
        cx.prove('a refused name leaves the Python logger alone', py is None or py.attrs['level'] == 'unset')


def c_request(cx):
    """?log-level with no, one or two arguments of any content, from any current level."""
    ip = cx.interp
    L_, lg, dev, py = mk(cx)
    old = anylevel(cx, 'old')
    lg.attrs['_log_level'] = old
    n = cx.pick('nargs', [0, 1, 2])
    args = [cx.bytes('arg') for _ in range(n)]
    M = ip.get('katcp.core:Message')
    msg = ip.call(ip.getattr(M, 'request'), ['log-level'] + args)
    ns = run_src(ip, 'class Self(object):\n    pass\n')
    self_ = ip.call(ns['Self'], [])
    self_.attrs['log'] = lg
    conn = ip.call(ns['Self'], [])
    conn.attrs['mass_inform'] = None
    req = ip.call(ip.get('katcp.server:ClientRequestConnection'), [conn, msg])
    st, x = attempt(ip, ip.get('katcp.server:DeviceServer.request_log_level'), self_, req, msg)
    new = t(lg.attrs['_log_level'])
    valid = z3.Or(*[args[0].t == zs(k) for k in NAMES]) if n else z3.BoolVal(True)
    if st == 'raise':
        cx.cover('fail')
        cx.prove('refused with a declared failure', is_exc(ip, x, 'katcp.core:FailReply'))
        cx.prove('valid levels are not refused', z3.Not(valid))
        cx.prove('a refused level changes nothing', new == old.t)
        return
    cx.cover('ok')
    cx.prove('invalid levels are refused', valid)
    r = ip.getattr(x, 'arguments')
    cx.prove('the reply is ok and the level', ip.getattr(x, 'name') == 'log-level' and len(r) == 2)
    cx.prove('the reply says ok', t(r[0]) == zs(b'ok'))
    for i, k in enumerate(NAMES):
        cx.prove('the reported level is the level in force', (t(r[1]) == zs(k)) == (new == i))
        if n:
            cx.prove('the level in force is the one asked for', z3.Implies(args[0].t == zs(k), new == i))
    if not n:
        cx.prove('a query changes nothing', new == old.t)


def c_log(cx):
    """log() at any message level against any current level."""
    ip = cx.interp
    L_, lg, dev, py = mk(cx)
    cur, lvl = anylevel(cx, 'current'), anylevel(cx, 'level')
    lg.attrs['_log_level'] = cur
    text, args, want = cx.pick('text', [('hello', (), 'hello'), ('100% done', (), '100% done'), ('a %s b', ('x',), 'a x b'),
                                        ('50%', (), '50%'), ('%d and %s', (3, 'y'), '3 and y'), ('two', ('more',), None)])
    kw = {}
    name = cx.pick('name', [None, 'sub.logger'])
    if name:
        kw['name'] = name
    ts = cx.real('timestamp') if cx.pick('timestamp given', [False, True]) else None
    if ts is not None:
        kw['timestamp'] = ts
    st, x = attempt(ip, ip.getattr(lg, 'log'), lvl, text, *args, **kw)
    cx.prove('logging never raises', st == 'ok')
    if st != 'ok':
        return
    sent = dev.attrs['sent']
    cx.prove('sent exactly when the level is at or above the current one', z3.BoolVal(len(sent) == 1) == (lvl.t >= cur.t))
    cx.prove('sent at most once', len(sent) <= 1)
    if sent:
        _, ln, m, nm, tm = sent[0]
        for i, k in enumerate(NAMES):
            cx.prove("sent with the level's own name", z3.Implies(lvl.t == i, t(ln) == zs(k)))
        cx.prove('sent with the text', want is None or m == want)
        cx.prove('sent under the logger name', nm == (name or 'root'))
        cx.prove('sent with the given time', (tm is None) if ts is None else t(tm) == ts.t)
    if py is not None:
        calls = py.attrs['calls']
        cx.prove('the Python logger hears it once', len(calls) == 1)
        for i, k in enumerate(NAMES[:-1]):
            cx.prove('the Python logger hears the matching severity',
                     z3.Implies(lvl.t == i, t(calls[0][0]) == PY[k]))


def c_methods(cx):
    """trace() .. fatal() log at their own level."""
    ip = cx.interp
    L_, lg, dev, py = mk(cx)
    m = cx.pick('method', NAMES[1:-1])
    cur = anylevel(cx, 'current')
    lg.attrs['_log_level'] = cur
    st, x = attempt(ip, ip.getattr(lg, m), 'text %s', 'a')
    cx.prove('logging never raises', st == 'ok')
    sent = dev.attrs['sent']
    i = NAMES.index(m)
    cx.prove('sent exactly when the level is at or above the current one', z3.BoolVal(len(sent) == 1) == (i >= cur.t))
    if sent:
        cx.prove("sent with the level's own name", sent[0][1] == m and sent[0][2] == 'text a')
    if py is not None:
        cx.prove('the Python logger hears the matching severity', py.attrs['calls'][0][0] == PY[m])


def c_forward(cx):
    """log_to_python: every level, any time, name and text."""
    ip = cx.interp
    L_, lg, dev, py = mk(cx, True)
    k = cx.pick('level', NAMES)
    M = ip.get('katcp.core:Message')
    ts, nm, tx = cx.bytes('ts'), cx.bytes('name'), cx.bytes('text')
    msg = ip.call(ip.getattr(M, 'inform'), ['log', k, ts, nm, tx])
    st, x = attempt(ip, ip.getattr(L_, 'log_to_python'), py, msg)
    cx.prove('every level can be forwarded', st == 'ok')
    if st == 'ok':
        c = py.attrs['calls']
        cx.prove('forwarded once', len(c) == 1)
        cx.prove('forwarded at the corresponding severity', k == 'off' or c[0][0] == PY[k])


def c_create(cx):
    """the log inform of a server: arguments in order, own level name."""
    ip = cx.interp
    ns = run_src(ip, 'class Self(object):\n    pass\n')
    self_ = ip.call(ns['Self'], [])
    v = cx.int('major')
    cx.assume(v.t >= 1)
    pf = ip.call(ns['Self'], [])
    pf.attrs['major'] = v
    self_.attrs['PROTOCOL_INFO'] = pf
    k = cx.pick('level', NAMES)
    nm, tx, ts = cx.str('name'), cx.str('text'), cx.real('timestamp')
    cx.assume(z3.And(ts.t >= 0, STR.UF['nosurr'](nm.t), STR.UF['nosurr'](tx.t)))
    st, m = attempt(ip, ip.get('katcp.server:DeviceServerBase.create_log_inform'), self_, k, tx, nm, timestamp=ts)
    cx.prove('a log inform can be built', st == 'ok', info=ename(m))
    if st == 'ok':
        a = ip.getattr(m, 'arguments')
        cx.prove('it is a log inform of four arguments', ip.getattr(m, 'name') == 'log' and len(a) == 4 and
                 ip.getattr(m, 'mtype') == ip.getattr(ip.get('katcp.core:Message'), 'INFORM'))
        cx.prove('level, time, name, text in that order', z3.And(t(a[0]) == zs(k), t(a[2]) == STR.UF['u8enc'](nm.t),
                                                                        t(a[3]) == STR.UF['u8enc'](tx.t)))


CONTRACTS = {'levels': (c_levels, {}), 'set': (c_set, {'expect': ['accepted', 'refused']}),
             'request': (c_request, {'expect': ['ok', 'fail']}), 'log': (c_log, {}), 'methods': (c_methods, {}),
             'forward': (c_forward, {}), 'create': (c_create, {})}
